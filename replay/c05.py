"""C05: element by element, in order, exact positions (oracle: a direct Python loop)"""
from h import *
import collections

CALLS = []


class Boom(Exception):
    pass


def item(v):
    """the item schema: ints double; 'x...' fail; None omits; records every call"""
    CALLS.append(v)
    if v is None:
        raise PydanticOmit
    if isinstance(v, str):
        raise PydanticCustomError('bad_' + v[:3], 'bad')
    return v * 2


ITEM = cs.no_info_plain_validator_function(item)
ITEM3 = [cs.no_info_plain_validator_function(lambda v, k=k: item(v) + k * 1000) for k in range(7)]


def oracle_seq(s, ff, omit_ok=True):
    out, errs, calls = [], [], []
    for i, v in enumerate(s):
        calls.append(v)
        if v is None:
            continue
        if isinstance(v, str):
            errs.append(('bad_' + v[:3], (i,)))
            if ff:
                break
        else:
            out.append(v * 2)
    return out, errs, calls


class MyMap(collections.abc.Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __repr__(self):
        return f'MyMap({self.d})'


def obs(f, *a, **k):
    CALLS.clear()
    r = run(f, *a, **k)
    return r, list(CALLS)


def seqs(R, n, maxlen):
    rng = R.rng
    yield from ([], [1], ['x'], [None], [1, 2], ['x', 'y'], [None, None], [1, 'x'], ['x', 1], [None, 'x', 1], [1, None, 'x'], ['x', None, 'y', 3], [1, 1, 1], [1, 2, 3, 4, 5])
    for _ in range(n):
        yield [rng.choice([rng.randrange(1, 50), rng.randrange(1, 5), 'x%d' % rng.randrange(3), None]) for _ in range(rng.randrange(0, maxlen))]


def main(R):
    R.rules.append('every collection kind x fail_fast x random sequences of valid/failing/omitted elements; outcome and the exact sequence of item validations compared with a Python loop')
    N = 120 if not THOROUGH else 1500
    kinds = {'list': (lambda ff: cs.list_schema(ITEM, fail_fast=ff), list), 'set': (lambda ff: cs.set_schema(ITEM, fail_fast=ff), set),
             'frozenset': (lambda ff: cs.frozenset_schema(ITEM, fail_fast=ff), frozenset),
             'tuple': (lambda ff: cs.tuple_schema([ITEM], variadic_item_index=0, fail_fast=ff), tuple)}
    for kind, (mk, ctor) in kinds.items():
        for ff in (False, True):
            v = SchemaValidator(mk(ff))
            for s in seqs(R, N, 14 if not THOROUGH else 60):
                out, errs, calls = oracle_seq(s, ff)
                ins = [('python', list(s)), ('python', tuple(s)), ('python', iter(list(s))), ('python', collections.deque(s)), ('json', json.dumps(s)),
                       ('python', dict(enumerate(s)).values())]
                if kind in ('set', 'frozenset') and len(set(s)) == len(s):
                    pass
                for mode, x in ins:
                    label = f'{mode} {kind} ff={ff} {type(x).__name__} {s!r}'
                    R.mark(label)
                    got, c = obs(getattr(v, 'validate_' + mode), x)
                    want = ERR(*errs) if errs else OK(ctor(out))
                    R.same(label, got, want, nt=label)
                    R.check(c == calls, label + ' (item validations)', '', c, calls)
            if R.out_of_time():
                return
    # no item schema: elements unchanged, same order, a new collection
    for kind, mk in (('list', cs.list_schema()), ('set', cs.set_schema()), ('frozenset', cs.frozenset_schema()), ('tuple', cs.tuple_schema([cs.any_schema()], variadic_item_index=0))):
        v = SchemaValidator(mk)
        ctor = {'list': list, 'set': set, 'frozenset': frozenset, 'tuple': tuple}[kind]
        for s in seqs(R, 40, 10):
            for x in (list(s), tuple(s), iter(list(s)), collections.deque(s)):
                R.same(f'python {kind}[any] {type(x).__name__} {s!r}', run(v.validate_python, x), OK(ctor(s)), nt=('any', kind, repr(s), type(x).__name__))
            R.same(f'json {kind}[any] {s!r}', run(v.validate_json, json.dumps(s)), OK(ctor(s)))
        l = [1, 2]
        o = v.validate_python(l)
        if kind == 'list':
            l.append(3)
            R.check(o == [1, 2], 'the output list is a copy', '', o, [1, 2])
    # positional tuples with an optional variadic part
    for nitems in range(0, 7):
        for var in [None] + list(range(nitems)):
            for ff in (False, True):
                sch = cs.tuple_schema(ITEM3[:nitems], variadic_item_index=var, fail_fast=ff)
                v = SchemaValidator(sch)
                for s in seqs(R, N // 2 if nitems < 4 else N // 6, 8):
                    n = len(s)
                    if var is None:
                        which = list(range(nitems))
                        too_long = n > nitems
                    else:
                        tail = nitems - var - 1
                        nv = max(0, n - (nitems - 1))
                        which = list(range(var)) + [var] * nv + list(range(var + 1, nitems))
                        too_long = False
                    out, errs, calls = [], [], []
                    stopped = False
                    for i, k in enumerate(which):
                        if i >= n:
                            errs.append(('missing', (i,)))
                        else:
                            x = s[i]
                            calls.append(x)
                            if x is None:
                                continue
                            if isinstance(x, str):
                                errs.append(('bad_' + x[:3], (i,)))
                            else:
                                out.append(x * 2 + k * 1000)
                        if ff and errs:
                            stopped = True
                            break
                    want = ERR(*errs) if errs else OK(tuple(out))
                    if too_long and not stopped:
                        want = ERR('too_long')
                    for mode, x in (('python', tuple(s)), ('python', list(s)), ('python', iter(s)), ('json', json.dumps(s))):
                        label = f'{mode} tuple{nitems} variadic={var} ff={ff} {type(x).__name__} {s!r}'
                        R.mark(label)
                        got, c = obs(getattr(v, 'validate_' + mode), x)
                        R.same(label, got, want, nt=label)
                        R.check(c == calls, label + ' (item validations)', '', c, calls)
        if R.out_of_time():
            return
    # tuple defaults for missing positions
    d = cs.with_default_schema(ITEM3[1], default=7)
    v = SchemaValidator(cs.tuple_schema([ITEM3[0], d, d]))
    R.same('tuple default', run(v.validate_python, (1,)), OK((2, 7, 7)), nt='td')
    R.same('tuple default 2', run(v.validate_python, (1, 2)), OK((2, 1004, 7)), nt='td2')
    R.same('tuple missing', run(v.validate_python, ()), ERR(('missing', (0,))), nt='td3')
    # fail-fast with a length limit reports the first failure only
    for s in (['x'], ['x', 'y'], [1, 'x', 'y', 'z']):
        for mk in (cs.tuple_schema([ITEM], variadic_item_index=0, fail_fast=True, min_length=5), cs.list_schema(ITEM, fail_fast=True, min_length=5), cs.set_schema(ITEM, fail_fast=True, min_length=5)):
            i = s.index('x')
            R.val(mk, s, ERR(('bad_x', (i,))))
    # errors raised while iterating are located at the element that was due
    for kind, (mk, ctor) in kinds.items():
        for ff in (False, True):
            v = SchemaValidator(mk(ff))
            for k in range(4):
                def g():
                    for i in range(k):
                        yield i + 1
                    raise Boom()
                R.same(f'iteration error {kind} after {k}', run(v.validate_python, g()), ERR(('iteration_error', (k,))), nt=('it', kind, ff, k))
        v2 = SchemaValidator({'list': cs.list_schema(), 'set': cs.set_schema(), 'frozenset': cs.frozenset_schema(), 'tuple': cs.tuple_schema([cs.any_schema()], variadic_item_index=0)}[kind])
        for k in range(4):
            def g():
                for i in range(k):
                    yield i + 1
                raise Boom()
            R.same(f'iteration error {kind}[any] after {k}', run(v2.validate_python, g()), ERR(('iteration_error', (k,))), nt=('it2', kind, k))
    # errors other than validation errors end the validation
    for kind, (mk, ctor) in kinds.items():
        def boom(x):
            CALLS.append(x)
            if x == 2:
                raise Boom('stop')
            return x
        B = cs.no_info_plain_validator_function(boom)
        sch = {'list': cs.list_schema(B), 'set': cs.set_schema(B), 'frozenset': cs.frozenset_schema(B), 'tuple': cs.tuple_schema([B], variadic_item_index=0)}[kind]
        got, c = obs(SchemaValidator(sch).validate_python, [1, 2, 3])
        R.check(got.kind == 'exc' and got.v.startswith('Boom') and c == [1, 2], f'exception in {kind}', '', (got, c), 'Boom after [1, 2]', nt=('boom', kind))
    # sets: unhashable results, order of duplicates, equal results merge
    for mk in (cs.set_schema, cs.frozenset_schema):
        sch = mk(cs.no_info_plain_validator_function(lambda x: [x] if x == 3 else x % 10))
        R.val(sch, [1, 3, 11, 2], ERR(('set_item_not_hashable', (1,))))
        R.val(sch, [1, 11, 2, 21], lambda g: g.ok and set(g.v) == {1, 2})
        R.val(mk(), [1, [2], 3, {}], ERR(('set_item_not_hashable', (1,)), ('set_item_not_hashable', (3,))))
        R.val(mk(fail_fast=True), [1, [2], 3, {}], ERR(('set_item_not_hashable', (1,))))
    # dicts
    KC = []

    def keyf(k):
        KC.append(('k', k))
        if k == 'omit' or k == '':
            raise PydanticOmit
        if k[0] == 'b':
            raise PydanticCustomError('bad_key', 'bad')
        if k[0] == 'B':
            raise ValueError('key')
        return k.upper()

    def valf(x):
        KC.append(('v', x))
        return item(x)
    dv = SchemaValidator(cs.dict_schema(cs.no_info_plain_validator_function(keyf), cs.no_info_plain_validator_function(valf)))
    rng = R.rng
    keys = ['a', 'b', 'bb', 'omit', 'c', 'C', 'd', 'B', 'e', 'E']
    for _ in range(N * 4):
        d = {}
        for k in rng.sample(keys, rng.randrange(0, len(keys))):
            d[k] = rng.choice([1, 2, 3, 'x', 'y', None])
        out, errs, calls = {}, [], []
        for k, x in d.items():
            calls.append(('k', k))
            if k == 'omit':
                continue
            kbad = k[0] in 'bB'
            if kbad:
                errs.append(('bad_key' if k[0] == 'b' else 'value_error', (k, '[key]')))
            calls.append(('v', x))
            if x is None:
                continue
            if isinstance(x, str):
                errs.append(('bad_' + x, (k,)))
                continue
            if not kbad:
                out[k.upper()] = x * 2
        want = ERR(*errs) if errs else OK(out)
        for mode, x in (('python', d), ('python', MyMap(d)), ('json', json.dumps(d))):
            KC.clear()
            label = f'{mode} dict {type(x).__name__} {d!r}'
            R.mark(label)
            got = run(getattr(dv, 'validate_' + mode), x)
            R.same(label, got, want, nt=label)
            R.check(KC == calls, label + ' (validations)', '', list(KC), calls)
    # non-string keys in python input
    di = SchemaValidator(cs.dict_schema(cs.int_schema(), cs.int_schema()))
    R.same('int keys', run(di.validate_python, {1: 'x', '2': 2, 'q': 'y'}), ERR(('int_parsing', (1,)), ('int_parsing', ('q', '[key]')), ('int_parsing', ('q',))), nt='ik')
    R.same('int keys json', run(di.validate_json, '{"1": "x", "2": 2, "q": "y"}'), ERR(('int_parsing', ('1',)), ('int_parsing', ('q', '[key]')), ('int_parsing', ('q',))), nt='ikj')
    # nested positions
    nest = SchemaValidator(cs.list_schema(cs.dict_schema(cs.str_schema(), cs.tuple_schema([cs.int_schema(), cs.set_schema(cs.int_schema())]))))
    R.same('nested', run(nest.validate_python, [{'a': (1, [1])}, {'b': ('x', [1, 'y', 2, 'z'])}, {'c': (1, {3})}]),
           ERR(('int_parsing', (1, 'b', 0)), ('int_parsing', (1, 'b', 1, 1)), ('int_parsing', (1, 'b', 1, 3))), nt='nest')
    R.same('nested ok', run(nest.validate_json, '[{"a": [1, [2, 3]], "b": [2, []]}, {}]'), OK([{'a': (1, {2, 3}), 'b': (2, set())}, {}]), nt='nest2')
    # generators: lazily, positions kept
    gv = SchemaValidator(cs.generator_schema(ITEM))
    for s in seqs(R, 40, 10):
        if None in s:
            continue
        it = gv.validate_python(iter(s))
        for i, x in enumerate(s):
            got = run(next, it)
            want = ERR(('bad_' + x[:3], (i,))) if isinstance(x, str) else OK(x * 2)
            R.same(f'generator {s!r} [{i}]', got, want, nt=('gen', repr(s), i))
        R.check(run(next, it).kind == 'exc', f'generator end {s!r}')


R = Recorder('C05')
guard(R, main)
