"""C06: random object graphs (sharing, cycles) against a depth first search; sequences of validations on one validator."""
from h import *
import itertools, gc
from pydantic_core import PydanticSerializationError


class Node:
    pass


class M:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'


REF = cs.definition_reference_schema('N')


def schemas():
    L = cs.definitions_schema(REF, [cs.list_schema(REF, ref='N')])
    LI = cs.definitions_schema(REF, [cs.union_schema([cs.int_schema(), cs.list_schema(REF)], mode='left_to_right', ref='N')])
    DICT = cs.definitions_schema(REF, [cs.dict_schema(cs.str_schema(), REF, ref='N')])
    TD = cs.definitions_schema(REF, [cs.typed_dict_schema({k: cs.typed_dict_field(cs.nullable_schema(REF), required=False) for k in 'ab'}, ref='N')])
    TUP = cs.definitions_schema(REF, [cs.tuple_schema([cs.int_schema(), cs.list_schema(REF)], ref='N')])
    MF = cs.definitions_schema(REF, [cs.model_schema(M, cs.model_fields_schema({k: cs.model_field(cs.with_default_schema(cs.nullable_schema(REF), default=None)) for k in 'ab'}), ref='N')])
    TWO = cs.definitions_schema(cs.definition_reference_schema('A'), [cs.list_schema(cs.definition_reference_schema('B'), ref='A'), cs.union_schema([cs.int_schema(), cs.tuple_variable_schema(cs.definition_reference_schema('A'))], ref='B')])
    return {'list': L, 'list-or-int': LI, 'dict': DICT, 'typed-dict': TD, 'model': MF, 'two': TWO}


def graph(rng, kind, n, p_back):
    """containers 0..n-1; edges to later ones (sharing), with probability p_back to any (cycles)"""
    cont = [[] if kind in ('list', 'list-or-int') else {} for _ in range(n)]
    for i in range(n):
        for j in range(rng.choice([0, 1, 1, 2, 2]) if kind != 'list' else rng.choice([0, 1, 2])):
            back = rng.random() < p_back
            t = rng.randrange(n) if back else (rng.randrange(i + 1, n) if i + 1 < n else None)
            if t is None:
                continue
            if kind == 'list' or kind == 'list-or-int':
                cont[i].append(cont[t])
                if kind == 'list-or-int' and rng.random() < .3:
                    cont[i].append(rng.randrange(9))
            else:
                cont[i][rng.choice('ab')] = cont[t]
    return cont[0]


class TooBig(Exception):
    pass


def walk(x, kind, path, loc, errs, count):
    """oracle: recursion errors of a depth first search; the validated copy"""
    count[0] += 1
    if count[0] > 3000 or len(path) > 120:
        raise TooBig
    if id(x) in path:
        errs.append(('recursion_loop', loc))
        return None
    path = path | {id(x)}
    if isinstance(x, list):
        out = []
        for i, v in enumerate(x):
            out.append(v if isinstance(v, int) else walk(v, kind, path, loc + (i,), errs, count))
        return out
    return {k: walk(v, kind, path, loc + (k,), errs, count) for k, v in (x.items() if kind == 'dict' else sorted(x.items()))}


def plain(v):
    if isinstance(v, M):
        return {k: plain(getattr(v, k)) for k in 'ab' if k in v.__pydantic_fields_set__}
    if isinstance(v, dict):
        return {k: plain(w) for k, w in v.items()}
    if isinstance(v, list):
        return [plain(w) for w in v]
    return v


def nest(n, x=None):
    x = [] if x is None else x
    for _ in range(n):
        x = [x]
    return x


def main(R):
    rng = R.rng
    R.rules.append('random object graphs with sharing and cycles over recursive list, dict, typed dict and model schemas; errors and results against a depth first search; the same validator used for the whole sequence, results compared with those of a new one; '
                   'data at the depth limit tried and repeated inside one validation, lazily validated generators, raising validators, serialisation of the same graphs')
    S = schemas()
    V = {k: SchemaValidator(s) for k, s in S.items()}
    SER = {k: SchemaSerializer(S[k]) for k in ('list', 'dict', 'typed-dict')}
    ANY = SchemaSerializer(cs.any_schema())
    N = 4000 if not THOROUGH else 60000
    for it in range(N):
        if R.out_of_time():
            break
        for kind in ('list', 'list-or-int', 'dict', 'typed-dict', 'model'):
            x = graph(rng, kind, rng.randrange(1, 8), rng.choice([0, 0, .15, .4]))
            errs = []
            try:
                w = walk(x, kind, frozenset(), (), errs, [0])
            except (TooBig, RecursionError):
                continue
            label = f'{kind} graph #{it} {x!r}'
            R.mark(label)
            got = run(V[kind].validate_python, x)
            if kind == 'list-or-int':
                R.check(got.ok == (not errs), label, got=got, want=errs or w, nt=label)
                if errs and not got.ok:
                    R.check(any(t == 'recursion_loop' for t, _ in got.v), label, got=got, want='recursion_loop')
            elif errs:
                R.same(label, got, Out('err', errs), nt=label)
            else:
                R.check(got.ok and plain(got.v) == w, label, got=got if not got.ok else plain(got.v), want=w, nt=label)
            if it % 5 == 0:
                fresh = run(SchemaValidator(S[kind]).validate_python, x)
                R.check((fresh.kind, fresh.v if not fresh.ok else plain(fresh.v)) == (got.kind, got.v if not got.ok else plain(got.v)), label + ' (new validator)', got=got, want=fresh)
            if kind in SER:
                for mode in ('python', 'json'):
                    s = run(SER[kind].to_python, x, mode=mode)
                    R.check((s.kind == 'exc') == bool(errs) and (errs or s.v == w), f'to_python({mode}) {label}', got=s, want='error' if errs else w)
                j = run(SER[kind].to_json, x)
                R.check((j.kind == 'exc') == bool(errs) and (errs or json.loads(j.v) == w), 'to_json ' + label, got=j, want='error' if errs else w)
                j = run(ANY.to_json, x)
                R.check((j.kind == 'exc') == bool(errs) and (errs or json.loads(j.v) == w), 'any to_json ' + label, got=j, want='error' if errs else w)
    # many containers on one path, entries above and below sixteen
    for n in list(range(0, 40)) + [60, 100, 150, 200]:
        x = nest(n)
        for again in range(2):
            R.same(f'{n} nested lists', run(V['list'].validate_python, x), OK(x))
        y = []
        z = nest(n, y)
        y.append(z)
        R.same(f'cycle through {n + 1} lists', run(V['list'].validate_python, z), ERR(('recursion_loop', (0,) * (n + 1))), nt=f'cycle {n}')
        # the top of the cycle at various heights
        if 0 < n < 40:
            for back in range(0, n, 3):
                y = []
                z = nest(n, y)
                t = z
                for _ in range(back):
                    t = t[0]
                y.append(t)
                R.same(f'cycle of {n - back + 1} lists below {back}', run(V['list'].validate_python, z), ERR(('recursion_loop', (0,) * (n + 1))))
            # siblings are validated after the deep part
            s = []
            x = [nest(n, s), s, [s, nest(n, s)]]
            R.same(f'shared list {n} deep and beside', run(V['list'].validate_python, x), OK(x), nt=f'shared {n}')
            w = nest(n, s)
            x = [w, w, w[0], w]
            R.same(f'shared nest {n}', run(V['list'].validate_python, x), OK(x))
    # a failing branch beside: cycles inside the first member of a union
    F = SchemaValidator(cs.definitions_schema(cs.tuple_schema([cs.union_schema([REF, cs.any_schema()], mode='left_to_right'), REF]), [cs.list_schema(REF, ref='N')]))
    for n in (1, 3, 15, 16, 17, 40, 230, 236, 250, 256, 257, 300):
        d = nest(n)
        cyc = []
        c = nest(n, cyc)
        cyc.append(c)
        for k in sorted({0, 1, n // 2, n - 1} | set(range(max(0, min(n, 259) - 30), min(n, 259)))):
            s = d
            for _ in range(k):
                s = s[0]
            if n - k > 200:
                continue
            R.mark(f'after depth {n} {k}')
            R.check(run(F.validate_python, (d, s)).ok, f'{n} nested lists in a union, then the list at depth {k}', got=run(F.validate_python, (d, s)), want='valid', nt=f'after {n} {k}')
        if n < 200:
            s = nest(3)
            R.check(run(F.validate_python, (c, s)).ok, f'cycle of {n} in a union, then a list', got=run(F.validate_python, (c, s)), want='valid')
            R.check(run(F.validate_python, ([c, s], s)).ok, f'cycle of {n} with list in a union, then the list', got=run(F.validate_python, ([c, s], s)), want='valid')
    # deep data ends with an error, never a crash; and later calls are as before
    for n in (300, 1000, 5000):
        got = run(V['list'].validate_python, nest(n))
        R.check(got.kind == 'err' and [t for t, _ in got.v] == ['recursion_loop'], f'{n} nested lists', got=got.kind, want='recursion_loop')
        R.same('after it', run(V['list'].validate_python, [[]]), OK([[]]))
    # raising validators leave nothing behind
    box = {}

    def boom(x):
        if box.get('boom') == x:
            raise RuntimeError('boom')
        return x
    B = SchemaValidator(cs.definitions_schema(REF, [cs.list_schema(cs.union_schema([cs.no_info_after_validator_function(boom, cs.int_schema()), REF], mode='left_to_right'), ref='N')]))
    for n in (0, 3, 14, 15, 16, 17, 20, 100):
        x = nest(n, [7])
        box['boom'] = 7
        got = run(B.validate_python, x)
        R.check(got.kind == 'exc' and 'boom' in got.v, f'exception below {n} lists', got=got, want='RuntimeError')
        box.clear()
        R.same(f'after an exception below {n} lists', run(B.validate_python, x), OK(x), nt=f'exc {n}')
        got = run(B.validate_python, nest(n, ['no']))
        R.check(got.kind == 'err', 'error', got=got)
        R.same(f'after an error below {n} lists', run(B.validate_python, x), OK(x))
    # wrap validators call into the recursion again
    CAUGHT = []

    def wrap(x, handler):
        try:
            return handler(x)
        except ValidationError as e:
            CAUGHT.append(e.errors(include_url=False)[0]['type'])
            return 'caught'
    W = SchemaValidator(cs.definitions_schema(REF, [cs.list_schema(cs.no_info_wrap_validator_function(wrap, REF), ref='N')]))
    x = []
    y = nest(4, x)
    x.append(y)
    x.append([])
    R.same('wrap in a cycle', run(W.validate_python, y), OK([[[[['caught', []]]]]]))
    R.same('wrap after it', run(W.validate_python, y), OK([[[[['caught', []]]]]]))
    # lazily validated generators: objects of finished validations are gone
    G = SchemaValidator(cs.definitions_schema(REF, [cs.typed_dict_schema({'c': cs.typed_dict_field(cs.generator_schema(REF))}, ref='N')]))

    class It:
        def __init__(self, k):
            self.k = k

        def __iter__(self):
            return self

        def __next__(self):
            if self.k <= 0:
                raise StopIteration
            self.k -= 1
            return {'c': []}
    for k in range(1, 30):
        r = run(G.validate_python, {'c': It(k)})
        got = run(lambda: [list(i) for i in r.v['c']])
        R.check(got.ok and len(got.v) == k, f'generator of {k} items', got=got, want=k)
    x = {'c': []}
    x['c'].append(x)
    got = run(lambda: [list(i['c']) for i in G.validate_python(x)['c']] and None)
    R.check(got.kind in ('err', 'ok'), 'lazy cycle', got=got)
    EG = SchemaValidator(cs.definitions_schema(REF, [cs.typed_dict_schema({'c': cs.typed_dict_field(cs.no_info_after_validator_function(list, cs.generator_schema(REF)))}, ref='N')]))
    got = run(EG.validate_python, x)
    R.check(got.kind in ('err', 'exc'), 'eagerly consumed cycle', got=got, want='an error')
    R.same('eagerly consumed tree', run(EG.validate_python, {'c': [{'c': []}, {'c': [{'c': []}]}]}), OK({'c': [{'c': []}, {'c': [{'c': []}]}]}))
    # assignment through a reference
    A = SchemaValidator(S['model'])
    m = A.validate_python({'a': {'b': {}}})
    for _ in range(3):
        got = run(A.validate_assignment, m, 'a', {'a': {}})
        R.check(got.ok and plain(got.v) == {'a': {'a': {}}}, 'assignment of a recursive model', got=got if not got.ok else plain(got.v), want={'a': {'a': {}}})
    d = {}
    d['a'] = d
    got = run(A.validate_assignment, m, 'b', d)
    R.check(got == ERR(('recursion_loop', ('b', 'a'))), 'assignment of a cycle', got=got, want='recursion_loop at b.a')
    got = run(A.validate_assignment, m, 'b', {'a': {}})
    R.check(got.ok and plain(got.v) == {'a': {'a': {}}, 'b': {'a': {}}}, 'assignment after it', got=got if not got.ok else plain(got.v))


guard(Recorder('C06'), main)
