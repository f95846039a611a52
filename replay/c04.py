"""C04: length limits (oracle: python len of what is produced)"""
from h import *
import collections, itertools


def omit_fn(v, h):
    r = h(v)
    return r


def schemas(kind, mn, mx, items, ff=False):
    kw = {}
    if mn is not None:
        kw['min_length'] = mn
    if mx is not None:
        kw['max_length'] = mx
    if ff:
        kw['fail_fast'] = True
    if kind == 'list':
        return cs.list_schema(items, **kw)
    if kind == 'tuple':
        return cs.tuple_schema([items or cs.any_schema()], variadic_item_index=0, **kw)
    if kind == 'set':
        return cs.set_schema(items, **kw)
    if kind == 'frozenset':
        return cs.frozenset_schema(items, **kw)
    if kind == 'dict':
        return cs.dict_schema(items, None, **kw)
    if kind == 'bytes':
        return cs.bytes_schema(**kw)
    if kind == 'generator':
        return cs.generator_schema(items, **kw)


INT = cs.int_schema()


def oi(v):
    """int schema that omits negative numbers"""
    if isinstance(v, int) and v < 0:
        raise PydanticOmit
    return int(v)


OMIT = cs.no_info_plain_validator_function(oi)


def gen_out(v, x, mode):
    """consume the lazy validator"""
    def f(y):
        return list(getattr(v, 'validate_' + mode)(y))
    return f(x)


def main(R):
    R.rules.append('all kinds x limits 0..4/None x item schemas (none, int, omitting) x sizes 0..6 with duplicates, python and JSON; predicate = len of the produced collection')
    lims = [None, 0, 1, 2, 3, 4]
    rng = R.rng
    seqs = [[], [1], [1, 2], [1, 1], [1, 2, 3], [1, 1, 2], [3, 2, 1, 4], [1, 2, 1, 2], [1, 2, 3, 4, 5], [2] * 6, [-1, 1], [-1, -2, 1, 2], [1, -1, 2, -1, 3, -5], ['1', 2], ['1', 1, 1.0]]
    LONG = {'list': 'too_long', 'tuple': 'too_long', 'set': 'too_long', 'frozenset': 'too_long', 'dict': 'too_long', 'generator': 'too_long', 'bytes': 'bytes_too_long'}
    SHORT = {k: v.replace('long', 'short') for k, v in LONG.items()}
    class MyList(list):
        pass
    def onlyiter(s):
        return (x for x in s)
    for kind in LONG:
        for mn in lims:
            for mx in lims:
                for nm, items in (('any', None), ('int', INT), ('omit', OMIT)):
                    if kind == 'bytes' and nm != 'any':
                        continue
                    for ff in ((False, True) if kind in ('list', 'tuple', 'set', 'frozenset') else (False,)):
                        sch = schemas(kind, mn, mx, items, ff)
                        v = SchemaValidator(sch)
                        for s in seqs:
                            if nm == 'omit':
                                out = [int(x) for x in s if not (isinstance(x, int) and x < 0)]
                            elif nm == 'int':
                                out = [int(x) for x in s]
                            else:
                                out = list(s)
                            inputs = [('python', s, None)]
                            if kind in ('set', 'frozenset'):
                                inputs.append(('python', tuple(s), None))
                                inputs.append(('python', onlyiter(s), s))
                                inputs.append(('python', {k: 0 for k in s}.keys(), s))
                            if kind in ('list', 'tuple'):
                                inputs.append(('python', tuple(s), None))
                                inputs.append(('python', MyList(s), None))
                                inputs.append(('python', onlyiter(s), s))
                                inputs.append(('python', collections.deque(s), None))
                                inputs.append(('python', {i: k for i, k in enumerate(s)}.values(), s))
                            if kind == 'generator':
                                inputs.append(('python', onlyiter(s), s))
                            if kind == 'dict':
                                out_ = {k: 0 for k in out}
                                inputs = [('python', {k: 0 for k in s}, None)]
                                class M(collections.abc.Mapping):
                                    def __init__(self, d): self.d = d
                                    def __getitem__(self, k): return self.d[k]
                                    def __iter__(self): return iter(self.d)
                                    def __len__(self): return len(self.d)
                                inputs.append(('python', M({k: 0 for k in s}), list(s)))
                            if kind == 'bytes':
                                b = bytes(i if isinstance(i, int) and i > 0 else 65 for i in s)
                                inputs = [('python', b, None), ('python', bytearray(b), None), ('python', b.decode('latin1').replace('\x01', '\u00e9') if False else b.decode('latin1'), None)]
                                out = b
                            elif kind not in ('dict',):
                                inputs.append(('json', json.dumps(s), None))
                            for mode, x, shown in inputs:
                                if kind in ('set', 'frozenset'):
                                    n = len(set(out))
                                elif kind == 'dict':
                                    n = len(out_)
                                else:
                                    n = len(out)
                                f = getattr(v, 'validate_' + mode)
                                label = f'{mode} {short(sch)} <- {shown if shown is not None else x!r} ({type(x).__name__})'
                                R.mark(label)
                                if kind == 'generator':
                                    got = run(gen_out, v, x, mode)
                                    if got.kind == 'err' :
                                        pass
                                    if nm == 'omit':
                                        continue
                                else:
                                    got = run(f, x)
                                lo_bad = mn is not None and n < mn
                                hi_bad = mx is not None and n > mx
                                if hi_bad:
                                    want = 'err ' + LONG[kind]
                                elif lo_bad:
                                    want = 'err ' + SHORT[kind]
                                else:
                                    want = 'ok'
                                if hi_bad and lo_bad:
                                    ok = got.kind == 'err' and got.v[0][0] in (LONG[kind], SHORT[kind]) and len(got.v) == 1
                                elif want == 'ok':
                                    ok = got.ok and len(got.v) == n
                                else:
                                    ok = got.kind == 'err' and got.v == [(want[4:], ())]
                                R.check(ok, label, '', got, want, nt=(kind, mn, mx, nm, ff, repr(s), mode, type(x).__name__))
                                if ok and got.kind == 'err':
                                    # the error names the declared limit
                                    try:
                                        f(x) if kind != 'generator' else gen_out(v, s, 'python')
                                    except ValidationError as e:
                                        d = e.errors()[0]
                                        lim = d['ctx'].get('max_length' if 'long' in d['type'] else 'min_length')
                                        R.check(lim == (mx if 'long' in d['type'] else mn), label + ' limit', '', d, (mn, mx))
                if R.out_of_time():
                    return
    # lazily: an over-long lazy input is not consumed beyond the element that exceeds the limit
    for kind in ('list', 'tuple', 'set', 'frozenset', 'generator'):
        for mx in (0, 1, 2, 5):
            for items in (None, INT):
                cnt = itertools.count()
                taken = []
                def g():
                    for i in cnt:
                        taken.append(i)
                        if i > 60:
                            raise RuntimeError('runaway')
                        yield i
                v = SchemaValidator(schemas(kind, None, mx, items))
                x = g()
                got = run(gen_out, v, x, 'python') if kind == 'generator' else run(v.validate_python, x)
                R.check(got.kind == 'err' and got.v[0][0] == 'too_long' and len(taken) <= mx + 2, f'lazy {kind} max_length={mx} {short(items)}', '', (got, len(taken)), f'too_long after at most {mx + 2} elements (one may be looked ahead)', nt=('lazy', kind, mx, items is None))
    # failing elements also count towards the limit while nothing is dropped; large sizes
    for kind in ('list', 'tuple', 'set', 'frozenset', 'dict', 'bytes'):
        for n in (99, 100, 101, 1000):
            x = list(range(n))
            if kind == 'dict':
                x = dict.fromkeys(x)
            elif kind == 'bytes':
                x = b'\x07' * n
            R.val(schemas(kind, 100, 100, None), x, (lambda g, n=n: g.ok == (n == 100)))
            if kind not in ('bytes',):
                R.val(schemas(kind, 100, 100, INT), x, (lambda g, n=n: g.ok == (n == 100)))
    for n in (1, 2, 3):
        for s in ('', 'é', 'éé', 'a', 'ab', 'aé', '\U0001f600'):
            R.val(cs.bytes_schema(max_length=n), s, (lambda g, n=n, s=s: g.ok == (len(s.encode()) <= n)))
            R.val(cs.bytes_schema(max_length=n), json.dumps(s), (lambda g, n=n, s=s: g.ok == (len(s.encode()) <= n)), mode='json')


R = Recorder('C04')
guard(R, main)
