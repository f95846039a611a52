"""C28: union serialization (oracle: the selection rules stated over the member types, evaluated in Python)"""
from h import *
import enum, dataclasses, warnings


class Unexp(Exception):
    pass


def inferred(name):
    return SchemaSerializer(cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(lambda v: {'inferred': name, **{k: str(x) for k, x in v.__dict__.items()}})))


class Base:
    kind = None

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return f'{type(self).__name__}({self.__dict__})'

    def __hash__(self):
        return id(self)


def mk(name, base, kind):
    c = type(name, (base,), {'kind': kind})
    c.__pydantic_serializer__ = inferred(name)
    return c


A, B, C = mk('A', Base, 'a'), mk('B', Base, 'b'), mk('C', Base, 'zz')
A1, B1 = mk('A1', A, 'a'), mk('B1', B, 'b')
A2 = mk('A2', A1, 'q')
RA, RB = mk('RA', Base, 'a'), mk('RB', Base, 'b')
RA1 = mk('RA1', RA, 'a')
MODELS = [A, B, C, A1, B1, A2]
ROOTS = [RA, RB, RA1]


@dataclasses.dataclass
class D:
    x: object
    kind = 'a'

    def __hash__(self):
        return id(self)


@dataclasses.dataclass
class D1(D):
    kind = 'b'

    def __hash__(self):
        return id(self)


@dataclasses.dataclass
class E_:
    x: object
    kind = 'c'

    def __hash__(self):
        return id(self)


@dataclasses.dataclass
class D2(D1):
    kind = 'q'

    def __hash__(self):
        return id(self)


DCS = [D, D1, E_, D2]


class IntSub(int):
    pass


class StrSub(str):
    pass


class FloatSub(float):
    pass


class ListSub(list):
    pass


class Num(enum.IntEnum):
    one = 1
    two = 2


class Col(enum.Enum):
    red = 'r'
    blue = 'b'


class NumE(int, enum.Enum):
    uno = 1


ENUMS = [Num, Col, NumE]

# ---------------------------------------------------------------- schemas
_tag = [0]


def schema(n):
    k = n[0]
    if k == 'int':
        return cs.int_schema()
    if k == 'float':
        return cs.float_schema()
    if k == 'bool':
        return cs.bool_schema()
    if k == 'str':
        return cs.str_schema()
    if k == 'bytes':
        return cs.bytes_schema()
    if k == 'none':
        return cs.none_schema()
    if k == 'any':
        return cs.any_schema()
    if k == 'list':
        return cs.list_schema(schema(n[1]))
    if k == 'tuplev':
        return cs.tuple_variable_schema(schema(n[1]))
    if k == 'set':
        return cs.set_schema(schema(n[1]))
    if k == 'dict':
        return cs.dict_schema(schema(n[1]), schema(n[2]))
    if k == 'nullable':
        return cs.nullable_schema(schema(n[1]))
    if k == 'json':
        return cs.json_schema(schema(n[1]))
    if k == 'default':
        return cs.with_default_schema(schema(n[1]), default=None)
    if k == 'enum':
        c = ENUMS[n[1]]
        return cs.enum_schema(c, list(c.__members__.values()), **({'sub_type': 'int'} if issubclass(c, int) else {}))
    if k == 'model':
        return cs.model_schema(MODELS[n[1]], cs.model_fields_schema({'x': cs.model_field(schema(n[2]), serialization_alias=n[3])}))
    if k == 'root':
        return cs.model_schema(ROOTS[n[1]], schema(n[2]), root_model=True)
    if k == 'dc':
        return cs.dataclass_schema(DCS[n[1]], cs.dataclass_args_schema('D', [cs.dataclass_field('x', schema(n[2]), serialization_alias=n[3])]), ['x'])
    if k == 'td':
        return cs.typed_dict_schema({f: cs.typed_dict_field(schema(s), serialization_alias=n[2] + f) for f, s in n[1].items()})
    if k == 'wrap':
        return cs.any_schema(serialization=cs.wrap_serializer_function_ser_schema(lambda v, h, t=n[2]: [t, h(v)], schema=schema(n[1])))
    if k == 'union':
        return cs.union_schema([schema(s) for s in n[1]])
    if k == 'tagged':
        return cs.tagged_union_schema({t: schema(s) for t, s in n[1].items()}, discriminator='kind' if not n[2] else (lambda v: {A: 'a', A1: 'a', B: 'b'}.get(type(v)) or ('b' if isinstance(v, str) else None)))
    raise AssertionError(k)


# ---------------------------------------------------------------- oracle
def retry(n):
    k = n[0]
    if k in ('int', 'model', 'root', 'dc', 'tuplev'):
        return True
    if k in ('list', 'set', 'nullable', 'json', 'default', 'wrap'):
        return retry(n[1])
    if k == 'dict':
        return retry(n[1]) or retry(n[2])
    if k == 'enum':
        return issubclass(ENUMS[n[1]], int)
    if k == 'union':
        return any(retry(s) for s in n[1])
    if k == 'tagged':
        return any(retry(s) for s in n[1].values())
    return False


def infer(v, js):
    if isinstance(v, enum.Enum):
        return infer(v.value, js) if js else v
    t = type(v)
    if hasattr(t, '__pydantic_serializer__'):
        return {'inferred': t.__name__, **{k: str(x) for k, x in v.__dict__.items()}}
    if dataclasses.is_dataclass(v):
        return {'x': infer(v.x, js)}
    if isinstance(v, (list, tuple)) :
        r = [infer(i, js) for i in v]
        return r if js or isinstance(v, list) else tuple(r)
    if isinstance(v, (set, frozenset)):
        r = [infer(i, js) for i in v]
        return r if js else type(v)(r)
    if isinstance(v, dict):
        return {(infer_key(k) if js else infer(k, js)): infer(x, js) for k, x in v.items()}
    if not js:
        return v
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, float):
        return float(v)
    if isinstance(v, str):
        return str(v)
    if isinstance(v, bytes):
        return v.decode()
    raise AssertionError(v)


def infer_key(k):
    if isinstance(k, enum.Enum):
        return infer_key(k.value)
    if isinstance(k, bool):
        return 'true' if k else 'false'
    if k is None:
        return 'None'
    if isinstance(k, str):
        return str(k)
    return str(k)


class Env:
    def __init__(self, js):
        self.js, self.warn = js, False

    def miss(self, v, c):
        """the value does not match: a failure while members are tried, else a warning and inference"""
        if v is None:
            return
        if c:
            raise Unexp
        self.warn = True


def ser(n, v, c, e, key=False):
    """c: 0 no check, 1 exact, 2 with subclasses"""
    k = n[0]
    js = e.js
    if k == 'union':
        return pick(n[1], n, v, c, e, key)
    if k == 'tagged':
        if n[2]:
            tag = {A: 'a', A1: 'a', B: 'b'}.get(type(v)) or ('b' if isinstance(v, str) else None)
            has = True
        elif isinstance(v, dict):
            tag, has = v.get('kind'), 'kind' in v
        else:
            tag, has = getattr(v, 'kind', None), hasattr(v, 'kind')
        if has:
            m = n[1].get(str(tag))
            if m is not None:
                for cc in (1, 2) if retry(n) else (1,):
                    try:
                        return ser(m, v, cc, e, key)
                    except Unexp:
                        pass
        elif not c:
            e.warn = True
        return pick(list(n[1].values()), n, v, c, e, key)
    inf = (lambda: infer_key(v)) if key else (lambda: infer(v, js))
    if k == 'any':
        return inf()
    if k in ('int', 'float', 'bool'):
        T = {'int': int, 'float': float, 'bool': bool}[k]
        if type(v) is T:
            return (('true' if v else 'false') if k == 'bool' else str(v)) if key else v
        if isinstance(v, T) or k == 'float' and isinstance(v, int):
            if c == 1:
                raise Unexp
            if key:
                return str(v)
            return T(v) if js else infer(v, js)
        e.miss(v, c)
        return inf()
    if k == 'none':
        if v is not None:
            e.miss(v, c)
        return inf()
    if k in ('str', 'bytes'):
        if isinstance(v, str if k == 'str' else bytes):
            if js or key:
                return str.__str__(v) if k == 'str' else v.decode()
            return v
        e.miss(v, c)
        return inf()
    if k == 'nullable':
        if v is None:
            return inf()
        return ser(n[1], v, c, e, key)
    if k in ('json', 'default'):
        if key and k == 'json':
            return infer_key(v)
        return ser(n[1], v, c, e, key)
    if k == 'enum':
        if type(v) is ENUMS[n[1]]:
            if key:
                return infer_key(v.value)
            return v.value if js else v
        e.miss(v, c)
        return inf()
    if k == 'wrap':
        return [n[2], ser(n[1], v, c, e)]
    assert not key
    if k in ('list', 'tuplev', 'set'):
        if isinstance(v, {'list': list, 'tuplev': tuple, 'set': set}[k]):
            r = [ser(n[1], x, c, e) for x in v]
            return r if js else {'list': list, 'tuplev': tuple, 'set': set}[k](r)
        e.miss(v, c)
        return inf()
    if k == 'dict':
        if isinstance(v, dict):
            return {ser(n[1], a, c, e, key=js): ser(n[2], b, c, e) for a, b in v.items()}
        e.miss(v, c)
        return inf()
    if k == 'td':
        if not isinstance(v, dict):
            e.miss(v, c)
            return inf()
        return fields(n[1], lambda f: n[2] + f, v.items(), c, e)
    cls = {'model': MODELS, 'root': ROOTS, 'dc': DCS}[k][n[1]]
    if k == 'root':
        if c and not (type(v) is cls if c == 1 else isinstance(v, cls)):
            raise Unexp
        if 'root' not in getattr(v, '__dict__', {}):
            raise Unexp if c else AttributeError
        return ser(n[2], v.root, c, e)
    ok = type(v) is cls if c == 1 else isinstance(v, cls) if c == 2 else hasattr(v, '__dict__') if k == 'model' else hasattr(v, '__dataclass_fields__')
    if not ok:
        e.miss(v, c)
        return inf()
    return fields({'x': n[2]}, lambda f: n[3], v.__dict__.items(), c, e)


def fields(fs, alias, items, c, e):
    out, used = {}, 0
    for a, b in items:
        if a in fs:
            out[alias(a)] = ser(fs[a], b, c, e)
            used += 1
        elif c == 1:
            raise Unexp
    if c and used < len(fs):
        raise Unexp
    return out


def pick(members, n, v, c, e, key):
    for m in members:
        try:
            return ser(m, v, 1, e, key)
        except Unexp:
            pass
    if c != 1 and any(retry(m) for m in members):
        for m in members:
            try:
                return ser(m, v, 2, e, key)
            except Unexp:
                pass
    if c:
        raise Unexp
    e.warn = True
    return infer_key(v) if key else infer(v, e.js)


# ---------------------------------------------------------------- generation
def node(R, d, top=False):
    r = R.rng
    _tag[0] += 1
    t = f'm{_tag[0] % 997}'
    ks = ['int', 'str', 'float', 'bool', 'bytes', 'none', 'enum']
    if d > 0:
        ks += ['list', 'dict', 'set', 'tuplev', 'nullable', 'json', 'default', 'model', 'model', 'model', 'root', 'dc', 'td', 'wrap', 'union', 'tagged']
    if top:
        ks = ['union'] * 5 + ['tagged'] * 2 + ['list', 'dict', 'model', 'dictkey']
    k = r.choice(ks)
    if k in ('int', 'str', 'float', 'bool', 'bytes', 'none'):
        return (k,)
    if k == 'enum':
        return (k, r.randrange(len(ENUMS)))
    if k == 'set':
        return (k, r.choice([('int',), ('str',), ('bool',), ('enum', r.randrange(3))]))
    if k in ('list', 'tuplev', 'nullable', 'json', 'default'):
        return (k, node(R, d - 1))
    if k == 'wrap':
        return (k, node(R, d - 1), t)
    if k == 'dict':
        return (k, ('str',), node(R, d - 1))
    if k == 'dictkey':
        return ('dict', ('union', [r.choice([('int',), ('str',), ('bool',), ('enum', 0), ('enum', 1), ('enum', 2), ('none',)]) for _ in range(r.randint(2, 3))]), node(R, d - 1))
    if k == 'model':
        return (k, r.randrange(len(MODELS)), node(R, d - 1), t)
    if k == 'root':
        return (k, r.randrange(len(ROOTS)), node(R, d - 1))
    if k == 'dc':
        return (k, r.randrange(len(DCS)), node(R, d - 1), t)
    if k == 'td':
        return (k, {f: node(R, 0) if f != 'kind' else ('str',) for f in r.sample(['a', 'b', 'kind'], r.randint(1, 2))}, t)
    ms = [node(R, d - 1) for _ in range(r.randint(2, 4))]
    if k == 'union':
        if r.random() < .5 and ms[0][0] in ('model', 'dc', 'td', 'root'):
            m = ms[0]           # a sibling of the same kind
            ms.insert(r.randrange(3), (m[0], r.randrange(3), m[2], t) if m[0] in ('model', 'dc') else (m[0], r.randrange(3), m[2]) if m[0] == 'root' else (m[0], dict(list(m[1].items())[:1]), t))
        return (k, ms)
    return (k, dict(zip(['a', 'b', 'c', 'zz'], ms)), r.random() < .25)


LEAF = [0, 1, 5, -2, True, False, 1.5, 0.0, 'x', '', 'ab', b'yz', None, IntSub(3), StrSub('s'), FloatSub(2.5), Num.one, Num.two, Col.red, Col.blue, NumE.uno]


def value(R, n, d=0):
    """a value near the node"""
    r = R.rng
    if d > 5 or r.random() < .06:
        return r.choice(LEAF)
    k = n[0]
    if k in ('int', 'float', 'bool'):
        return r.choice([1, 7, True, False, IntSub(3), Num.two, NumE.uno, 2.5, FloatSub(0.5), 2])
    if k == 'str':
        return r.choice(['q', 'rr', StrSub('t')])
    if k == 'bytes':
        return b'bb'
    if k == 'none':
        return None
    if k == 'enum':
        return r.choice(list(ENUMS[n[1]]) + [ENUMS[n[1]](list(ENUMS[n[1]])[0]).value])
    if k == 'list':
        return r.choice([list, list, ListSub])(value(R, n[1], d + 1) for _ in range(r.randint(0, 2)))
    if k == 'tuplev':
        return tuple(value(R, n[1], d + 1) for _ in range(r.randint(0, 2)))
    if k == 'set':
        return {value(R, n[1], d + 1)}
    if k == 'dict':
        ks = [value(R, n[1], d + 1) for _ in range(r.randint(0, 2))]
        return {a: value(R, n[2], d + 1) for a in ks if isinstance(a, (int, str, enum.Enum)) or a is None}
    if k in ('nullable', 'json', 'default', 'wrap'):
        return None if k == 'nullable' and r.random() < .2 else value(R, n[1], d + 1)
    if k == 'model':
        c = MODELS[n[1]]
        c = r.choice([c, c] + [x for x in MODELS if issubclass(x, c)] + [r.choice(MODELS)])
        kw = {'x': value(R, n[2], d + 1)}
        if r.random() < .12:
            kw['y'] = 1
        if r.random() < .07:
            del kw['x']
        return c(**kw)
    if k == 'root':
        c = r.choice(ROOTS + [ROOTS[n[1]]] * 2)
        return c(root=value(R, n[2], d + 1))
    if k == 'dc':
        return r.choice(DCS + [DCS[n[1]]] * 2)(value(R, n[2], d + 1))
    if k == 'td':
        v = {f: (value(R, s, d + 1) if f != 'kind' else r.choice(['a', 'b', 'zz', 'q'])) for f, s in n[1].items() if r.random() < .9}
        if r.random() < .2:
            v['kind'] = r.choice(['a', 'b', 'c'])
        if r.random() < .1:
            v['w'] = 1
        return v
    ms = n[1] if k == 'union' else list(n[1].values())
    return value(R, r.choice(ms), d + 1)


def hashable(n):
    return True


def one(R, n, v, S=None, label=''):
    try:
        S = S or SchemaSerializer(schema(n))
    except BaseException as ex:
        R.check(False, f'schema {n!r}', '', ex, 'a serializer')
        return
    for mode in ('python', 'json', 'text'):
        js = mode != 'python'
        e = Env(js)
        try:
            want = Out('ok', ser(n, v, 0, e))
        except (AttributeError, TypeError):
            continue
        R.mark(f'{label}{mode} {n!r} <- {v!r}')
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            if mode == 'text':
                got = run(lambda: json.loads(S.to_json(v, by_alias=True)))
            else:
                got = run(lambda: S.to_python(v, mode=mode, by_alias=True))
        ok = got.ok and deep(got.v) == deep(want.v)
        code = f'schema (see replay/c28.py): {n!r}\nvalue: {v!r}\nmode {mode}\n{short(schema(n))}'
        R.check(ok, f'{label}{mode} {n!r} <- {v!r}', code, got, want, R.n)
        R.check(bool(w) == e.warn, f'{label}{mode} warning for {n!r} <- {v!r}', code, [str(x.message)[:300] for x in w], e.warn, None)


def deep(x):
    t = type(x)
    if t in (list, tuple, set, frozenset):
        r = [deep(i) for i in x]
        return (t.__name__, tuple(r) if t in (list, tuple) else frozenset(r))
    if t is ListSub:
        return ('list', tuple(deep(i) for i in x))
    if t is dict:
        return ('dict', tuple((deep(k), deep(v)) for k, v in x.items()))
    return typed(x)


def main(R):
    R.rules.append('random member lists (scalars, enums, containers, models, root models, dataclasses, typed dicts, wrap serializers, nested and tagged unions, unions of dict keys) x values near them (subclasses, unknown and missing fields, other members), python / JSON python / JSON text, output and presence of a warning')
    M = lambda c, s=('int',), t='t': ('model', MODELS.index(c), s, t)
    fixed = [
        (('union', [M(A, t='ta'), M(B, t='tb')]), [A(x=1), B(x=1), A1(x=1), B1(x=1), C(x=1), 5, None]),
        (('union', [M(A, t='ta'), M(A1, t='t1')]), [A(x=1), A1(x=1), A2(x=1), A(x=True), A1(x=True)]),
        (('union', [M(A1, t='t1'), M(A, t='ta')]), [A(x=1), A1(x=1), A2(x=1)]),
        (('union', [('root', 0, ('int',)), ('root', 1, ('wrap', ('int',), 'w'))]), [RA(root=1), RB(root=1), RA1(root=1), RB(root='x')]),
        (('tagged', {'a': M(A, t='ta'), 'b': M(A, t='tb')}, False), [A(x=1), B(x=1), A1(x=1), A2(x=1), {'kind': 'a'}, 3]),
        (('tagged', {'a': ('td', {'kind': ('str',), 'x': ('int',)}, 'A'), 'b': ('td', {'kind': ('str',), 'x': ('int',)}, 'B')}, False), [{'kind': 'a', 'x': 1}, {'kind': 'b', 'x': 1}, {'kind': 'q', 'x': 1}, {'x': 1}, {'kind': 'b', 'x': True}]),
        (('dict', ('union', [('int',), ('enum', 2)]), ('int',)), [{NumE.uno: 1}, {1: 1}, {True: 1}]),
        (('list', ('union', [('union', [('int',), ('str',)]), ('float',)])), [[1, 'a', 1.5, True, b'x', IntSub(1)]]),
        (('union', [('list', M(A, t='t1')), ('list', M(A1, t='t2'))]), [[A(x=1)], [A1(x=1)], [A1(x=1), A(x=1)], []]),
        (('union', [('dict', ('str',), M(A, t='t1')), ('dict', ('str',), M(B, t='t2'))]), [{'k': A1(x=1)}, {'k': B1(x=1)}, {'k': B(x=1)}, {'k': C(x=1)}]),
        (('union', [('wrap', ('bool',), 'b'), ('wrap', ('int',), 'i'), ('wrap', ('float',), 'f')]), [1, True, 1.0, IntSub(2), Num.one, 'x', FloatSub(1.0)]),
        (('union', [('wrap', ('int',), 'i'), ('wrap', ('bool',), 'b'), ('wrap', ('float',), 'f')]), [1, True, 1.0, IntSub(2), Num.one, 'x', FloatSub(1.0)]),
    ]
    for n, vs in fixed:
        S = SchemaSerializer(schema(n))
        for v in vs:
            one(R, n, v, S)
    N = 9000 if not THOROUGH else 60000
    for i in range(N):
        if R.out_of_time():
            break
        n = node(R, 3 if i % 3 else 2, top=True)
        try:
            S = SchemaSerializer(schema(n))
        except BaseException as ex:
            R.check(False, f'schema {n!r}', '', ex, 'a serializer')
            continue
        for _ in range(3):
            try:
                v = value(R, n)
            except TypeError:
                continue
            one(R, n, v, S)


guard(Recorder('C28'), main)
