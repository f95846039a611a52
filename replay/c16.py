"""C16: random object graphs (sharing, cycles) serialized in every mode, against a depth first search; sequences after failures."""
from h import *
import dataclasses, enum, gc, itertools, warnings
from pydantic_core import PydanticSerializationError, SchemaSerializer, to_json, to_jsonable_python

REF = cs.definition_reference_schema


class M:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'

    def __init__(self, **kw):
        object.__setattr__(self, '__dict__', kw)
        object.__setattr__(self, '__pydantic_fields_set__', set(kw))
        object.__setattr__(self, '__pydantic_extra__', None)
        object.__setattr__(self, '__pydantic_private__', None)


@dataclasses.dataclass
class D:
    a: object = None
    b: object = None
    __hash__ = object.__hash__


class PM(M):
    """carries its own serializer"""


def model(cls, item, ref=None):
    kw = {'ref': ref} if ref else {}
    return cs.model_schema(cls, cs.model_fields_schema({k: cs.model_field(item) for k in 'ab'}), **kw)


PM.__pydantic_serializer__ = SchemaSerializer(model(PM, cs.any_schema()))
N = REF('N')
LEAF = cs.nullable_schema(cs.int_schema())


def defs(s):
    return SchemaSerializer(cs.definitions_schema(N, [s]))


SER = {
    'any': SchemaSerializer(cs.any_schema()),
    'list-any': SchemaSerializer(cs.list_schema(cs.any_schema())),
    'dict-any': SchemaSerializer(cs.dict_schema(cs.str_schema(), cs.any_schema())),
    'list': defs(cs.list_schema(cs.nullable_schema(N), ref='N')),
    'dict': defs(cs.dict_schema(cs.str_schema(), cs.nullable_schema(N), ref='N')),
    'model': defs(model(M, cs.nullable_schema(N), 'N')),
    'dc': defs(cs.dataclass_schema(D, cs.dataclass_args_schema('D', [cs.dataclass_field(k, cs.nullable_schema(N)) for k in 'ab']), ['a', 'b'], ref='N')),
    'td': defs(cs.typed_dict_schema({k: cs.typed_dict_field(cs.nullable_schema(N), required=False) for k in 'ab'}, ref='N')),
    'tuple': defs(cs.tuple_schema([cs.any_schema(), cs.any_schema()], ref='N')),
}
KIND = {'any': 'mix', 'list-any': 'list', 'dict-any': 'dict', 'list': 'list', 'dict': 'dict', 'model': 'model', 'dc': 'dc', 'td': 'dict', 'tuple': 'mix'}


def new(kind, rng):
    if kind == 'mix':
        kind = rng.choice(['list', 'dict', 'dc', 'pm', 'list', 'tuple'])
    return {'list': list, 'dict': dict, 'model': lambda: M(a=None, b=None), 'dc': D, 'pm': lambda: PM(a=None, b=None), 'tuple': lambda: ([],)}[kind]()


def link(c, t, rng):
    if isinstance(c, tuple):
        c[0].append(t)
    elif isinstance(c, list):
        c.append(t)
    elif isinstance(c, dict):
        c[rng.choice('ab')] = t
    else:
        c.__dict__[rng.choice('ab')] = t


def graph(rng, kind, n, p_back):
    cont = [new(kind, rng) for _ in range(n)]
    for i in range(n):
        for _ in range(rng.choice([0, 1, 1, 2, 2])):
            if rng.random() < p_back:
                t = cont[rng.randrange(n)]
            elif i + 1 < n:
                t = cont[rng.randrange(i + 1, n)]
            else:
                continue
            link(cont[i], t, rng)
    return cont[0]


class Cyc(Exception):
    pass


class Big(Exception):
    pass


def walk(x, path, mode, count):
    """the serialized data, or Cyc; in python mode a repeated object stays itself where its type is inferred"""
    count[0] += 1
    if count[0] > 2000 or len(path) > 100:
        raise Big
    if x is None or isinstance(x, int):
        return x
    if id(x) in path:
        if mode == 'infer':
            return x
        raise Cyc
    path = path | {id(x)}
    if isinstance(x, tuple):
        v = [walk(y, path, mode, count) for y in x]
        return v if mode == 'json' else tuple(v)
    if isinstance(x, list):
        return [walk(y, path, mode, count) for y in x]
    d = x if isinstance(x, dict) else {k: x.__dict__[k] for k in 'ab'}
    return {k: walk(y, path, mode, count) for k, y in d.items()}


def same_py(a, b, depth=0):
    """equal structure, without following the objects left as they are"""
    if a is b:
        return True
    if type(a) is not type(b) or depth > 200:
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_py(x, y, depth + 1) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_py(a[k], b[k], depth + 1) for k in a)
    return a == b


def outcome(f):
    try:
        return ('ok', f())
    except Exception as e:
        return ('err', 'Circular reference detected' in str(e), str(e)[:120])


def main(R):
    warnings.simplefilter('ignore')
    rng = R.rng
    R.rules.append('graphs of 1..7 containers (list, tuple, dict, dataclass, model) with sharing and cycles x 9 schemas x 5 entry points; chains, failures, keys, fallbacks, generators')
    n = 0
    for rep in range(200000 if THOROUGH else 25000):
        if R.out_of_time():
            break
        name = rng.choice(list(SER))
        s = SER[name]
        g = graph(rng, KIND[name], rng.randrange(1, 8), rng.choice([0, 0, .1, .4]))
        if name == 'list-any' and not isinstance(g, list) or name == 'dict-any' and not isinstance(g, dict):
            continue
        try:
            cyc = False
            try:
                wj = walk(g, frozenset(), 'json', [0])
            except Cyc:
                cyc = True
            wp = None
            if name in ('any', 'list-any', 'dict-any', 'tuple'):
                top = frozenset() if name == 'any' else None
                wp = walk(g, frozenset(), 'infer', [0]) if name == 'any' else None
        except Big:
            continue
        calls = {'to_json': lambda: json.loads(s.to_json(g)), 'to_python json': lambda: s.to_python(g, mode='json'), 'to_json()': lambda: json.loads(to_json(g)), 'to_jsonable': lambda: to_jsonable_python(g)}
        if KIND[name] == 'model':
            del calls['to_json()'], calls['to_jsonable']
        for label, f in calls.items():
            got = outcome(f)
            if cyc:
                R.check(got[0] == 'err' and got[1], f'a cycle raises ({name}, {label})', 'graph', got=got, want='Circular reference detected', nt=R.n)
            else:
                R.check(got == ('ok', wj), f'shared data serializes normally ({name}, {label})', 'graph', got=got, want=wj, nt=R.n)
        got = outcome(lambda: s.to_python(g))
        if name == 'any':
            R.check(got[0] == 'ok' and same_py(got[1], wp), f'inferred python output ({name})', 'graph', got=got, want=wp, nt=R.n)
        elif name in ('list', 'dict', 'model', 'dc', 'td'):
            if cyc:
                R.check(got[0] == 'err' and got[1], f'a cycle raises ({name}, python)', 'graph', got=got, want='Circular reference detected', nt=R.n)
            else:
                R.check(got[0] == 'ok' and same_py(got[1], walk(g, frozenset(), 'py', [0])), f'shared data serializes normally ({name}, python)', 'graph', got=got, nt=R.n)
    # --- one object many times
    for name, x in (('list', []), ('dict', {}), ('dc', D()), ('model', M(a=None, b=None)), ('any', PM(a=None, b=None)), ('any', D(1, [2])), ('any', 'x' * 3), ('any', (1,)), ('any', {1})):
        s = SchemaSerializer(cs.list_schema(cs.any_schema())) if name == 'any' else SchemaSerializer(cs.definitions_schema(cs.list_schema(N), [SER_SCHEMA[name]])) if name in SER_SCHEMA else None
        if s is None:
            continue
        for k in (1, 2, 17, 40, 300):
            one = s.to_python([x], mode='json')[0]
            R.check(outcome(lambda: s.to_python([x] * k, mode='json')) == ('ok', [one] * k), f'{k} times the same {name}', f'[x] * {k}', nt=R.n)
            R.check(outcome(lambda: json.loads(s.to_json([x] * k))) == ('ok', [one] * k), f'{k} times the same {name} in JSON', f'[x] * {k}', nt=R.n)
    # --- chains: nothing up to 60 levels, an error beyond 400, never a crash; no residue afterwards
    for name in ('any', 'list', 'dict', 'td', 'dc'):
        s = SER[name]
        for depth in (1, 16, 17, 60, 400, 2000):
            x = y = new(KIND[name] if name != 'any' else 'list', rng)
            for _ in range(depth - 1):
                z = new(KIND[name] if name != 'any' else 'list', rng)
                link(y, z, rng)
                y = z
            for label, f in (('json', lambda: s.to_json(x)), ('python', lambda: s.to_python(x, mode='json'))):
                got = outcome(f)
                R.check(got[0] == 'ok' if depth <= 60 else got[0] == 'err' and got[1], f'chain of {depth} ({name}, {label})', f'depth {depth}', got=got[:2], nt=R.n)
                small = new(KIND[name] if name != 'any' else 'list', rng)
                R.check(outcome(lambda: s.to_json([small]) if name == 'list' else s.to_json(small))[0] == 'ok', f'after a chain ({name})', f'depth {depth}', nt=R.n)
    # --- an object whose serialization failed (at any depth) serializes again within the same call
    for deep in (200, 254, 255, 256, 257, 300):
        nodes = [[]]
        for _ in range(deep):
            nodes.append([nodes[-1]])
        cyc = []
        cyc.append([cyc])
        bad, limits = [], []

        def handler(v, h):
            for x in (nodes[-1], cyc):
                try:
                    h(x)
                except ValueError:
                    limits.append(x is cyc)
            for i, x in enumerate(nodes[:190]):
                try:
                    if h(x) != x:
                        bad.append((i, 'value'))
                except ValueError as e:
                    bad.append((i, str(e)))
            return 'done'
        s = SchemaSerializer(cs.definitions_schema(cs.any_schema(serialization=cs.wrap_serializer_function_ser_schema(handler, schema=REF('N'))), [cs.list_schema(REF('N'), ref='N')]))
        for label, g in (('python', lambda: s.to_python(1)), ('json', lambda: s.to_json(1))):
            bad.clear()
            got = outcome(g)
            R.check(got[0] == 'ok' and not bad and True in limits, f'again after a failure at depth {deep} ({label})', 'a wrap serializer calls its handler on a chain beyond the depth limit, on a cycle, and then on the parts of the chain', got=(got, bad[:3]), want='all parts serialize', nt=R.n)
    # --- keys, enum values and fallbacks that lead to themselves
    class F:
        pass

    class E(enum.Enum):
        a = 1
    E.a._value_ = E.a

    class E2(enum.Enum):
        a = 1
    E2.a._value_ = (1, [E2.a])
    f = F()
    n1, n2 = cs.nullable_schema(REF('n'), ref='n'), cs.tuple_variable_schema(cs.union_schema([REF('n'), cs.int_schema()]), ref='n')
    k1 = SchemaSerializer(cs.definitions_schema(cs.dict_schema(REF('n'), cs.any_schema()), [n1]))
    v1 = SchemaSerializer(cs.definitions_schema(REF('n'), [n1]))
    for label, fn in (('key fallback', lambda: to_json({f: 1}, fallback=lambda x: x)), ('key fallback, python', lambda: to_jsonable_python({f: 1}, fallback=lambda x: x)), ('new keys', lambda: to_json({f: 1}, fallback=lambda x: F())), ('key in tuple', lambda: to_json({(1, (f,)): 1}, fallback=lambda x: (x,))),
                      ('enum key', lambda: to_json({E.a: 1})), ('enum', lambda: to_json(E.a)), ('enum, python', lambda: to_jsonable_python(E.a)), ('enum value', lambda: to_json(E2.a)), ('fallback', lambda: to_json(f, fallback=lambda x: x)), ('fallback, python', lambda: to_jsonable_python([f], fallback=lambda x: x)),
                      ('new values', lambda: to_json(f, fallback=lambda x: [F()])), ('schema of itself as key', lambda: k1.to_json({1: 1})), ('schema of itself', lambda: v1.to_json(1)), ('schema of itself, python', lambda: v1.to_python(1))):
        R.mark(label)
        got = outcome(fn)
        R.check(got[0] == 'err' and got[1], label, label, got=got, want='Circular reference detected', nt=R.n)
    R.check(outcome(lambda: to_json({f: f, 'x': f}, fallback=lambda x: 'F')) == ('ok', b'{"F":"F","x":"F"}'), 'key and value', '{f: f}', nt=R.n)
    d = D()
    d.a = {d: 1}
    R.check(outcome(lambda: to_json(d))[0] in ('ok', 'err'), 'a dataclass as key of its own dict', 'd.a = {d: 1}', nt=R.n)
    t = (1, (2,))
    R.check(outcome(lambda: to_json([{t: t}, {(t, t): t}])) == ('ok', b'[{"1,2":[1,[2]]},{"1,2,1,2":[1,[2]]}]'), 'tuples as keys and values', 't', nt=R.n)
    # --- failures of user code leave nothing behind, in the same call (unions) and in later ones
    class Boom:
        n = 0

        def __init__(self, at):
            self.at = at
    for at in range(6):
        inner = [[], {}, [[1]]]
        obj = {'a': inner, 'b': inner, 'c': Boom(at)}
        state = {'n': 0}

        def fb(x):
            state['n'] += 1
            if state['n'] <= at:
                raise ValueError('boom')
            return inner
        for label, fn in (('json', lambda: json.loads(to_json(obj, fallback=fb))), ('python', lambda: to_jsonable_python(obj, fallback=fb))):
            state['n'] = 0
            for k in range(at + 2):
                got = outcome(fn)
                if k < at:
                    R.check(got[0] == 'err' and 'boom' in got[2], f'failure {k} ({label})', f'at={at}', got=got, nt=R.n)
                else:
                    R.check(got == ('ok', {'a': inner, 'b': inner, 'c': inner}), f'after {at} failures ({label})', f'at={at}', got=got, nt=R.n)
        # a wrap serializer that swallows the failure of its handler and serializes the same object again
        calls = []

        def w(v, h):
            calls.append(1)
            if len(calls) % 2:
                try:
                    h([v, Boom(0)])
                except Exception:
                    pass
            return h(v)
        s = SchemaSerializer(cs.list_schema(cs.any_schema(serialization=cs.wrap_serializer_function_ser_schema(w))))
        R.check(outcome(lambda: s.to_python([inner] * at, mode='json')) == ('ok', [inner] * at), 'wrap serializer after a failure', f'at={at}', nt=R.n)
        R.check(outcome(lambda: json.loads(s.to_json([inner] * at))) == ('ok', [inner] * at), 'wrap serializer after a failure, JSON', f'at={at}', nt=R.n)
    A = cs.typed_dict_schema({'x': cs.typed_dict_field(cs.any_schema()), 'y': cs.typed_dict_field(cs.int_schema())})
    B = cs.typed_dict_schema({'x': cs.typed_dict_field(cs.any_schema()), 'y': cs.typed_dict_field(cs.str_schema())})
    s = SchemaSerializer(cs.list_schema(cs.union_schema([A, B])))
    sh = [[1]]
    for data in ([{'x': sh, 'y': 'a'}, {'x': sh, 'y': 1}, {'x': sh, 'y': 'b'}],):
        R.check(outcome(lambda: s.to_python(data, mode='json')) == ('ok', data), 'union members share objects', repr(data), nt=R.n)
        R.check(outcome(lambda: json.loads(s.to_json(data))) == ('ok', data), 'union members share objects, JSON', repr(data), nt=R.n)
    # --- generators are serialized after what encloses them is gone
    sg = SchemaSerializer(cs.definitions_schema(N, [cs.dict_schema(cs.str_schema(), cs.union_schema([cs.generator_schema(N), cs.int_schema()]), ref='N')]))
    hits = 0
    for k in range(20):
        oid = []

        def gen():
            keep = []
            for i in range(400):
                y = {'k': i}
                if id(y) == oid[0]:
                    yield y
                    return
                keep.append(y)
            yield {'k': -1}
        outer = {'a': gen()}
        oid.append(id(outer))
        it = sg.to_python(outer)['a']
        del outer
        got = outcome(lambda: list(it))
        hits += got[0] == 'ok' and got[1] != [{'k': -1}]
        R.check(got[0] == 'ok', 'items of a generator are not what enclosed it', 'outer = {"a": gen()}', got=got, nt=R.n)
    s = SchemaSerializer(cs.generator_schema(cs.int_schema()))
    it = s.to_python(iter([1, 'a', 2]), warnings='error')
    R.check([outcome(lambda: next(it))[0] for _ in range(3)] == ['ok', 'err', 'ok'], 'a bad item of a generator does not spoil the next', "iter([1, 'a', 2])", nt=R.n)

    def w2(v, h):
        out = []
        for x in ('a', 2, 'b', 3):
            out.append(outcome(lambda: h(x))[0])
        return out
    s = SchemaSerializer(cs.tuple_positional_schema([cs.int_schema(), cs.int_schema(serialization=cs.wrap_serializer_function_ser_schema(w2, schema=cs.int_schema()))]))
    R.check(outcome(lambda: s.to_python((1, 1), warnings='error')) == ('ok', (1, ['err', 'ok', 'err', 'ok'])), 'a bad value does not spoil the handler', "('a', 2, 'b', 3)", nt=R.n)


SER_SCHEMA = {'list': cs.list_schema(cs.nullable_schema(N), ref='N'), 'dict': cs.dict_schema(cs.str_schema(), cs.nullable_schema(N), ref='N'),
              'model': model(M, cs.nullable_schema(N), 'N'), 'dc': cs.dataclass_schema(D, cs.dataclass_args_schema('D', [cs.dataclass_field(k, cs.nullable_schema(N)) for k in 'ab']), ['a', 'b'], ref='N')}

guard(Recorder('C16'), main)
