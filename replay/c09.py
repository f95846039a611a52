"""C09: strict mode narrows; strictness comes from the call, else the schema, else the config, and reaches every nested schema"""
from h import *
import collections, datetime as dt, decimal, enum, fractions, itertools, uuid
from decimal import Decimal as D


class SI(int):
    pass


class SF(float):
    pass


class SS(str):
    pass


class SB(bytes):
    pass


class SD(D):
    pass


class SL(list):
    pass


class SDict(dict):
    pass


class ST(tuple):
    pass


class Set_(set):
    pass


class FS(frozenset):
    pass


class SDate(dt.date):
    pass


class SDT(dt.datetime):
    pass


class STime(dt.time):
    pass


class STD(dt.timedelta):
    pass


class SU(uuid.UUID):
    pass


class SC(complex):
    pass


class E(enum.Enum):
    a = 'a'
    one = 1


class IE(enum.IntEnum):
    one = 1


class SE(str, enum.Enum):
    a = 'a'
    n = '1'


class FE(float, enum.Enum):
    h = 1.5


class Fl:
    def __float__(self):
        return 2.5


class Ix:
    def __index__(self):
        return 7


class MyMap(collections.abc.Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class Data:
    pass


def instances():
    x = Data()
    x.__dict__.update({'a': 1})
    return x


UU = uuid.UUID('12345678-1234-4234-9234-123456789012')
U = dt.timezone.utc
POOL = [None, True, False, 0, 1, -1, 7, 2 ** 40, 2 ** 63, 2 ** 70, -2 ** 63, SI(3), IE.one, 0.0, 1.0, 1.5, -2.0, 1e300, float('inf'), float('nan'), SF(2.0), FE.h, D('1'), D('1.5'), D('NaN'), SD('2'), fractions.Fraction(3, 2), Fl(), Ix(),
        complex(1, 2), SC(1, 2), '', 'a', '1', '1.5', '1e3', 'true', 'x', SS('1'), SE.a, SE.n, E.a, E.one, b'', b'1', b'true', SB(b'1'), bytearray(b'1'), b'\xff', bytearray(b'\xff'), memoryview(b'1'),
        dt.date(2020, 1, 2), SDate(2020, 1, 2), dt.datetime(2020, 1, 2), dt.datetime(2020, 1, 2, 3, tzinfo=U), SDT(2020, 1, 2), dt.time(1, 2), STime(1, 2), dt.timedelta(seconds=5), STD(seconds=5), '2020-01-02', '2020-01-02T03:04:05Z', '2020-01-02T00:00:00', '01:02:03', 'PT5S', '1+2j',
        b'2020-01-02', UU, SU(str(UU)), str(UU), UU.bytes, str(UU).encode(), [], [1], ['1'], [True], SL([1]), SL(['1']), (1,), ('1',), ST((1,)), {1}, {'1'}, Set_({1}), frozenset({1}), FS({1}), {}, {'a': 1}, {'a': '1'}, {'a': True}, {1: 1}, SDict(a=1), MyMap({'a': 1}), MyMap({'a': '1'}),
        collections.deque([1]), range(3), {'a': 1}.keys(), {'a': 1}.values(), {'a': 1}.items(), instances(), object(), int, [[1]], [['1']], {'a': [1]}, {'a': ['1']}, {'a': {'a': '1'}}, {'a': {'a': 1}}, ({'a': 1}, {}),
        collections.OrderedDict(a=1), collections.defaultdict(int, a=1)]
GEN = [lambda: iter([1]), lambda: (i for i in [1]), lambda: iter(['1']), lambda: map(int, ['1'])]
JSONS = ['null', 'true', 'false', '0', '1', '-1', '7', '9223372036854775808', '1180591620717411303424', '1.0', '1.5', '1e400', 'NaN', 'Infinity', '""', '"a"', '"1"', '"1.5"', '"true"', '"2020-01-02"', '"2020-01-02T03:04:05Z"', '"2020-01-02T00:00:00"',
         '"01:02:03"', '"PT5S"', '"1+2j"', f'"{UU}"', '[]', '[1]', '["1"]', '[true]', '[[1]]', '[["1"]]', '{}', '{"a":1}', '{"a":"1"}', '{"a":true}', '{"a":[1]}', '{"a":["1"]}', '{"a":{"a":1}}', '{"a":{"a":"1"}}', '1577923200', '"http://a.b/"']
STRS = ['', 'a', '1', '1.5', 'true', 'x', '2020-01-02', '2020-01-02T03:04:05Z', '2020-01-02T00:00:00', '01:02:03', 'PT5S', '1+2j', str(UU), {'a': '1'}, {'a': 'x'}]


def fl(x):
    if isinstance(x, (bool, str, bytes, bytearray)):
        return False
    return type(x) is float or hasattr(type(x), '__float__') or hasattr(type(x), '__index__')


# name -> (schema builder, strict acceptance in python mode, JSON types strict mode accepts)
NUM = (int, float)
K = {
    'bool': (cs.bool_schema, lambda x: type(x) is bool, (bool,)),
    'int': (cs.int_schema, lambda x: isinstance(x, int) and not isinstance(x, bool), (int,)),
    'intc': (lambda **k: cs.int_schema(ge=-2 ** 80, **k), lambda x: isinstance(x, int) and not isinstance(x, bool), (int,)),
    'float': (cs.float_schema, fl, NUM),
    'floatc': (lambda **k: cs.float_schema(le=1e308, **k), fl, NUM),
    'str': (cs.str_schema, lambda x: isinstance(x, str), (str,)),
    'strc': (lambda **k: cs.str_schema(max_length=3, **k), lambda x: isinstance(x, str), (str,)),
    'strnum': (lambda **k: cs.str_schema(coerce_numbers_to_str=True, **k), lambda x: isinstance(x, str), (str,)),
    'bytes': (cs.bytes_schema, lambda x: isinstance(x, bytes), (str,)),
    'bytesc': (lambda **k: cs.bytes_schema(max_length=3, **k), lambda x: isinstance(x, bytes), (str,)),
    'decimal': (cs.decimal_schema, lambda x: isinstance(x, D), (int, float, str)),
    'complex': (cs.complex_schema, lambda x: isinstance(x, complex), (str,)),
    'date': (cs.date_schema, lambda x: isinstance(x, dt.date) and not isinstance(x, dt.datetime), (str,)),
    'datetime': (cs.datetime_schema, lambda x: isinstance(x, dt.datetime), (str,)),
    'time': (cs.time_schema, lambda x: isinstance(x, dt.time), (str,)),
    'timedelta': (cs.timedelta_schema, lambda x: isinstance(x, dt.timedelta), (str,)),
    'uuid': (cs.uuid_schema, lambda x: isinstance(x, uuid.UUID), (str,)),
    'url': (cs.url_schema, lambda x: isinstance(x, str) or type(x).__name__.endswith('Url'), (str,)),
    'list': (lambda **k: cs.list_schema(**k), lambda x: isinstance(x, list), (list,)),
    'tuple': (lambda **k: cs.tuple_variable_schema(**k), lambda x: isinstance(x, tuple), (list,)),
    'set': (lambda **k: cs.set_schema(**k), lambda x: isinstance(x, set), (list,)),
    'frozenset': (lambda **k: cs.frozenset_schema(**k), lambda x: isinstance(x, frozenset), (list,)),
    'dict': (lambda **k: cs.dict_schema(**k), lambda x: isinstance(x, dict), (dict,)),
    'enum': (lambda **k: cs.enum_schema(E, list(E), **k), lambda x: type(x) is E, None),
    'intenum': (lambda **k: cs.enum_schema(IE, list(IE), sub_type='int', **k), lambda x: type(x) is IE, None),
    'strenum': (lambda **k: cs.enum_schema(SE, list(SE), sub_type='str', **k), lambda x: type(x) is SE, None),
    'typed_dict': (lambda **k: cs.typed_dict_schema({'a': cs.typed_dict_field(cs.any_schema())}, **k), lambda x: isinstance(x, dict), (dict,)),
    'model_fields': (lambda strict=None: cs.lax_or_strict_schema(cs.any_schema(), cs.any_schema(), strict=strict), lambda x: True, None),
}
SET = (None, True, False)


def eff(call, schema, cfg):
    for x in (call, schema, cfg):
        if x is not None:
            return x
    return False


def inputs(rng):
    for x in POOL:
        yield (lambda x=x: x), repr(x)
    for g in GEN:
        yield g, 'iterator'


def modes(v):
    yield 'python', v.validate_python
    yield 'json', v.validate_json
    yield 'strings', v.validate_strings


def cfgs(c):
    return None if c is None else cs.CoreConfig(strict=c)


def scalars(R):
    import json
    for name, (mk, acc, jt) in K.items():
        ref = {s: SchemaValidator(mk(strict=s)) for s in (True, False)}
        combos = [(c, s, g) for c in SET for s in SET for g in SET]
        vs = {(s, g): SchemaValidator(cs.typed_dict_schema({'a': cs.typed_dict_field(cs.any_schema())}, config=cfgs(g), strict=s)) if name == 'typed_dict' else SchemaValidator(mk(strict=s) if s is not None else mk(), cfgs(g)) for s in SET for g in SET}
        for mode, vals in (('python', list(inputs(R.rng))), ('json', [((lambda j=j: j), j) for j in JSONS]), ('strings', [((lambda j=j: j), repr(j)) for j in STRS])):
            for f, rep in vals:
                R.mark(f'{name} {mode} {rep}')
                o = {s: run(getattr(ref[s], 'validate_' + mode), f()) for s in (True, False)}
                code = f'# {mk(strict=True)!r:.300}\n# validate_{mode}({rep})'
                if o[True].ok and rep != 'iterator':
                    R.same(f'{name} {mode} {rep}: strict accepts, so lax gives the same', o[False], o[True], code, nt=('imp', name, mode, rep))
                if mode == 'python':
                    if not acc(f()):
                        R.check(not o[True].ok, f'{name} {mode} {rep}: strict mode accepts only the target type', code, o[True], 'an error', nt=('only', name, rep))
                elif mode == 'json' and jt is not None:
                    x = json.loads(rep)
                    if not (type(x) in jt):
                        R.check(not o[True].ok, f'{name} json {rep}: strict mode accepts only the JSON form of the type', code, o[True], 'an error', nt=('only', name, rep))
                R.check(o[True].kind != 'exc' and o[False].kind != 'exc', f'{name} {mode} {rep}: no other exception', code, o, nt=None)
                if name == 'model_fields':
                    continue
                for c, s, g in combos:
                    got = run(getattr(vs[(s, g)], 'validate_' + mode), f(), strict=c)
                    want = o[eff(c, s, g)]
                    R.same(f'{name} {mode} {rep}: call={c} schema={s} config={g}', got, want, code, nt=('prec', name, mode, c, s, g) if want.ok else None)
        if R.out_of_time():
            return


# ---- nesting: the leaf is an int/str/... with its own setting, containers with their own settings, one call setting, one config
LEAF = {'int': (['1', True, 1.0], 1), 'float': (['1', True], 1.0), 'bool': (['true', 1], True), 'str': ([b'a', bytearray(b'a')], 'a'), 'date': (['2020-01-02'], dt.date(2020, 1, 2)), 'decimal': (['1', 1], D('1')), 'bytes': (['a'], b'a'), 'timedelta': ([5, 'PT5S'], dt.timedelta(seconds=5))}


class Mod:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'


class DC:
    pass


def s_if(strict):
    return {} if strict is None else {'strict': strict}


def wrappers(rng):
    """(name, schema builder (inner, strict), value builder strict-typed, value builder lax-typed or None)"""
    return [
        ('list', lambda i, s: cs.list_schema(i, **s_if(s)), lambda x: [x], lambda x: (x,)),
        ('tuple', lambda i, s: cs.tuple_schema([i, cs.any_schema()], **s_if(s)), lambda x: (x, 0), lambda x: [x, 0]),
        ('vtuple', lambda i, s: cs.tuple_variable_schema(i, **s_if(s)), lambda x: (x,), lambda x: [x]),
        ('dictv', lambda i, s: cs.dict_schema(values_schema=i, **s_if(s)), lambda x: {'k': x}, lambda x: MyMap({'k': x})),
        ('dictk', lambda i, s: cs.dict_schema(keys_schema=i, **s_if(s)), lambda x: {x: 0}, lambda x: MyMap({x: 0})),
        ('set', lambda i, s: cs.set_schema(i, **s_if(s)), lambda x: {x}, lambda x: [x]),
        ('frozenset', lambda i, s: cs.frozenset_schema(i, **s_if(s)), lambda x: frozenset([x]), lambda x: [x]),
        ('nullable', lambda i, s: cs.nullable_schema(i), lambda x: x, None),
        ('default', lambda i, s: cs.with_default_schema(i, default=0), lambda x: x, None),
        ('after', lambda i, s: cs.no_info_after_validator_function(lambda v: v, i), lambda x: x, None),
        ('before', lambda i, s: cs.no_info_before_validator_function(lambda v: v, i), lambda x: x, None),
        ('wrap', lambda i, s: cs.no_info_wrap_validator_function(lambda v, h: h(v), i), lambda x: x, None),
        ('chain', lambda i, s: cs.chain_schema([cs.any_schema(), i]), lambda x: x, None),
        ('union', lambda i, s: cs.union_schema([i, cs.none_schema()]), lambda x: x, None),
        ('tagged', lambda i, s: cs.tagged_union_schema({'t': i}, lambda v: 't'), lambda x: x, None),
        ('typed_dict', lambda i, s: cs.typed_dict_schema({'a': cs.typed_dict_field(i)}, **s_if(s)), lambda x: {'a': x}, lambda x: MyMap({'a': x})),
        ('td_extra', lambda i, s: cs.typed_dict_schema({}, extras_schema=i, extra_behavior='allow', **s_if(s)), lambda x: {'e': x}, lambda x: MyMap({'e': x})),
        ('model_fields', lambda i, s: cs.no_info_after_validator_function(lambda v: v[0], cs.model_fields_schema({'a': cs.model_field(i)})), lambda x: {'a': x}, None),
        ('mf_extra', lambda i, s: cs.no_info_after_validator_function(lambda v: v[1], cs.model_fields_schema({}, extras_schema=i, extra_behavior='allow')), lambda x: {'e': x}, None),
        ('args', lambda i, s: cs.arguments_schema([cs.arguments_parameter('a', i)]), lambda x: {'a': x}, None),
        ('varkw', lambda i, s: cs.arguments_schema([], var_kwargs_schema=i), lambda x: {'a': x}, None),
        ('json', lambda i, s: i, lambda x: x, None),
        ('definitions', lambda i, s: cs.definitions_schema(cs.definition_reference_schema('r'), [{**i, 'ref': 'r'}]), lambda x: x, None),
        ('generator', lambda i, s: cs.no_info_after_validator_function(list, cs.generator_schema(i)), lambda x: [x], None),
        ('call', lambda i, s: cs.call_schema(cs.arguments_schema([cs.arguments_parameter('a', i)]), lambda a: a), lambda x: {'a': x}, None),
    ]


def nested(R, n):
    rng = R.rng
    W = wrappers(rng)
    for it in range(n):
        if R.out_of_time():
            return
        leaf = rng.choice(list(LEAF))
        laxv, strictv = LEAF[leaf]
        ls = rng.choice(SET)
        g, c = rng.choice(SET), rng.choice(SET)
        chain = [(rng.choice(W), rng.choice(SET)) for _ in range(rng.randint(1, 3))]     # outermost first
        if sum(w[0] == 'definitions' for w, _ in chain) > 1:
            continue
        cfg, levels = g, []
        for (name, *_), s in chain:
            if name in ('typed_dict', 'td_extra'):
                cfg = None             # a typed dict has its own config, for itself and its fields
            levels.append(cfg)
        schema = K[leaf][0](**s_if(ls))
        value = rng.choice(laxv)
        want_ok = not eff(c, ls, cfg)
        if rng.random() < .25:
            value, want_ok = strictv, True
        names = []
        try:
            for ((name, mk, sv, lv), s), lcfg in reversed(list(zip(chain, levels))):
                if name in ('dictk', 'set', 'frozenset'):
                    hash(value)
                    if any(n.split(':')[0] in ('list', 'set') for n in names):
                        raise TypeError
                schema = mk(schema, s)
                if lv is not None and rng.random() < .3:
                    value = lv(value)
                    want_ok = want_ok and not eff(c, s, lcfg)
                else:
                    value = sv(value)
                names.append(f'{name}:{s}')
        except TypeError:
            continue
        v = SchemaValidator(schema, cfgs(g))
        label = f'{" > ".join(reversed(names))} > {leaf}:{ls} <- {value!r:.120} call={c} config={g}'
        R.mark(label)
        got = run(v.validate_python, value, strict=c)
        R.check(got.kind == ('ok' if want_ok else 'err'), label, f'# {schema!r:.1500}\nvalidate_python({value!r}, strict={c})', got, 'accepted' if want_ok else 'rejected', nt=label)


def narrow(R, n):
    """random nested schemas and inputs: what strict accepts lax accepts with the same value"""
    rng = R.rng
    W = [w for w in wrappers(rng) if w[0] not in ('union', 'nullable')]
    names = [k for k in K if k != 'model_fields']
    for it in range(n):
        if R.out_of_time():
            return
        leaf = rng.choice(names)
        schema = K[leaf][0]()
        value = rng.choice(POOL)
        try:
            ws = [rng.choice(W) for _ in range(rng.randint(0, 2))]
            for name, mk, sv, lv in ws:
                if name in ('dictk', 'set', 'frozenset'):
                    hash(value)
                schema = mk(schema, None)
                value = (lv if lv is not None and rng.random() < .3 else sv)(value)
            v = SchemaValidator(schema)
        except (TypeError, SchemaError):
            continue
        label = f'{[w[0] for w in ws]} > {leaf} <- {value!r:.150}'
        R.mark(label)
        a = run(v.validate_python, value, strict=True)
        if a.ok:
            b = run(v.validate_python, value, strict=False)
            same = b.ok and repr(a.v) == repr(b.v) and type(a.v) is type(b.v)
            R.check(same, label, f'# {schema!r:.1000}\n# validate_python({value!r}, strict=True) and strict=False', b, a, nt=label)


def models(R):
    """the config of a model or dataclass applies to its fields; model schemas read it for themselves"""
    for c, s, g, outer in itertools.product(SET, SET, SET, SET):
        inner = cs.model_schema(Mod, cs.model_fields_schema({'a': cs.model_field(cs.int_schema(**s_if(s)))}), config=cfgs(g) or cs.CoreConfig())
        v = SchemaValidator(cs.list_schema(inner, strict=False), cfgs(outer))
        for val in (1, '1', True):
            got = run(v.validate_python, [{'a': val}], strict=c)
            R.check(got.kind == ('ok' if type(val) is int or not eff(c, s, g) else 'err'), f'list > model(config={g}) > int:{s} <- {val!r} call={c} outer={outer}', '', got, nt=('model', c, s, g, outer, val))
        dcs = cs.dataclass_schema(DC, cs.dataclass_args_schema('DC', [cs.dataclass_field('a', cs.int_schema(**s_if(s)))]), ['a'], config=cfgs(g) or cs.CoreConfig())
        v = SchemaValidator(dcs)
        for val in (1, '1', True):
            js = json.dumps({'a': val})
            got = run(v.validate_json, js, strict=c)
            R.check(got.kind == ('ok' if type(val) is int or not eff(c, s, g) else 'err'), f'dataclass(config={g}) > int:{s} <- {js} call={c}', '', got, nt=('dc', c, s, g, val))
        # a strict dataclass takes instances only
        for ds in SET:
            dcs = cs.dataclass_schema(DC, cs.dataclass_args_schema('DC', [cs.dataclass_field('a', cs.any_schema())]), ['a'], strict=ds, config=cfgs(g) or cs.CoreConfig())
            v = SchemaValidator(dcs)
            e = eff(c, ds, g)
            got = run(v.validate_python, {'a': 1}, strict=c)
            R.check(got.kind == ('err' if e else 'ok'), f'dataclass:{ds} (config={g}) <- dict call={c}', '', got, nt=('dci', c, ds, g))
            x = DC()
            got = run(v.validate_python, x, strict=c)
            R.check(got.ok and got.v is x, f'dataclass:{ds} (config={g}) <- instance call={c}', '', got, nt=('dcj', c, ds, g))
        # lax-or-strict follows the strictness in force
        v = SchemaValidator(cs.lax_or_strict_schema(cs.no_info_plain_validator_function(lambda x: 'lax'), cs.no_info_plain_validator_function(lambda x: 'strict'), strict=s), cfgs(g))
        got = run(v.validate_python, 0, strict=c)
        want = 'strict'
        if not eff(c, s, g):
            want = 'lax'
        R.check(got.ok and got.v == want, f'lax-or-strict:{s} config={g} call={c}', '', got, want, nt=('los', c, s, g))


def main(R):
    R.rules.append('every scalar and container schema x 100+ python values, JSON texts and strings x the 27 call/schema/config settings; random nestings up to depth 3')
    models(R)
    nested(R, 40000 if not THOROUGH else 120000)
    narrow(R, 40000 if not THOROUGH else 120000)
    scalars(R)


import json
guard(Recorder('C09'), main)
