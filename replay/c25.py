"""C25: JSON text and JSON-mode output agree (oracle: json.loads of the text equals the JSON-mode output, both fail or
both succeed; options change only the representation of bytes, durations and non-finite floats)"""
from h import *
import collections, dataclasses, datetime as dt, decimal, enum, pathlib, re, uuid, warnings, base64
from pydantic_core import Url, MultiHostUrl
D = decimal.Decimal
warnings.simplefilter('ignore')


def main(rec):
    global R
    R = rec
    for f in (leaves, options, enum_keys, schemas, functions, indents):
        if not R.out_of_time():
            f()
    R.rules.append('to_python(mode=json) and to_json of typed and inferred schemas over exact values, subclasses, values of other types, as elements, dict values and dict keys, for every bytes / timedelta / inf-nan option, and to_jsonable_python against to_json; the text is parsed by json.loads; the options judged on their own (base64, hex, ISO durations, seconds, null / constants / strings)')


class Color(enum.Enum):
    a = 1
    b = 'x'
    c = b'\xff\xfe'
    d = dt.timedelta(seconds=90)
    e = float('nan')
    f = None
    g = (1, 2)


class IntE(enum.IntEnum):
    one = 1


class StrE(str, enum.Enum):
    s = 'sv'


class IntMix(int, enum.Enum):
    two = 2


class SubInt(int):
    pass


class SubStr(str):
    pass


class SubFloat(float):
    pass


class SubBytes(bytes):
    pass


class SubDict(dict):
    pass


class SubList(list):
    pass


class LoudInt(int):
    def __str__(self):
        return 'loud'

    def __repr__(self):
        return 'loud'


class LoudStr(str):
    def __str__(self):
        return 'loud'


class LoudFloat(float):
    def __str__(self):
        return 'loud'

    def __repr__(self):
        return 'loud'


@dataclasses.dataclass
class DC:
    x: object
    y: object = 5


@dataclasses.dataclass
class Pyd:
    v: object


Pyd.__pydantic_serializer__ = SchemaSerializer(cs.dataclass_schema(Pyd, cs.dataclass_args_schema('Pyd', [cs.dataclass_field('v', cs.any_schema())]), ['v']))


class Plain:
    pass


class Model:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'

    def __init__(self, **kw):
        object.__setattr__(self, '__dict__', kw)
        object.__setattr__(self, '__pydantic_fields_set__', set(kw))
        object.__setattr__(self, '__pydantic_extra__', None)
        object.__setattr__(self, '__pydantic_private__', None)


class Comp(Model):
    cb = property(lambda self: b'\xff')
    ct = property(lambda self: [dt.timedelta(seconds=1), NAN])


def raises(x):
    if isinstance(x, str):
        raise ValueError('no')
    if x is None:
        raise PydanticSerializationError('none')
    return x


def extra_model(**kw):
    m = Model(x=1)
    object.__setattr__(m, '__pydantic_extra__', kw)
    return m


NT = collections.namedtuple('NT', 'a b')
NAN, INF = float('nan'), float('inf')
TZ = dt.timezone(dt.timedelta(hours=5, minutes=30))
SCALARS = [None, True, False, 0, 1, -1, 2**63, -2**70, 10**30, SubInt(5), LoudInt(4), 1.0, -0.0, 1.5, 1e22, 1e-7, 1e300, 5e-324, 0.1, NAN, INF, -INF, SubFloat(2.5), SubFloat('inf'), LoudFloat(1.25),
           '', 'a', 'é', '\U0001f600', '"\\\n\x00', SubStr('sub'), LoudStr('q'), b'', b'abc', b'\xff', b'\xff\xfe\x00', 'é'.encode(), SubBytes(b'sb'), bytearray(b'ba'), bytearray(b'\xff'), memoryview(b'm'),
           D('1.50'), D('NaN'), D('-0'), D('1E+5'), D('Infinity'), dt.date(2020, 1, 2), dt.datetime(2020, 1, 2, 3, 4, 5), dt.datetime(2020, 1, 2, 3, 4, 5, 6, tzinfo=dt.timezone.utc), dt.datetime(1, 1, 1, tzinfo=TZ), dt.time(1, 2), dt.time(1, 2, 3, 4, tzinfo=dt.timezone.utc),
           dt.timedelta(0), dt.timedelta(seconds=90), dt.timedelta(days=-1, microseconds=1), dt.timedelta(days=400, hours=3, microseconds=5), dt.timedelta(microseconds=-1), dt.timedelta.max, dt.timedelta.min,
           uuid.UUID(int=5), Url('http://é.com/p?q=1'), MultiHostUrl('redis://a,b:1/0'), Color.a, Color.b, Color.c, Color.d, Color.e, Color.f, Color.g, IntE.one, StrE.s, IntMix.two,
           complex(1, 2), complex(-1.5, NAN), complex(0, -0.0), pathlib.PurePosixPath('a/b'), re.compile('x+'), re.compile(b'y'), Plain(), object, ...]


def hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


KEYS = [k for k in SCALARS if hashable(k)] + [(1, 2), (), frozenset({1}), ('a', b'\xff'), (None, 1.5), ((1,), 2)]


def boxes(x):
    """containers around a value"""
    yield [x]
    yield (x, x)
    yield {'k': x}
    yield {'k': [x, {'n': (x,)}]}
    yield DC(x)
    yield Pyd(x)
    yield SubDict(k=x)
    yield SubList([x])
    yield NT(x, 1)
    yield collections.deque([x])
    yield collections.OrderedDict(k=x)
    yield (i for i in [x, 1])
    if hashable(x):
        yield {x}
        yield frozenset([x])
        yield {x: x}
        yield {'o': {x: 1}}
        yield {(x, 1): 2}
        yield DC({x: [x]})


def fix(v, inf):
    """JSON-mode output: python can hold non-finite floats, the text shows them as configured"""
    if isinstance(v, float) and (v != v or v in (INF, -INF)):
        name = 'NaN' if v != v else 'Infinity' if v > 0 else '-Infinity'
        return {'null': None, 'constants': ('const', name), 'strings': name}[inf]
    if type(v) is dict:
        return {k: fix(x, inf) for k, x in v.items()}
    if type(v) is list:
        return [fix(x, inf) for x in v]
    return v


def is_json(v):
    t = type(v)
    if t is dict:
        return all(type(k) is str and is_json(x) for k, x in v.items())
    if t is list:
        return all(is_json(x) for x in v)
    return v is None or t in (bool, int, float, str)


def same(a, b):
    if type(a) is not type(b):
        return False
    if type(a) is dict:
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if type(a) is list:
        return len(a) == len(b) and all(map(same, a, b))
    if type(a) is float:
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return a == b


def agree(label, py, js, inf, code='', known=None):
    """py, js: outcomes of the two paths"""
    nt = label
    if py.ok and js.ok:
        try:
            text = js.v.decode()
            back = json.loads(text, parse_constant=lambda c: ('const', c))
        except ValueError as e:
            return R.check(False, label + ' is valid JSON', code, js, e, nt=nt, known=known)
        want = fix(py.v, inf)
        return R.check(is_json(py.v) and same(back, want), label, code, back, want, nt=nt, known=known)
    return R.check(py.kind == js.kind or {py.kind, js.kind} <= {'err', 'exc'}, label + ' both fail or both succeed', code, js, py, nt=nt, known=known)


CFG = [dict(ser_json_bytes=b, ser_json_timedelta=t, ser_json_inf_nan=i) for b in ('utf8', 'base64', 'hex') for t in ('iso8601', 'float') for i in ('null', 'constants', 'strings')]


def known_of(x, sname=''):
    if 'float' in sname and isinstance(x, D):
        return 'float-like'
    return 'surrogate' if isinstance(x, str) and x == '\ud800' else None


def both(s, cfg, x, name, raw=None, **kw):
    """x may be a factory (generators are consumed)"""
    mk = x if callable(x) and getattr(x, 'factory', False) else (lambda: x)
    label = f'{name} {cfg} {kw or ""} <- {short(mk())}'
    R.mark(label)
    py = run(s.to_python, mk(), mode='json', warnings=False, **kw)
    js = run(s.to_json, mk(), warnings=False, **kw)
    return agree(label, py, js, (cfg or {}).get('ser_json_inf_nan', 'constants' if cfg is None else 'null'), f's.to_python(x, mode="json") against s.to_json(x) for {name}, config {cfg}', known_of(mk() if raw is None else raw, name))


def fac(f):
    f.factory = True
    return f


def typed_schemas():
    yield 'any', cs.any_schema()
    for n in ('none', 'bool', 'int', 'float', 'str', 'bytes', 'decimal', 'date', 'time', 'datetime', 'timedelta', 'url', 'multi_host_url', 'uuid', 'complex'):
        yield n, getattr(cs, n + '_schema')()
    yield 'enum', cs.enum_schema(Color, list(Color.__members__.values()))
    yield 'enum int', cs.enum_schema(IntE, list(IntE.__members__.values()), sub_type='int')
    yield 'enum str', cs.enum_schema(StrE, list(StrE.__members__.values()), sub_type='str')
    yield 'literal', cs.literal_schema([1, 'a', b'\xff', None, Color.a, StrE.s])
    yield 'dataclass', cs.dataclass_schema(DC, cs.dataclass_args_schema('DC', [cs.dataclass_field('x', cs.any_schema()), cs.dataclass_field('y', cs.float_schema())]), ['x', 'y'])
    yield 'model', cs.model_schema(Model, cs.model_fields_schema({'x': cs.model_field(cs.any_schema()), 'b': cs.model_field(cs.bytes_schema())}))
    yield 'generator', cs.generator_schema(cs.any_schema())
    for when in ('always', 'unless-none', 'json', 'json-unless-none'):
        yield f'to_string {when}', cs.any_schema(serialization=cs.to_string_ser_schema(when_used=when))
        yield f'format {when}', cs.any_schema(serialization=cs.format_ser_schema('5.1f', when_used=when))
        yield f'plain {when}', cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(lambda x: [x, {'k': b'x'}], when_used=when))
        yield f'plain info {when}', cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(lambda x, i: [x, i.mode, i.mode_is_json()], info_arg=True, when_used=when))
        yield f'plain returning bytes {when}', cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(lambda x: b'\xff', when_used=when, return_schema=cs.bytes_schema()))
        yield f'wrap {when}', cs.nullable_schema(cs.bytes_schema(), serialization=cs.wrap_serializer_function_ser_schema(lambda x, h: h(x), schema=cs.bytes_schema(), when_used=when))
        yield f'wrap info {when}', cs.timedelta_schema(serialization=cs.wrap_serializer_function_ser_schema(lambda x, h, i: {'v': h(x), 'm': i.mode}, info_arg=True, schema=cs.timedelta_schema(), when_used=when))
    yield 'simple bytes', cs.any_schema(serialization=cs.simple_ser_schema('bytes'))
    yield 'raising', cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(raises))
    yield 'computed', cs.model_schema(Model, cs.model_fields_schema({'x': cs.model_field(cs.any_schema(), serialization_alias='X')}, computed_fields=[cs.computed_field('cb', cs.bytes_schema(), alias='CB'), cs.computed_field('ct', cs.any_schema())]))
    yield 'allow extras', cs.model_schema(Model, cs.model_fields_schema({'x': cs.model_field(cs.any_schema())}, extra_behavior='allow'))


def wraps(n, s):
    yield n, s, lambda x: x
    yield f'nullable {n}', cs.nullable_schema(s), lambda x: x
    yield f'default {n}', cs.with_default_schema(s, default=1), lambda x: x
    yield f'list {n}', cs.list_schema(s), lambda x: [x, x]
    yield f'tuple {n}', cs.tuple_schema([s, cs.int_schema()]), lambda x: (x, 1)
    yield f'var tuple {n}', cs.tuple_variable_schema(s), lambda x: (x, x)
    yield f'dict of {n}', cs.dict_schema(values_schema=s), lambda x: {'k': x}
    yield f'typed dict of {n}', cs.typed_dict_schema({'f': cs.typed_dict_field(s)}), lambda x: {'f': x}
    yield f'typed dict with extra {n}', cs.typed_dict_schema({}, extra_behavior='allow', extras_schema=s), lambda x: {'f': x}
    yield f'model of {n}', cs.model_schema(Model, cs.model_fields_schema({'f': cs.model_field(s)})), lambda x: Model(f=x)
    yield f'union with {n}', cs.union_schema([s, cs.int_schema()]), lambda x: x
    yield f'union with {n} last', cs.union_schema([cs.bool_schema(), s]), lambda x: x
    yield f'json_or_python {n}', cs.json_or_python_schema(s, s), lambda x: x
    yield f'json {n}', cs.json_schema(s), lambda x: x
    yield f'definition {n}', cs.definitions_schema(cs.list_schema(cs.definition_reference_schema('d')), [{**s, 'ref': 'd'}]), lambda x: [x]
    yield f'function {n}', cs.no_info_after_validator_function(lambda x: x, s), lambda x: x
    yield f'generator of {n}', cs.generator_schema(s), lambda x: fac(lambda: (i for i in [x]))
    yield f'set of {n}', cs.set_schema(s), lambda x: {x}
    yield f'frozenset of {n}', cs.frozenset_schema(s), lambda x: frozenset([x])
    yield f'dict by {n}', cs.dict_schema(keys_schema=s), lambda x: {x: 1}
    yield f'dict by nullable {n}', cs.dict_schema(keys_schema=cs.nullable_schema(s)), lambda x: {x: 1}
    yield f'dict by union with {n}', cs.dict_schema(keys_schema=cs.union_schema([s, cs.bool_schema()])), lambda x: {x: x}
    yield f'plain function {n}', {**cs.any_schema(), 'serialization': cs.plain_serializer_function_ser_schema(lambda x: x, return_schema=s)}, lambda x: x
    yield f'wrap function {n}', {**s, 'serialization': cs.wrap_serializer_function_ser_schema(lambda x, h: h(x), schema=s, return_schema=cs.any_schema())}, lambda x: x


def leaves():
    """every value, bare and boxed, by inference"""
    for cfg in CFG:
        s = SchemaSerializer(cs.any_schema(), cfg)
        for x in SCALARS + KEYS[-6:] + [DC(1), Pyd(b'\xff'), Model(x=1), SubDict(a=1), NT(1, 2)]:
            both(s, cfg, x, 'any')
            if R.out_of_time():
                return
            if cfg in (CFG[0], CFG[9], CFG[14], CFG[-1]):
                for i, _ in enumerate(boxes(x)):
                    both(s, cfg, fac(lambda i=i: list(boxes(x))[i]), f'any box {i}')
        both(s, cfg, '\ud800', 'any')
        for k in KEYS:
            both(s, cfg, {k: 1}, 'any key')
            both(s, cfg, {'x': {k: k}}, 'any key nested')
            both(s, cfg, {k: 1}, 'any key', serialize_unknown=True)
        for x in (Plain(), [Plain()], {'k': Plain()}, {Plain(): 1}, Color.a, NT(1, Plain())):
            both(s, cfg, x, 'any', serialize_unknown=True)
            both(s, cfg, x, 'any', fallback=lambda y: 'fb')
            both(s, cfg, x, 'any', fallback=lambda y: [b'\xff', dt.timedelta(1), NAN])


BYTES = {'utf8': lambda b: b.decode(), 'base64': lambda b: base64.urlsafe_b64encode(b).decode(), 'hex': bytes.hex}


def iso(d):
    us = (d.days * 86400 + d.seconds) * 10**6 + d.microseconds
    neg, us = us < 0, abs(us)
    days, rest = divmod(us, 86400 * 10**6)
    y, days = divmod(days, 365)
    h, rest = divmod(rest, 3600 * 10**6)
    m, rest = divmod(rest, 60 * 10**6)
    sec, us = divmod(rest, 10**6)
    date = (f'{y}Y' if y else '') + (f'{days}D' if days else '')
    secs = f'{sec}' + (f'.{us:06d}'.rstrip('0') if us else '')
    t = (f'{h}H' if h else '') + (f'{m}M' if m else '') + (f'{secs}S' if sec or us else '')
    return ('-' if neg else '') + 'P' + date + ('T' + t if t else '') if date or t else 'PT0S'


def options():
    """what the options mean, at every depth, as keys and as values, in every typed and inferred schema"""
    vals = [(x, 'b') for x in (b'', b'abc', b'\xff\xfe', b'\xfb\xef\xbe', bytes(range(256)))] + [(x, 't') for x in SCALARS if isinstance(x, dt.timedelta)] + [(x, 'f') for x in (NAN, INF, -INF)] + [(x, 'o') for x in (1.5, 'a', 1, None, dt.date(2020, 1, 2))]
    for cfg in CFG:
        ss = {n: [SchemaSerializer(f(q), cfg) for q in (cs.any_schema(), {'b': cs.bytes_schema(), 't': cs.timedelta_schema(), 'f': cs.float_schema(), 'o': cs.any_schema()}[n])]
              for n in 'btfo' for f in [lambda q: q]}
        deep = {n: [SchemaSerializer(cs.list_schema(cs.dict_schema(keys_schema=q, values_schema=cs.nullable_schema(q))), cfg) for q in (cs.any_schema(), {'b': cs.bytes_schema(), 't': cs.timedelta_schema(), 'f': cs.float_schema(), 'o': cs.any_schema()}[n])] for n in 'btfo'}
        for x, k in vals:
            try:
                want = {'b': lambda: BYTES[cfg['ser_json_bytes']](x), 't': lambda: iso(x) if cfg['ser_json_timedelta'] == 'iso8601' else x.total_seconds(), 'f': lambda: fix(x, cfg['ser_json_inf_nan']), 'o': lambda: x.isoformat() if isinstance(x, dt.date) else x}[k]()
            except UnicodeDecodeError:
                want = None
                bad = True
            else:
                bad = False
            for s in ss[k]:
                js = run(s.to_json, x)
                got = json.loads(js.v, parse_constant=lambda c: ('const', c)) if js.ok else js
                R.check(js.kind == 'exc' if bad else same(got, want) if js.ok else False, f'option {cfg} {x!r} in JSON', got=got, want='an error' if bad else want, nt=f'{cfg}{x!r}{k}')
            for s in deep[k]:
                js = run(s.to_json, [{x: x}])
                py = run(s.to_python, [{x: x}], mode='json')
                label = f'option {cfg} {x!r} as key and value'
                if bad:
                    R.check(js.kind == py.kind == 'exc', label, got=(js, py), want='errors')
                    continue
                v = json.loads(js.v, parse_constant=lambda c: ('const', c)) if js.ok else js
                ok = js.ok and len(v) == 1 and len(v[0]) == 1 and same(list(v[0].values())[0], want)
                if ok and k == 'f' and (cfg['ser_json_inf_nan'] != 'null'):
                    ok = list(v[0]) == [str(x)]
                if ok and isinstance(want, str) and k in 'bt':
                    ok = list(v[0]) == [want]
                R.check(ok, label, got=v, want=[{want if isinstance(want, str) else '...': want}], nt=f'{cfg}{x!r}deep')


class FloatE(enum.Enum):
    nan, inf, minf, one, half = NAN, INF, -INF, 1.0, 0.5


def enum_keys():
    """a member is written as its value is, as a value and as a key"""
    for cfg in CFG:
        e, f = (SchemaSerializer(cs.list_schema(cs.dict_schema(q, q)), cfg) for q in (cs.enum_schema(FloatE, list(FloatE.__members__.values()), sub_type='float'), cs.float_schema()))
        for m in FloatE:
            for run_ in (lambda s, x: run(s.to_json, x), lambda s, x: run(s.to_python, x, mode='json')):
                a, b = run_(e, [{m: m}]), run_(f, [{m.value: m.value}])
                R.check(a.ok and b.ok and (repr(a.v) == repr(b.v)), f'enum member {m} {cfg} as key and value', got=a, want=b, nt=f'{cfg}{m}')


ARGS = [dict(exclude_none=True), dict(by_alias=True), dict(exclude_unset=True), dict(exclude_defaults=True), dict(round_trip=True), dict(serialize_unknown=True), dict(include={'f', 'x', 0}), dict(exclude={'f', 'x', 0}), dict(include={'k'}), dict(fallback=str),
        dict(exclude={'f': {'a', 0}}), dict(serialize_as_any=True)]


def configured(s, c):
    """models and dataclasses have a configuration of their own: the same one"""
    if isinstance(s, dict):
        s = {k: configured(v, c) for k, v in s.items()}
        if s.get('type') in ('model', 'dataclass', 'typed-dict'):
            s['config'] = c
    elif isinstance(s, list):
        s = [configured(x, c) for x in s]
    return s


def schemas():
    """typed schemas, with matching and other values"""
    rng = R.rng
    cases = [(n, s, w) for n0, s0 in typed_schemas() for n, s, w in wraps(n0, s0)]
    vals = SCALARS + [DC(1, 2.5), DC(b'\xff', NAN), Model(x=1, b=b'\xff'), Model(x=NAN, b=b'q'), Comp(x=1), extra_model(e=b'\xff', f=NAN), [1, b'\xff'], {'a': NAN}, (1,), {1, 2}, frozenset(), {1.5: 2}, {None: 1}, {True: dt.timedelta(1)}]
    rng.shuffle(cases)
    per = 60 if not THOROUGH else 10**6
    for n, s, w in cases:
        if R.out_of_time():
            return
        try:
            cfgs = rng.sample(CFG, 2)
            sers = [(c, SchemaSerializer(configured(s, c), c)) for c in cfgs]
        except SchemaError:
            continue
        for x in rng.sample(vals, min(per, len(vals))):
            try:
                y = w(x)
            except TypeError:
                continue
            for c, ser in sers:
                both(ser, c, y, n, raw=x)


def functions():
    """to_json against to_jsonable_python"""
    rng = R.rng
    for b in ('utf8', 'base64', 'hex'):
        for t in ('iso8601', 'float'):
            for i in ('null', 'constants', 'strings'):
                kw = dict(bytes_mode=b, timedelta_mode=t, inf_nan_mode=i)
                for x in SCALARS + [DC(1), Pyd(NAN), {'a': [NAN]}]:
                    if R.out_of_time():
                        return
                    for y in [x] + ([{x: x}] if hashable(x) else []) + [[(x,)]]:
                        label = f'to_json / to_jsonable_python {kw} <- {y!r}'
                        R.mark(label)
                        agree(label, run(to_jsonable_python, y, **kw), run(to_json, y, **kw), i, known=known_of(y))
                        if rng.random() < .3:
                            agree(label + ' unknown', run(to_jsonable_python, y, serialize_unknown=True, **kw), run(to_json, y, serialize_unknown=True, **kw), i, known=known_of(y))


def indents():
    """an indent changes white space only"""
    s = SchemaSerializer(cs.any_schema())
    for x in ([], {}, [[]], [{}], {'a': []}, [1, [2, {'a': (3,)}]], {'a': {'b': {'c': [1, 2]}}}, 'x', None, {'é': '\n', 'q': [b'x']}, DC([1, {}])):
        flat = run(s.to_json, x)
        for n in (0, 1, 2, 4, 7):
            p = run(s.to_json, x, indent=n)
            R.check(p.ok and flat.ok and json.loads(p.v) == json.loads(flat.v), f'indent={n} <- {x!r}', got=p, want=flat, nt=f'{n}{x!r}')
            q = run(to_json, x, indent=n)
            R.check(q.ok and q.v == p.v, f'to_json indent={n} <- {x!r}', got=q, want=p)


guard(Recorder('C25'), main)
