"""C20: errors (oracle: the expected lines of a nested schema computed in Python, renderings rebuilt from the list)"""
from h import *
import copy, pickle, warnings
from pydantic_core._pydantic_core import list_all_errors

VERSION = '.'.join(pydantic_core.__version__.split('.')[:2]) if hasattr(pydantic_core, '__version__') else ''
URL = None


class Obj:
    def __init__(self, r):
        self.r = r

    def __repr__(self):
        return self.r

    def __reduce__(self):
        return Obj, (self.r,)

    def __eq__(self, o):
        return isinstance(o, Obj) and o.r == self.r

    def __hash__(self):
        return 1


class Bad:
    def __repr__(self):
        if Bad.on:
            raise ValueError('no repr')
        return '<unprintable Bad object>'

    on = False

    __str__ = __repr__


class L:
    """an expected line"""
    def __init__(self, type, msg, input, ctx=None, loc=(), custom=False):
        self.type, self.msg, self.input, self.ctx, self.loc, self.custom = type, msg, input, ctx, tuple(loc), custom

    def at(self, item):
        return L(self.type, self.msg, self.input, self.ctx, (item,) + self.loc, self.custom)


def pl(n):
    return '' if n == 1 else 's'


# ---- schemas with their oracle: each is (schema, check) with check(value) -> list of lines ----
def Int(gt=None, multiple_of=None):
    s = cs.int_schema(gt=gt, multiple_of=multiple_of)

    def check(v):
        if type(v) is float:
            return [L('int_from_float', 'Input should be a valid integer, got a number with a fractional part', v)]
        if type(v) in (str, bytes):
            try:
                v2 = int(v)
            except ValueError:
                return [L('int_parsing', 'Input should be a valid integer, unable to parse string as an integer', v)]
        elif type(v) is int:
            v2 = v
        else:
            return [L('int_type', 'Input should be a valid integer', v)]
        if multiple_of is not None and v2 % multiple_of:
            return [L('multiple_of', f'Input should be a multiple of {multiple_of}', v, {'multiple_of': multiple_of})]
        if gt is not None and not v2 > gt:
            return [L('greater_than', f'Input should be greater than {gt}', v, {'gt': gt})]
        return []
    return s, check


def Str(mn=None, mx=None, pat=None):
    def check(v):
        x = v
        if type(v) is bytes:
            v = v.decode()
        if type(v) is not str:
            return [L('string_type', 'Input should be a valid string', v)]
        if mx is not None and len(v) > mx:
            return [L('string_too_long', f'String should have at most {mx} character{pl(mx)}', x, {'max_length': mx})]
        if mn is not None and len(v) < mn:
            return [L('string_too_short', f'String should have at least {mn} character{pl(mn)}', x, {'min_length': mn})]
        if pat is not None and not v.startswith('q'):
            return [L('string_pattern_mismatch', f"String should match pattern '{pat}'", x, {'pattern': pat})]
        return []
    return cs.str_schema(min_length=mn, max_length=mx, pattern=pat), check


def Lit(vals):
    e = ' or '.join([', '.join(map(repr, vals[:-1])), repr(vals[-1])]) if len(vals) > 1 else repr(vals[0])

    def check(v):
        return [] if type(v) in (int, str) and v in vals else [L('literal_error', f'Input should be {e}', v, {'expected': e})]
    return cs.literal_schema(list(vals)), check


def Raise(make, line):
    """a plain validator that fails on everything"""
    def f(v):
        raise make()
    return cs.no_info_plain_validator_function(f), lambda v: [line(v)]


def customs():
    err = ValueError('boom {x}')
    ass = AssertionError('not so')
    big = 2 ** 70 + R.rng.randrange(9)
    o = Obj('ctx')
    return [
        (lambda: err, lambda v: L('value_error', 'Value error, boom {x}', v, {'error': err})),
        (lambda: ass, lambda v: L('assertion_error', 'Assertion failed, not so', v, {'error': ass})),
        (lambda: PydanticCustomError('my_type', 'm {a} and {b}', {'a': 'x', 'b': 3}), lambda v: L('my_type', 'm x and 3', v, {'a': 'x', 'b': 3}, custom=True)),
        (lambda: PydanticCustomError('my_type2', 'none {a}'), lambda v: L('my_type2', 'none {a}', v, None, custom=True)),
        (lambda: PydanticCustomError('int_type', 'names a known type'), lambda v: L('int_type', 'names a known type', v, None, custom=True)),
        (lambda: PydanticCustomError('t3', '{n} {f} {o}', {'n': big, 'f': 1.5, 'o': o}), lambda v: L('t3', f'{big} 1.5 ctx', v, {'n': big, 'f': 1.5, 'o': o}, custom=True)),
        (lambda: PydanticCustomError('t4', 'ctx with reserved {error_type}', {'error_type': 'E', 'message_template': 'M'}), lambda v: L('t4', 'ctx with reserved E', v, {'error_type': 'E', 'message_template': 'M'}, custom=True)),
        (lambda: PydanticKnownError('greater_than', {'gt': big}), lambda v: L('greater_than', f'Input should be greater than {big}', v, {'gt': big})),
        (lambda: PydanticKnownError('too_long', {'field_type': 'Set', 'max_length': 1, 'actual_length': 7}), lambda v: L('too_long', 'Set should have at most 1 item after validation, not 7', v, {'field_type': 'Set', 'max_length': 1, 'actual_length': 7})),
        (lambda: PydanticKnownError('too_long', {'field_type': 'Set', 'max_length': 2, 'actual_length': None}), lambda v: L('too_long', 'Set should have at most 2 items after validation, not more', v, {'field_type': 'Set', 'max_length': 2, 'actual_length': None})),
        (lambda: PydanticKnownError('too_short', {'field_type': 'Set', 'min_length': 1, 'actual_length': 0}), lambda v: L('too_short', 'Set should have at least 1 item after validation, not 0', v, {'field_type': 'Set', 'min_length': 1, 'actual_length': 0})),
        (lambda: PydanticKnownError('bytes_too_long', {'max_length': 1}), lambda v: L('bytes_too_long', 'Data should have at most 1 byte', v, {'max_length': 1})),
        (lambda: PydanticKnownError('bytes_too_short', {'min_length': 3}), lambda v: L('bytes_too_short', 'Data should have at least 3 bytes', v, {'min_length': 3})),
        (lambda: PydanticKnownError('string_too_short', {'min_length': 1}), lambda v: L('string_too_short', 'String should have at least 1 character', v, {'min_length': 1})),
        (lambda: PydanticKnownError('less_than_equal', {'le': 1.5}), lambda v: L('less_than_equal', 'Input should be less than or equal to 1.5', v, {'le': 1.5})),
        (lambda: PydanticKnownError('less_than', {'lt': '2020'}), lambda v: L('less_than', 'Input should be less than 2020', v, {'lt': '2020'})),
    ]


def List(inner, mn=None, mx=None):
    s, chk = inner

    def check(v):
        if type(v) not in (list, tuple):
            return [L('list_type', 'Input should be a valid list', v)]
        if mx is not None and len(v) > mx:
            return [L('too_long', f'List should have at most {mx} item{pl(mx)} after validation, not {len(v)}', v, {'field_type': 'List', 'max_length': mx, 'actual_length': len(v)})]
        out = [e.at(i) for i, x in enumerate(v) for e in chk(x)]
        if out:
            return out
        if mn is not None and len(v) < mn:
            return [L('too_short', f'List should have at least {mn} item{pl(mn)} after validation, not {len(v)}', v, {'field_type': 'List', 'min_length': mn, 'actual_length': len(v)})]
        return []
    return cs.list_schema(s, min_length=mn, max_length=mx), check


def Tuple(*inner):
    def check(v):
        if type(v) not in (list, tuple):
            return [L('tuple_type', 'Input should be a valid tuple', v)]
        if len(v) > len(inner):
            n = len(inner)
            return [L('too_long', f'Tuple should have at most {n} item{pl(n)} after validation, not {len(v)}', v, {'field_type': 'Tuple', 'max_length': n, 'actual_length': len(v)})]
        return [e.at(i) for i, ((s, chk), x) in enumerate(zip(inner, v)) for e in chk(x)] + [L('missing', 'Field required', v, loc=(i,)) for i in range(len(v), len(inner))]
    return cs.tuple_positional_schema([s for s, _ in inner]), check


def keyloc(k):
    if type(k) is str:
        return k
    if type(k) is int and -2 ** 63 <= k < 2 ** 63:
        return k
    return repr(k)


def Dict(ks, vs):
    def check(v):
        if type(v) is not dict:
            return [L('dict_type', 'Input should be a valid dictionary', v)]
        out = []
        for k, x in v.items():
            out += [e.at('[key]').at(keyloc(k)) for e in ks[1](k)]
            out += [e.at(keyloc(k)) for e in vs[1](x)]
        return out
    return cs.dict_schema(ks[0], vs[0]), check


class M:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'


def Fields(kind, fields, total=True):
    """fields: {name: (inner, required, alias)}"""
    def check(v):
        if type(v) is not dict:
            if kind == 'model':
                return [L('model_type', 'Input should be a valid dictionary or instance of M', v, {'class_name': 'M'})]
            return [L('dict_type', 'Input should be a valid dictionary', v)]
        out, used = [], set()
        for n, (inner, req, alias) in fields.items():
            key = alias or n
            if key in v:
                used.add(key)
                out += [e.at(key) for e in inner[1](v[key])]
            elif req:
                out.append(L('missing', 'Field required', v, loc=(key,)))
        for k, x in v.items():
            if k not in used:
                if type(k) is not str:
                    out.append(L('invalid_key', 'Keys should be strings', k, loc=(keyloc(k),)))
                else:
                    out.append(L('extra_forbidden', 'Extra inputs are not permitted', x, loc=(k,)))
        return out
    if kind == 'td':
        s = cs.typed_dict_schema({n: cs.typed_dict_field(i[0], required=req, validation_alias=alias) for n, (i, req, alias) in fields.items()}, extra_behavior='forbid')
    else:
        s = cs.model_schema(M, cs.model_fields_schema({n: cs.model_field(i[0] if req else cs.with_default_schema(i[0], default=None), validation_alias=alias) for n, (i, req, alias) in fields.items()}, model_name='M', extra_behavior='forbid'))
    return s, check


def Union(labels, inner):
    def check(v):
        errs = [i[1](v) for i in inner]
        if not all(errs):
            return []
        return [e.at(l) for l, es in zip(labels, errs) for e in es]
    return cs.union_schema([(i[0], l) for i, l in zip(inner, labels)], mode='left_to_right'), check


def Tagged(tags):
    def check(v):
        if type(v) is not dict:
            return [L('dict_type', 'Input should be a valid dictionary', v)]
        if 't' not in v:
            return [L('union_tag_not_found', "Unable to extract tag using discriminator 't'", v, {'discriminator': "'t'"})]
        if type(v['t']) is not str or v['t'] not in tags:
            e = ', '.join(repr(t) for t in tags)
            return [L('union_tag_invalid', f"Input tag '{v['t']}' found using 't' does not match any of the expected tags: {e}", v, {'discriminator': "'t'", 'tag': str(v['t']), 'expected_tags': e})]
        return [e.at(v['t']) for e in tags[v['t']][1](v)]
    return cs.tagged_union_schema({t: i[0] for t, i in tags.items()}, discriminator='t', from_attributes=False), check


def Nullable(inner):
    return cs.nullable_schema(inner[0]), lambda v: [] if v is None else inner[1](v)


def Wrap(inner, how):
    """a wrap validator re-raising the errors of its inner schema"""
    def f(v, h):
        try:
            return h(v)
        except ValidationError as e:
            if how == 'plain':
                raise
            raise e if how == 'same' else copy.copy(e)
    def f2(v, h):
        return h(v)
    return cs.no_info_wrap_validator_function(f if how != 'none' else f2, inner[0]), inner[1]


def Json(inner):
    def check(v):
        if type(v) is not str:
            return [L('json_type', 'JSON input should be string, bytes or bytearray', v)]
        return inner[1](json.loads(v))
    return cs.json_schema(inner[0]), check


LEAF_VALUES = [1, -3, 0, 7, 'x', '12', '', 'qq', 'a much longer string than the fifty bytes that are shown in the text', None, [], {}, 2 ** 80, 'é' * 40, 'a.b', "it's", 'new\nline']
OBJ_VALUES = [(), 1.5, b'ab', Obj('Obj!'), Obj('long ' * 30)]
KEYS = ['a', 'b', 'c', 'a.b', '', 'x y', '0', '__root__', 'é']


def gen(r, depth, jsonable):
    k = r.randrange(5 if depth <= 0 else 17)
    if k == 0:
        return Int(gt=r.choice([None, 2, -5, 10 ** 25]), multiple_of=r.choice([None, 4, 7]))
    if k == 1:
        return Str(mn=r.choice([None, 1, 2]), mx=r.choice([None, 1, 3]))
    if k == 2:
        return Lit(r.choice([[1], ['x', 'y'], ['a', 'b', 'c'], [1, 'x']]))
    if k == 3:
        return Raise(*r.choice(customs()))
    if k == 4:
        return Str(pat='^q')
    sub = lambda: gen(r, depth - 1, jsonable)
    if k in (5, 6):
        return List(sub(), mn=r.choice([None, 1, 2]), mx=r.choice([None, None, 1, 2]))
    if k == 7:
        return Tuple(*[sub() for _ in range(r.randrange(1, 4))])
    if k in (8, 9):
        return Dict(gen(r, 0, jsonable) if not jsonable else Str(mx=1), sub())
    if k in (10, 11, 12):
        names = r.sample(['a', 'b', 'c', 'd'], r.randrange(1, 4))
        return Fields(r.choice(['td', 'model']), {n: (sub(), r.random() < .7, r.choice([None, None, 'al_' + n, 'x.' + n])) for n in names})
    if k == 13:
        return Union(r.choice([['l1', 'l2'], ['list[a.b]', 'z']]), [sub(), sub()])
    if k == 14:
        return Tagged({t: Fields('td', {'t': (Str(), True, None), 'v': (sub(), True, None)}) for t in r.sample(['p', 'q', 'p.q', ''], r.randrange(1, 3))})
    if k == 15:
        return Nullable(sub())
    return Wrap(sub(), r.choice(['plain', 'same', 'none']))


def value(r, depth, jsonable):
    k = r.randrange(8)
    if depth <= 0 or k < 2:
        v = r.choice(LEAF_VALUES + ([] if jsonable else OBJ_VALUES))
        return copy.copy(v) if isinstance(v, (list, dict)) else v
    if k < 5:
        return [value(r, depth - 1, jsonable) for _ in range(r.randrange(4))]
    d = {}
    for _ in range(r.randrange(5)):
        key = r.choice(KEYS + ['t', 'v', 'al_a', 'x.b', 'd'] + ([] if jsonable else [1, -2, 2 ** 70, None, 1.5, (1, 'x')]))
        d[key] = r.choice(['p', 'q', 'p.q', 'nope']) if key == 't' else value(r, depth - 1, jsonable)
    return d


def shaped(r, s, depth, jsonable):
    """a value of roughly the shape of the schema, so that errors come from deep inside"""
    t = s['type']
    g = lambda x: shaped(r, x, depth - 1, jsonable)
    if r.random() < .12 or depth <= 0:
        return value(r, 1, jsonable)
    if t == 'list':
        return [g(s['items_schema']) for _ in range(r.randrange(4))]
    if t == 'tuple':
        out = [g(x) for x in s['items_schema']]
        return out[:r.randrange(len(out) + 1)] if r.random() < .3 else out + ([1] if r.random() < .2 else [])
    if t == 'dict':
        out = {}
        for _ in range(r.randrange(4)):
            k = r.choice(KEYS) if jsonable or r.random() < .7 else g(s['keys_schema'])
            try:
                out[k] = g(s['values_schema'])
            except TypeError:
                pass
        return out
    if t in ('typed-dict', 'model'):
        fs = s['fields'] if t == 'typed-dict' else s['schema']['fields']
        d = {}
        for n, f in fs.items():
            if r.random() < .8:
                d[f.get('validation_alias') or n] = g(f['schema'])
        if r.random() < .3:
            d[r.choice(KEYS)] = 1
        return d
    if t == 'union':
        return g(r.choice(s['choices'])[0])
    if t == 'tagged-union':
        tag = r.choice(list(s['choices']))
        v = g(s['choices'][tag])
        if isinstance(v, dict) and r.random() < .9:
            v['t'] = tag
        return v
    if t in ('nullable', 'default', 'function-wrap'):
        return g(s['schema'])
    return value(r, 1, jsonable)


def hashable_keys(v):
    return v


def trunc(s):
    b = s.encode()
    if len(b) <= 50:
        return s
    i = 25
    while (b[i] & 0xC0) == 0x80:
        i -= 1
    j = len(b) - 24
    while j < len(b) and (b[j] & 0xC0) == 0x80:
        j += 1
    return b[:i].decode() + '...' + b[j:].decode()


def unprintable(f):
    Bad.on = True
    try:
        return f()
    finally:
        Bad.on = False


def safe_repr(v):
    try:
        return repr(v)
    except Exception:
        return f'<unprintable {type(v).__qualname__} object>'


def text(e, lines, hide=False, url=True):
    n = len(lines)
    out = [f'{n} validation error{pl(n)} for {e.title}']
    for l in lines:
        loc = '.'.join(f'`{i}`' if isinstance(i, str) and '.' in i else str(i) for i in l.loc)
        s = (loc + '\n' if l.loc else '') + f'  {l.msg} [type={l.type}'
        if not hide:
            s += f', input_value={trunc(safe_repr(l.input))}, input_type={type(l.input).__qualname__}'
        s += ']'
        if url and not l.custom:
            s += f'\n    For further information visit {URL}{l.type}'
        out.append(s)
    return '\n'.join(out)


def as_list(lines, url, ctx, inp):
    out = []
    for l in lines:
        d = {'type': l.type, 'loc': l.loc, 'msg': l.msg}
        if inp:
            d['input'] = l.input
        if ctx and l.ctx is not None:
            d['ctx'] = l.ctx
        if url and not l.custom:
            d['url'] = URL + l.type
        out.append(d)
    return out


def jsonable_value(v):
    """the JSON rendering of a value, by the serializer used for values of unknown type"""
    return to_jsonable_python(v, serialize_unknown=True, inf_nan_mode='constants', bytes_mode='utf8')


def as_json(l):
    out = []
    for d in l:
        d = dict(d)
        d['loc'] = list(d['loc'])
        if 'input' in d:
            d['input'] = jsonable_value(d['input'])
        if 'ctx' in d:
            d['ctx'] = {k: str(x) if isinstance(x, Exception) else jsonable_value(x) for k, x in d['ctx'].items()}
        out.append(d)
    return out


def typed_json(s):
    return repr(json.loads(s))


def same_list(a, b, ident):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if set(x) != set(y) or any(typed(x[k]) != typed(y[k]) and x[k] is not y[k] for k in ('type', 'msg', 'url') if k in x):
            return False
        if type(x['loc']) is not tuple or typed(x['loc']) != typed(tuple(y['loc'])):
            return False
        if 'input' in x and not ((x['input'] is y['input']) if ident else repr_eq(x['input'], y['input'])):
            return False
        if 'ctx' in x and not ctx_eq(x['ctx'], y['ctx']):
            return False
    return True


def repr_eq(a, b):
    return type(a) is type(b) and safe_repr(a) == safe_repr(b)


def ctx_eq(a, b):
    if set(a) != set(b):
        return False
    for k in a:
        if isinstance(a[k], Exception):
            if type(a[k]) is not type(b[k]) or a[k].args != b[k].args:
                return False
        elif not (type(a[k]) is type(b[k]) and a[k] == b[k]):
            return False
    return True


def check(code, e, lines, ident, pick=True, hide=False):
    n = R.n
    es = e.errors()
    R.check(same_list(es, as_list(lines, True, True, True), ident), 'each failure is listed once with its location, input, message and context', code, got=es, want=as_list(lines, True, True, True), nt=n)
    R.check(e.error_count() == len(lines), 'the count equals the number of listed errors', code, got=e.error_count(), want=len(lines), nt=n)
    R.check(unprintable(lambda: str(e)) == text(e, lines, hide=hide) and unprintable(lambda: repr(e)) == unprintable(lambda: str(e)), 'the text agrees with the list', code, got=str(e), want=text(e, lines, hide=hide), nt=n)
    for url in (False, True):
        for ctx in (False, True):
            for inp in (False, True):
                kw = dict(include_url=url, include_context=ctx, include_input=inp)
                want = as_list(lines, url, ctx, inp)
                got = e.errors(**kw)
                R.check(same_list(got, want, ident), 'an option only changes its own part of the list', f'{code} errors({kw})', got=got, want=want, nt=(n, url, ctx, inp))
                js = run(e.json, **kw)
                if js.kind == 'exc' and not encodable(lines if inp or ctx else []):
                    R.check(False, 'the JSON rendering agrees with the list', f'{code} json({kw})', got=js, want='json', known='json-undecodable', nt=n)
                    continue
                R.check(js.ok and typed_json(js.v) == repr(as_json(want)), 'the JSON rendering agrees with the list', f'{code} json({kw})', got=js, want=as_json(want), nt=(n, url, ctx, inp))
    ind = R.rng.choice([0, 1, 3])
    js = run(e.json, indent=ind)
    if encodable(lines):
        R.check(js.ok and typed_json(js.v) == repr(as_json(as_list(lines, True, True, True))), 'the indentation only changes the layout', code, got=js, want='same', nt=n)
    if pick:
        try:
            p = pickle.loads(pickle.dumps(e))
        except (pickle.PicklingError, AttributeError, TypeError) as x:
            R.check(False, 'the error survives pickling', code, got=repr(x), want='a copy', nt=n)
            return
        R.check(same_list(p.errors(), as_list(lines, True, True, True), False) and p.title == e.title and str(p) == str(e) and p.error_count() == len(lines), 'the error survives pickling', code, got=p.errors(), want=es, nt=n)
        if encodable(lines):
            R.check(p.json() == e.json(), 'the copy has the same JSON rendering', code, got=p.json(), want=e.json(), nt=n)


def encodable(lines):
    def ok(v, d=0):
        if isinstance(v, bytes):
            try:
                v.decode()
            except UnicodeDecodeError:
                return False
        if isinstance(v, str):
            try:
                v.encode()
            except UnicodeEncodeError:
                return False
        if isinstance(v, dict):
            return all(ok(k) and ok(x) for k, x in v.items())
        if isinstance(v, (list, tuple, set)):
            return all(ok(x) for x in v)
        return True
    return all(ok(l.input) and ok(l.ctx or {}) for l in lines)


def picklable(lines):
    return True


def random_cases():
    while not R.out_of_time():
        r = R.rng
        jsonable = r.random() < .35
        s, chk = gen(r, r.randrange(1, 4), jsonable)
        hide = r.random() < .1
        title = r.choice([None, None, 'My title', 'Ünï'])
        cfg = cs.CoreConfig(**({'title': title} if title else {}), **({'hide_input_in_errors': True} if hide else {}))
        v = SchemaValidator(s, cfg or None)
        for _ in range(6):
            x = shaped(r, s, 5, jsonable) if r.random() < .85 else value(r, 3, jsonable)
            lines = chk(x)
            code = f'{s!r} <- {x!r}'[:600]
            for mode in (['python', 'json'] if jsonable else ['python']):
                try:
                    if mode == 'python':
                        v.validate_python(x)
                    else:
                        v.validate_json(json.dumps(x))
                except ValidationError as e:
                    ls = lines if mode == 'python' else [jl(l) for l in lines]
                    if title:
                        R.check(e.title == title, 'the title is the given one', code, got=e.title, want=title, nt=R.n)
                    if not lines:
                        R.check(False, 'a valid input has no errors', f'{code} {mode}', got=e.errors(), want=[], nt=R.n)
                        continue
                    check(f'{mode} {code}', e, ls, mode == 'python' and not any(l.type == 'assertion_error_' for l in ls), hide=hide)
                    round_trip(e, ls, code)
                except RecursionError:
                    pass
                else:
                    R.check(not lines, 'every failure is reported', f'{mode} {code}', got='valid', want=[l.__dict__ for l in lines], nt=R.n)


JSON_MSG = {'list_type': 'Input should be a valid array', 'tuple_type': 'Input should be a valid array', 'dict_type': 'Input should be an object', 'model_type': 'Input should be an object', 'model_attributes_type': None}


def jl(l):
    """the same line for JSON input: arrays and objects instead of lists and dicts; tuples become lists"""
    if l.type == 'model_attributes_type':
        return L('dict_type', 'Input should be an object', l.input, None, l.loc)
    m = JSON_MSG.get(l.type, l.msg)
    if m is None:
        m = l.msg
    if l.custom:
        m = l.msg
    return L(l.type, m, l.input, l.ctx, l.loc, l.custom)


def round_trip(e, lines, code):
    """errors() of an error, given to from_exception_data, builds the same error"""
    src = []
    for l in lines:
        d = {'type': PydanticCustomError(l.type, l.msg.replace('{', '{'), l.ctx) if l.custom else l.type, 'loc': l.loc, 'input': l.input}
        if l.ctx is not None and not l.custom:
            d['ctx'] = l.ctx
        src.append(d)
    jsn = any(l.msg != python_msg(l) for l in lines)
    try:
        e2 = ValidationError.from_exception_data(e.title, src, 'json' if jsn else 'python')
    except BaseException as x:
        R.check(False, 'an error is rebuilt from its own data', code, got=repr(x), want='same', nt=R.n)
        return
    R.check(same_list(e2.errors(), as_list(lines, True, True, True), True), 'an error is rebuilt from its own data', code, got=e2.errors(), want=as_list(lines, True, True, True), nt=R.n)


def python_msg(l):
    back = {'list_type': 'Input should be a valid list', 'tuple_type': 'Input should be a valid tuple', 'dict_type': 'Input should be a valid dictionary'}
    if l.custom:
        return l.msg
    if l.type == 'model_type':
        return f"Input should be a valid dictionary or instance of {l.ctx['class_name']}"
    return back.get(l.type, l.msg)


def fixed_cases():
    # inputs with unusual renderings
    for x in (Bad(), float('nan'), float('inf'), b'\xff', '\ud800', {'\ud800': 1}, {(1, 2): 3}, 2 ** 64, object, len, ValueError('x'), [1, [2, [3]]], {1: {2: 3}}, 'x' * 51, 'x' * 50, 'é' * 25, 'é' * 26, 'aé' * 17, '\U0001f600' * 13):
        for s, mk in ((cs.none_schema(), lambda v: [L('none_required', 'Input should be None', v)]), (cs.list_schema(cs.none_schema()), lambda v: [L('none_required', 'Input should be None', v, loc=(0,))])):
            inp = x if s['type'] == 'none' else [x]
            try:
                SchemaValidator(s).validate_python(inp)
            except ValidationError as e:
                try:
                    check(f'{s} <- {safe_repr(inp)}', e, mk(x), True, pick=not isinstance(x, Bad))
                except UnicodeEncodeError:
                    pass
                except UnicodeDecodeError:
                    pass
    # a wrap function that calls its handler with an outer location: every failure is kept, in order, below that location
    for loc in ('root', 3):
        for n in (1, 2, 7, 8, 9, 12, 33, 100, 300):
            xs = [f'x{i}' for i in range(n)]
            for outer in (0, 1):
                s = cs.no_info_wrap_validator_function(lambda v, h: h(v, loc), cs.list_schema(cs.none_schema()))
                if outer:
                    s = cs.list_schema(s)
                try:
                    SchemaValidator(s).validate_python([xs] if outer else xs)
                except ValidationError as e:
                    pre = (0, loc) if outer else (loc,)
                    check(f'wrap function with handler(v, {loc!r}) over a list of {n} values', e, [L('none_required', 'Input should be None', x, loc=(*pre, i)) for i, x in enumerate(xs)], True)
    # known finding: placeholders are filled one after another
    for make, want in ((lambda: PydanticCustomError('t', 'm {a} {b}', {'a': '{b}', 'b': 3}), 'm {b} 3'),):
        e = None
        try:
            SchemaValidator(Raise(make, None)[0]).validate_python(1)
        except ValidationError as x:
            e = x
        R.check(e.errors()[0]['msg'] == want, 'the message is built from its own context', "PydanticCustomError('t', 'm {a} {b}', {'a': '{b}', 'b': 3})", got=e.errors()[0]['msg'], want=want, known='placeholder', nt=1)
    # every known error: its template filled with its context, and pickled
    for d in list_all_errors():
        t, ctx = d['type'], d['example_context']
        if t == 'custom_error':
            continue
        for typ in ('python', 'json'):
            tmpl = d['message_template_python'] if typ == 'python' else d.get('message_template_json', d['message_template_python'])
            c2 = dict(ctx or {})
            fill = {k: str(v) for k, v in c2.items()}
            for k in ('min_length', 'max_length', 'actual_length', 'max_digits', 'decimal_places', 'whole_digits'):
                if k in c2 and isinstance(c2[k], int):
                    c2[k] = R.rng.choice([0, 1, 2, 9])
                    fill[k] = str(c2[k])
            for k in ('gt', 'ge', 'lt', 'le', 'multiple_of'):
                if k in c2 and isinstance(c2[k], (int, float)):
                    c2[k] = R.rng.choice([3, 2 ** 63, -2 ** 63, 2 ** 90, 1.5])
                    fill[k] = str(c2[k])
            for k in ('min_length', 'max_length', 'max_digits', 'decimal_places', 'whole_digits'):
                if k in c2 and '{expected_plural}' in tmpl:
                    fill['expected_plural'] = pl(c2[k])
            if 'error' in c2 and t in ('value_error', 'assertion_error'):
                c2['error'] = ValueError('v')
                fill['error'] = 'v'
            if t == 'too_long' and c2.get('actual_length') is None:
                fill['actual_length'] = 'more'
            want = re_fill(tmpl, fill)
            for loc in ((), ('a',), (0, 'b.c', -1)):
                inp = Obj('o')
                e = ValidationError.from_exception_data('T', [{'type': t, 'loc': loc, 'input': inp, **({'ctx': c2} if ctx else {})}], typ)
                line = [L(t, want, inp, c2 if ctx else None, loc)]
                check(f'from_exception_data {t} {typ} {c2} {loc}', e, line, True)
    # locations
    for loc in ((), ('a',), (1,), ('a', 1, 'b'), ('a.b', ''), (2 ** 63 - 1, -2 ** 63), tuple('abcdefgh')):
        for typ in (tuple, list):
            inp = Obj('o')
            e = ValidationError.from_exception_data('T', [{'type': 'int_type', 'loc': typ(loc), 'input': inp}] * 2)
            check(f'from_exception_data loc={loc}', e, [L('int_type', 'Input should be a valid integer', inp, loc=loc)] * 2, True)
    # hide_input
    e = ValidationError.from_exception_data('T', [{'type': 'int_type', 'loc': (), 'input': 1}], 'python', True)
    check('hide_input', e, [L('int_type', 'Input should be a valid integer', 1)], True, hide=True)
    R.check('input_value' not in str(e), 'hide_input hides the input in the text', 'from_exception_data(hide_input=True)', got=str(e), want='no input', nt=1)
    # chained re-raise: the failing lines of an inner validation appear under the outer location, once
    inner = SchemaValidator(cs.list_schema(cs.int_schema()))

    def f(v):
        return inner.validate_python(v)
    v = SchemaValidator(cs.dict_schema(cs.str_schema(), cs.no_info_plain_validator_function(f)))
    bad = {'k': ['x', 1, None], 'j': 5}
    try:
        v.validate_python(bad)
    except ValidationError as e:
        check('nested validator', e, [L('int_parsing', 'Input should be a valid integer, unable to parse string as an integer', 'x', loc=('k', 0)), L('int_type', 'Input should be a valid integer', None, loc=('k', 2)), L('list_type', 'Input should be a valid list', 5, loc=('j',))], True)
    # the same through pickling inside a wrap validator, also with custom errors

    def g(v, h):
        try:
            return h(v)
        except ValidationError as e:
            raise pickle.loads(pickle.dumps(e))

    for make, line in customs():
        s = cs.list_schema(cs.no_info_wrap_validator_function(g, cs.tuple_positional_schema([Raise(make, line)[0]])))
        try:
            SchemaValidator(s).validate_python([('x',)])
        except ValidationError as e:
            check(f'pickled and re-raised {line("x").type}', e, [line('x').at(0).at(0)], False)
        else:
            R.check(False, 'a re-raised copy is reported', repr(s), got='valid', want='error', nt=1)


def re_fill(t, fill):
    import re
    return re.sub(r'\{(\w+)\}', lambda m: fill.get(m[1], m[0]), t)


def main(rec):
    global URL, R
    R = rec
    try:
        SchemaValidator(cs.int_schema()).validate_python('x')
    except ValidationError as e:
        u = e.errors()[0]['url']
        assert u.endswith('int_parsing')
        URL = u[:-len('int_parsing')]
    R.rules.append('errors')
    fixed_cases()
    random_cases()


guard(Recorder('C20'), main)
