"""C29: bytes, URL and type checks (oracles: length and encoding of the bytes, the components a URL is built from,
Python's isinstance / issubclass / callable)"""
from h import *
import base64, abc, collections.abc, typing, functools, itertools
from pydantic_core import Url, MultiHostUrl


def main(rec):
    global R
    R = rec
    for f in (classes, byte_strings, encodings, parsed, constraints, defaults, multi, kinds, strict_text):
        if not R.out_of_time():
            f()
    R.rules.append('isinstance/issubclass/callable over classes, metaclasses, ABCs and raising hooks; bytes, bytearray and text over limits and encodings; URLs assembled from their components over schemes, hosts, ports, defaults, length limits, URL and MultiHostUrl objects, lax and strict')


class Meta(type):
    def __instancecheck__(cls, x):
        return x == 7

    def __subclasscheck__(cls, x):
        return x is int


class Bad(type):
    def __instancecheck__(cls, x):
        if x == 'cls':
            return False
        raise RuntimeError('no')

    def __subclasscheck__(cls, x):
        raise RuntimeError('no')


class Odd(metaclass=Meta):
    pass


class Raises(metaclass=Bad):
    pass


class Base:
    pass


class Sub(Base):
    def __call__(self):
        return 1


class Abc(abc.ABC):
    pass


class Liar:
    """claims another class"""
    @property
    def __class__(self):
        return Base


Abc.register(Base)
BOOLNESS = type('Falsy', (Base,), {'__bool__': lambda s: False, '__call__': lambda s: 0})


class Err_:
    @property
    def __class__(self):
        raise ValueError('class')


def classes():
    objs = [1, True, 7, None, 'x', b'', (), [], {}, 1.5, int, str, bool, type, object, Base, Base(), Sub, Sub(), Abc, Odd, Raises, Liar(), BOOLNESS(), BOOLNESS, len, lambda: 0, functools.partial(len, []), [].append,
            list[int], typing.List[int], typing.Any, typing.Union[int, str], int | str, TypeError(), TypeError, collections.abc.Sized, Err_, NotImplemented, ...]
    cls = [int, bool, str, object, type, Base, Sub, Abc, Odd, Raises, collections.abc.Sized, collections.abc.Callable, Exception, type(None), Meta, list]
    for c in cls:
        iv, sv = SchemaValidator(cs.is_instance_schema(c)), SchemaValidator(cs.is_subclass_schema(c))
        for i, o in enumerate(objs):
            for v, nm, py, et in ((iv, 'isinstance', lambda: isinstance(o, c), 'is_instance_of'), (sv, 'issubclass', lambda: type in type(o).__mro__ and issubclass(o, c), 'is_subclass_of')):
                label = f'{nm}({o!r}, {c.__name__})'
                R.mark(label)
                want = run(py)
                got = run_full(v.validate_python, o)
                if want.ok and want.v:
                    ok = got.ok and got.v is o
                elif want.ok:
                    ok = got.kind == 'err' and got.v == [(et, (), {'class': c.__qualname__})]
                else:
                    ok = got.kind == 'exc' and got.v.startswith(want.v.split(':')[0])
                R.check(ok, label, f'# {label} with objs[{i}] of replay/c29.py', got, want, nt=label)
    cv = SchemaValidator(cs.callable_schema())
    for i, o in enumerate(objs):
        got = run(cv.validate_python, o)
        want = callable(o)
        R.check((got.ok and got.v is o) if want else got == ERR('callable_type'), f'callable({o!r})', got=got, want=want, nt=f'callable{i}')
    two = SchemaValidator(cs.is_instance_schema((int, Base)))
    for o in objs:
        got = run(two.validate_python, o)
        w = run(isinstance, o, (int, Base))
        R.check((got.ok and got.v is o) if w.ok and w.v else got.kind == 'err', f'isinstance({o!r}, (int, Base))', got=got, want=w)
    for s, et in ((cs.is_instance_schema(int), 'needs_python_object'), (cs.is_subclass_schema(int), 'needs_python_object'), (cs.callable_schema(), 'callable_type')):
        for j in ('1', '"x"', '[]', '{}', 'null'):
            R.val(s, j, lambda g, et=et: g == ERR(et), mode='json')


# ---- bytes
class SubBytes(bytes):
    pass


def blens(k):
    return [dict(), *[dict(min_length=a) for a in (0, k - 1, k, k + 1) if a >= 0], *[dict(max_length=a) for a in (0, k - 1, k, k + 1) if a >= 0], dict(min_length=k, max_length=k), dict(min_length=1, max_length=2)]


def judge_bytes(schema, x, data, mode='python', known=None, **kw):
    """data: the bytes x denotes; None: x is no byte string"""
    lo, hi = schema.get('min_length'), schema.get('max_length')
    R.mark(f'{mode} {schema} {x!r}')
    sv = SchemaValidator(schema)
    got = run_full({'python': sv.validate_python, 'json': sv.validate_json, 'strings': sv.validate_strings}[mode], x, **kw)
    if data is None:
        ok = got.kind == 'err' and got.v[0][0] in ('bytes_type', 'bytes_invalid_encoding')
        want = 'rejected'
    elif lo is not None and len(data) < lo:
        want = [('bytes_too_short', (), {'min_length': lo})]
        ok = got.kind == 'err' and got.v == want
    elif hi is not None and len(data) > hi:
        want = [('bytes_too_long', (), {'max_length': hi})]
        ok = got.kind == 'err' and got.v == want
    else:
        want = data
        ok = got.ok and isinstance(got.v, bytes) and bytes(got.v) == data
    R.check(ok, f'bytes {mode} {schema} <- {x!r} {kw}', f'SchemaValidator({schema!r}).validate_{mode}({x!r}, **{kw!r})', got, want, nt=(repr(schema), repr(x), mode), known=known)


def byte_strings():
    for data in (b'', b'a', b'abc', b'\xff\x00\xfe', 'é'.encode(), bytes(range(256)), b'\xed\xa0\x80'):
        for lim in blens(len(data)):
            for strict in (False, True):
                for base in (lim, {**lim, 'strict': strict}):
                    kw = {} if 'strict' in base else {'strict': strict}
                    s = cs.bytes_schema(**base)
                    judge_bytes(s, data, data, **kw)
                    judge_bytes(s, SubBytes(data), data, **kw)
                    judge_bytes(s, bytearray(data), None if strict else data, **kw)
                    try:
                        t = data.decode()
                    except ValueError:
                        continue
                    judge_bytes(s, t, None if strict else data, **kw)
                    judge_bytes(s, json.dumps(t), data, mode='json', **kw)
                    judge_bytes(s, t, data, mode='strings', **kw)
    for x in (1, None, 1.5, [1], memoryview(b'a'), object(), [97], True, '\ud800'):
        R.check(run(SchemaValidator(cs.bytes_schema()).validate_python, x).kind == 'err', f'bytes <- {x!r}', want='rejected')
    for j in ('1', 'null', '[97]', '{}', 'true'):
        judge_bytes(cs.bytes_schema(), j, None, mode='json')


STD = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'


def b64(text):
    """the bytes base64 text denotes in the URL-safe or the standard alphabet, or None"""
    body = text.rstrip('=')
    pad = len(text) - len(body)
    if pad not in (0, -len(body) % 4) or len(body) % 4 == 1:
        return None
    if all(c in STD + '-_' for c in body) or all(c in STD + '+/' for c in body):
        d = base64.urlsafe_b64decode(body.replace('+', '-').replace('/', '_') + '=' * (-len(body) % 4))
        return d if base64.urlsafe_b64encode(d).decode().rstrip('=') == body.replace('+', '-').replace('/', '_') else None
    return None


def hexed(t):
    return bytes.fromhex(t) if len(t) % 2 == 0 and all(c in '0123456789abcdefABCDEF' for c in t) else None


def encodings():
    rng = R.rng
    datas = [b'', b'a', b'ab', b'abc', b'\xff\xff\xff', b'\xfb\xef\xbe', b'\xfb\xef', b'\xff\xfe', b'\xfb', bytes(range(256))] + [rng.randbytes(rng.randrange(1, 12)) for _ in range(60 if not THOROUGH else 600)]
    for data in datas:
        if R.out_of_time():
            return
        texts = {'base64': set(), 'hex': {data.hex(), data.hex().upper(), data.hex()[:-1], data.hex() + 'g', ' ' + data.hex(), '0x' + data.hex()}, 'utf8': {data.hex()}}
        for e in (base64.b64encode(data).decode(), base64.urlsafe_b64encode(data).decode()):
            bare = e.rstrip('=')
            texts['base64'] |= {e, bare, bare + '*', bare + ' ', '+' + e[1:], '-' + e[1:], e.replace('_', '/'), e.replace('-', '+'), bare[:-1], e + '\n', bare + 'A'}
        for enc, ts in texts.items():
            for t in sorted(ts):
                want = {'base64': b64, 'hex': hexed, 'utf8': str.encode}[enc](t)
                n = len(want) if want is not None else 3
                for lim in rng.sample(blens(n), 2):
                    s = cs.bytes_schema(**lim)
                    cfg = cs.core_schema.CoreConfig(val_json_bytes=enc) if hasattr(cs, 'core_schema') else {'val_json_bytes': enc}
                    sv = None
                    for mode, x in (('python', t), ('json', json.dumps(t)), ('strings', t)):
                        R.mark(f'{enc} {lim} {mode} {t!r}')
                        v = SchemaValidator(s, cfg)
                        got = run_full({'python': v.validate_python, 'json': v.validate_json, 'strings': v.validate_strings}[mode], x)
                        lo, hi = lim.get('min_length'), lim.get('max_length')
                        if want is None:
                            ok = got.kind == 'err' and got.v[0][0] == 'bytes_invalid_encoding' and got.v[0][2].get('encoding') == enc
                            w = 'bytes_invalid_encoding'
                        elif lo is not None and n < lo:
                            w, ok = 'bytes_too_short', got.kind == 'err' and got.v == [('bytes_too_short', (), {'min_length': lo})]
                        elif hi is not None and n > hi:
                            w, ok = 'bytes_too_long', got.kind == 'err' and got.v == [('bytes_too_long', (), {'max_length': hi})]
                        else:
                            w, ok = want, got.ok and got.v == want
                        R.check(ok, f'bytes val_json_bytes={enc} {lim} {mode} <- {x!r}', f'SchemaValidator({s!r}, {{"val_json_bytes": {enc!r}}}).validate_{mode}({x!r})', got, w, nt=(enc, t, mode))
                v = SchemaValidator(cs.bytes_schema(), {'val_json_bytes': enc})
                for raw in (t.encode(), bytearray(t.encode())):
                    got = run(v.validate_python, raw)
                    R.check(got.ok and got.v == bytes(raw), f'bytes val_json_bytes={enc} python {raw!r} stays as it is', got=got, want=bytes(raw))


# ---- URLs
DEFAULT = {'http': 80, 'https': 443, 'ws': 80, 'wss': 443, 'ftp': 21}
SCHEMES = ['http', 'https', 'ws', 'ftp', 'redis', 'postgres', 'foo+bar', 'x', 'file', 'a1.b-c']
HOSTS = ['example.com', 'localhost', '127.0.0.1', '[::1]', 'a.b-c.co', 'x']
USERS = [(None, None), ('u', None), ('u', 'p'), ('us-er', 'p.w'), ('u', 'p%40')]
PORTS = [None, 80, 443, 1, 8080, 65535]
PATHS = [None, '/', '/a', '/a/b', '/a/', '/a%20b', '/a,b']
QUERIES = [None, 'a=1', 'x=1&y=2', 'q=/']
FRAGS = [None, 'f', 'a/b']


def assemble(scheme, user, host, port, path, query, frag):
    u = scheme + '://'
    if user[0] is not None:
        u += user[0] + (':' + user[1] if user[1] is not None else '') + '@'
    u += host or ''
    if port is not None:
        u += f':{port}'
    return u + (path or '') + (f'?{query}' if query is not None else '') + (f'#{frag}' if frag is not None else '')


def comps(c):
    """what the attributes of the URL must be"""
    scheme, user, host, port, path, query, frag = c
    special = scheme in DEFAULT
    return dict(scheme=scheme, username=user[0], password=user[1], host=host, port=port if port is not None else DEFAULT.get(scheme) if host else None,
                path=(path or '/') if special else path, query=query, fragment=frag)


def commas(c):
    return 'empty-host-comma-path' if c[2] is None and ',' in (c[4] or '') else None


def attrs(u):
    return {k: getattr(u, k) for k in ('scheme', 'username', 'password', 'host', 'port', 'path', 'query', 'fragment')}


def sample(rng, schemes=SCHEMES, hosts=HOSTS):
    s = rng.choice(schemes)
    if s == 'file':
        return (s, (None, None), None, None, rng.choice(PATHS[2:6]), rng.choice(QUERIES), rng.choice(FRAGS))
    return (s, rng.choice(USERS), rng.choice(hosts), rng.choice(PORTS), rng.choice(PATHS), rng.choice(QUERIES), rng.choice(FRAGS))


def one(schema, x, want, label, known=None, nt=None, mode='python', **kw):
    """want: attributes, or error types"""
    R.mark(label)
    sv = SchemaValidator(schema)
    got = run_full({'python': sv.validate_python, 'json': sv.validate_json}[mode], x, **kw)
    code = f'SchemaValidator({schema!r}).validate_{mode}({x!r}, **{kw!r})'
    if isinstance(want, dict):
        ok = got.ok and isinstance(got.v, Url) and attrs(got.v) == want
        return R.check(ok, label, code, attrs(got.v) if got.ok and isinstance(got.v, Url) else got, want, nt=nt or label, known=known)
    ok = got.kind == 'err' and len(got.v) == 1 and got.v[0][1] == () and got.v[0][0] == want[0] and all(got.v[0][2].get(k) == y for k, y in want[1].items())
    return R.check(ok, label, code, got, want, nt=nt or label, known=known)


def parsed():
    rng = R.rng
    full = itertools.product(SCHEMES[:8], USERS[:3], HOSTS[:4], PORTS[:4], PATHS[:4], QUERIES[:2], FRAGS[:2])
    pool = list(full)
    for c in rng.sample(pool, 4000 if not THOROUGH else 6000) + [sample(rng) for _ in range(200)]:
        if R.out_of_time():
            return
        t = assemble(*c)
        for strict in (False, True):
            one(cs.url_schema(), t, comps(c), f'url <- {t!r} strict={strict}', strict=strict)
        one(cs.url_schema(), json.dumps(t), comps(c), f'url json <- {t!r}', mode='json')
        # multi-host with a single host: the same URL
        m = run(SchemaValidator(cs.multi_host_url_schema()).validate_python, t)
        w = comps(c)
        h = [{k: w[k] for k in ('username', 'password', 'host', 'port')}] if w['host'] else []
        R.check(m.ok and isinstance(m.v, MultiHostUrl) and (m.v.scheme, m.v.path, m.v.query, m.v.fragment) == (w['scheme'], w['path'], w['query'], w['fragment']) and m.v.hosts() == h,
                f'multi-host url <- {t!r}', f'SchemaValidator(core_schema.multi_host_url_schema()).validate_python({t!r})', m if not m.ok else (m.v.scheme, m.v.path, m.v.hosts()), w, nt='m' + t, known=commas(c))
    for bad in ('', 'x', '://', 'http://', 'http://:80', 'http://a:x', 'http://a:65536', '1http://a', 'http://[::1', 'http:// a', 'a b://c', '/a/b', '//a', 'http://a b/', 'http://%zz/'):
        for s in (cs.url_schema(), cs.multi_host_url_schema()):
            got = run(SchemaValidator(s).validate_python, bad)
            R.check(got == ERR('url_parsing'), f'{s["type"]} <- {bad!r}', got=got, want='url_parsing', nt=s['type'] + bad)
    for s in (cs.url_schema(), cs.multi_host_url_schema()):
        for bad in (1, None, 1.5, [], {}, object(), ('http://a',), True):
            got = run(SchemaValidator(s).validate_python, bad)
            R.check(got == ERR('url_type'), f'{s["type"]} <- {bad!r}', got=got, want='url_type')
        for j in ('1', 'null', '[]', '{}'):
            got = run(SchemaValidator(s).validate_json, j)
            R.check(got == ERR('url_type'), f'{s["type"]} json <- {j}', got=got, want='url_type')


def listing(xs):
    xs = [f"'{x}'" for x in xs]
    return xs[0] if len(xs) == 1 else ', '.join(xs[:-1]) + ' or ' + xs[-1]


def constraints():
    rng = R.rng
    for _ in range(4000 if not THOROUGH else 40000):
        if R.out_of_time():
            return
        c = sample(rng)
        t = assemble(*c)
        w = comps(c)
        sch = {}
        want = None
        if rng.random() < .6:
            n = len(t.encode())
            sch['max_length'] = rng.choice([n, n + 1, n - 1, 0, n + 5, 1])
            if n > sch['max_length']:
                want = ('url_too_long', {'max_length': sch['max_length']})
        if rng.random() < .6:
            sch['allowed_schemes'] = rng.sample(SCHEMES, rng.randrange(1, 4))
            if rng.random() < .5 and c[0] not in sch['allowed_schemes']:
                sch['allowed_schemes'].insert(rng.randrange(len(sch['allowed_schemes']) + 1), c[0])
            if want is None and c[0] not in sch['allowed_schemes']:
                want = ('url_scheme', {'expected_schemes': listing(sch['allowed_schemes'])})
        if rng.random() < .6:
            sch['host_required'] = rng.random() < .8
            if want is None and sch['host_required'] and w['host'] is None:
                want = ('url_parsing', {'error': 'empty host'})
        one(cs.url_schema(**sch), t, want or w, f'url {sch} <- {t!r}')
        m = run_full(SchemaValidator(cs.multi_host_url_schema(**sch)).validate_python, t)
        if want:
            ok = m.kind == 'err' and len(m.v) == 1 and m.v[0][0] == want[0] and all(m.v[0][2].get(k) == y for k, y in want[1].items())
        else:
            ok = m.ok and m.v.scheme == w['scheme'] and m.v.path == w['path']
        R.check(ok, f'multi-host url {sch} <- {t!r}', f'SchemaValidator(core_schema.multi_host_url_schema(**{sch!r})).validate_python({t!r})', m, want or w, nt=f'{sch}{t}', known=commas(c))
        # URL objects obey the same constraints, on their own text
        for u in (run(Url, t), run(MultiHostUrl, t)):
            if not u.ok:
                R.check(False, f'{t!r} as an object', got=u, want='a URL')
                continue
            n = len(str(u.v).encode())
            s2 = dict(sch)
            if 'max_length' in s2:
                s2['max_length'] = rng.choice([n, n - 1, n + 1])
            long = 'max_length' in s2 and n > s2['max_length']
            wrong = 'allowed_schemes' in s2 and c[0] not in s2['allowed_schemes']
            nohost = s2.get('host_required') and w['host'] is None
            w2 = ('url_too_long', {'max_length': s2.get('max_length')}) if long else ('url_scheme', {}) if wrong else ('url_parsing', {'error': 'empty host'}) if nohost else None
            for mk, cls in ((cs.url_schema, Url), (cs.multi_host_url_schema, MultiHostUrl)):
                before = str(u.v)
                g = run_full(SchemaValidator(mk(**s2)).validate_python, u.v)
                if w2:
                    ok = g.kind == 'err' and len(g.v) == 1 and g.v[0][0] == w2[0] and all(g.v[0][2].get(k) == y for k, y in w2[1].items())
                else:
                    ok = g.ok and type(g.v) is cls and str(g.v) == before and (g.v.scheme, g.v.path, g.v.query, g.v.fragment) == (w['scheme'], w['path'], w['query'], w['fragment'])
                R.check(ok and str(u.v) == before, f'{mk.__name__} {s2} <- {u.v!r}', f'SchemaValidator(core_schema.{mk.__name__}(**{s2!r})).validate_python({u.v!r})', g, w2 or before, nt=f'{s2}{u.v!r}')
    for mk in (cs.url_schema, cs.multi_host_url_schema):
        for t, n in (('http://é.com/', 14), ('http://a/é', 11)):
            for d in (-1, 0, 1):
                g = run(SchemaValidator(mk(max_length=n + d)).validate_python, t)
                R.check(g.ok if d >= 0 else g == ERR('url_too_long'), f'{mk.__name__} max_length={n + d} <- {t!r}', got=g, want='the length counts UTF-8 bytes')
        for al in (['HTTP'], ['Http', 'https']):
            g = run(SchemaValidator(mk(allowed_schemes=al)).validate_python, 'http://a/')
            R.check(g == ERR('url_scheme'), f'{mk.__name__} {al} <- http', got=g, want='url_scheme')
        g = run(SchemaValidator(mk(allowed_schemes=['http'])).validate_python, 'HTTP://a/')
        R.check(g.ok and g.v.scheme == 'http', f'{mk.__name__} http <- HTTP', got=g)
    for mk in (cs.url_schema, cs.multi_host_url_schema):
        try:
            SchemaValidator(mk(allowed_schemes=[]))
            R.check(False, f'{mk.__name__} with no scheme at all', got='built', want='SchemaError')
        except SchemaError:
            R.check(True, f'{mk.__name__} with no scheme at all')


def defaults():
    rng = R.rng
    for _ in range(5000 if not THOROUGH else 50000):
        if R.out_of_time():
            return
        c = list(sample(rng, schemes=['http', 'https', 'redis', 'postgres', 'foo', 'x']))
        if c[0] not in DEFAULT and rng.random() < .4:
            c[1], c[2], c[3] = (None, None), None, None
        c = tuple(c)
        t = assemble(*c)
        sch = {}
        if rng.random() < .6:
            sch['default_host'] = rng.choice(['localhost', 'd.com', '127.0.0.1'])
        if rng.random() < .6:
            sch['default_port'] = rng.choice([1, 80, 443, 6379, 65535])
        if rng.random() < .6:
            sch['default_path'] = rng.choice(['/0', '/d/e', '/'])
        if rng.random() < .4:
            sch['host_required'] = rng.random() < .7
        w = comps(c)
        known = None
        if w['host'] is None and 'default_host' in sch:
            w['host'] = sch['default_host']
        want = w
        if w['host'] is None and sch.get('host_required'):
            want = ('url_parsing', {'error': 'empty host'})
        elif 'default_port' in sch:
            if c[3] is not None:
                known = 'explicit-default-port' if c[3] == DEFAULT.get(c[0]) else None      # the library drops such a port
            elif w['host'] is None:
                want = ('url_parsing', {'error': 'empty host'})       # a port needs a host
            else:
                w['port'] = sch['default_port']
        if isinstance(want, dict) and w['path'] in (None, '/') and 'default_path' in sch:
            w['path'] = sch['default_path']
        before = run(Url, t)
        one(cs.url_schema(**sch), t, want, f'url {sch} <- {t!r}', known=known)
        if before.ok:
            a0 = attrs(before.v)
            one(cs.url_schema(**sch), before.v, want, f'url {sch} <- {before.v!r}', known=known)
            R.check(attrs(before.v) == a0, f'the given URL object stays as it is: {sch} {t!r}', got=attrs(before.v), want=a0)
        m0 = run(MultiHostUrl, t)
        for x in [t] + ([m0.v] if m0.ok else []) + ([before.v] if before.ok else []):
            s0 = str(x)
            m = run_full(SchemaValidator(cs.multi_host_url_schema(**sch)).validate_python, x)
            if isinstance(want, dict):
                h = [{k: w[k] for k in ('username', 'password', 'host', 'port')}] if w['host'] else []
                ok = m.ok and isinstance(m.v, MultiHostUrl) and (m.v.scheme, m.v.path, m.v.query, m.v.fragment) == (w['scheme'], w['path'], w['query'], w['fragment']) and m.v.hosts() == h
            else:
                ok = m.kind == 'err' and len(m.v) == 1 and m.v[0][0] == want[0] and m.v[0][2] == want[1]
            R.check(ok and str(x) == s0, f'multi-host url {sch} <- {x!r}', f'SchemaValidator(core_schema.multi_host_url_schema(**{sch!r})).validate_python({x!r})', m if not m.ok else (str(m.v), m.v.hosts()), want, nt=f'{sch}{x!r}', known=known or commas(c))


def multi():
    """several hosts"""
    rng = R.rng
    for _ in range(3000 if not THOROUGH else 20000):
        if R.out_of_time():
            return
        scheme = rng.choice(['http', 'redis', 'postgres', 'foo+bar', 'https'])
        n = rng.randrange(2, 5)
        hs = [(rng.choice(USERS), rng.choice(HOSTS), rng.choice(PORTS)) for _ in range(n)]
        path, query, frag = rng.choice(PATHS), rng.choice(QUERIES), rng.choice(FRAGS)
        body = ','.join(assemble('', u, h, p, None, None, None)[3:] for u, h, p in hs)
        t = f'{scheme}://{body}{path or ""}' + (f'?{query}' if query is not None else '') + (f'#{frag}' if frag is not None else '')
        sch = {}
        want = None
        if rng.random() < .3:
            sch['max_length'] = len(t) + rng.choice([-1, 0, 1])
            if len(t) > sch['max_length']:
                want = 'url_too_long'
        if rng.random() < .3:
            sch['allowed_schemes'] = rng.sample(['http', 'redis', 'postgres'], 2)
            if want is None and scheme not in sch['allowed_schemes']:
                want = 'url_scheme'
        if rng.random() < .3:
            sch['host_required'] = True
        if rng.random() < .3:
            sch['default_host'] = 'dflt'
        if rng.random() < .3:
            sch['default_path'] = '/dflt'
        p = (path or '/') if scheme in DEFAULT else path
        if p in (None, '/') and 'default_path' in sch:
            p = sch['default_path']
        hosts = [dict(username=u[0], password=u[1], host=h, port=q if q is not None else DEFAULT.get(scheme)) for u, h, q in hs]
        for strict in (False, True):
            m = run(SchemaValidator(cs.multi_host_url_schema(**sch)).validate_python, t, strict=strict)
            if want:
                ok = m == ERR(want)
            else:
                ok = m.ok and (m.v.scheme, m.v.path, m.v.query, m.v.fragment) == (scheme, p, query, frag) and m.v.hosts() == hosts
            R.check(ok, f'multi-host url {sch} strict={strict} <- {t!r}', f'SchemaValidator(core_schema.multi_host_url_schema(**{sch!r})).validate_python({t!r}, strict={strict})', m if not m.ok else (str(m.v), m.v.path, m.v.hosts()), want or (scheme, p, hosts), nt=f'{sch}{t}')
        # the URL object of several hosts obeys the same schema and keeps its hosts
        o = run(SchemaValidator(cs.multi_host_url_schema()).validate_python, t)
        if o.ok:
            s0 = str(o.v)
            n0 = len(s0.encode())
            s2 = dict(sch)
            if 'max_length' in s2:
                s2['max_length'] = n0 + rng.choice([-1, 0, 1, -len(hosts[0]['host'])])
            if 'default_path' not in s2 and rng.random() < .5:
                s2['default_path'] = '/other'
            w2 = 'url_too_long' if n0 > s2.get('max_length', n0) else 'url_scheme' if scheme not in s2.get('allowed_schemes', [scheme]) else None
            q = (path or '/') if scheme in DEFAULT else path
            q = s2['default_path'] if q in (None, '/') and 'default_path' in s2 else q
            g = run(SchemaValidator(cs.multi_host_url_schema(**s2)).validate_python, o.v)
            ok = g == ERR(w2) if w2 else g.ok and g.v.hosts() == hosts and (g.v.scheme, g.v.path, g.v.query, g.v.fragment) == (scheme, q, query, frag)
            R.check(ok and str(o.v) == s0, f'multi-host url {s2} <- {o.v!r}', f'SchemaValidator(core_schema.multi_host_url_schema(**{s2!r})).validate_python({o.v!r})', g if not g.ok else (str(g.v), g.v.hosts()), w2 or (q, hosts), nt=f'{s2}{s0}')
        # an empty host among several is no URL
        i = rng.randrange(n)
        hb = body.split(',')
        for k in ('', ':80', 'u@'):
            hb[i] = k
            t2 = f'{scheme}://' + ','.join(hb) + (path or '')
            m = run(SchemaValidator(cs.multi_host_url_schema()).validate_python, t2)
            R.check(m == ERR('url_parsing'), f'multi-host url <- {t2!r}', f'SchemaValidator(core_schema.multi_host_url_schema()).validate_python({t2!r})', m, 'url_parsing', nt=t2)


def kinds():
    """the text form of a URL is a URL with the same parts"""
    rng = R.rng
    uv, mv = SchemaValidator(cs.url_schema()), SchemaValidator(cs.multi_host_url_schema())
    for _ in range(200):
        t = assemble(*sample(rng))
        a = uv.validate_python(t)
        b = run(uv.validate_python, str(a), strict=True)
        R.check(b.ok and attrs(b.v) == attrs(a) and b.v == a and hash(b.v) == hash(a), f'str(url) of {t!r} reads back', got=b, want=a, nt=t)
        m = mv.validate_python(t)
        b = run(mv.validate_python, str(m), strict=True)
        R.check(b.ok and b.v.hosts() == m.hosts() and b.v == m, f'str(multi-host url) of {t!r} reads back', got=b, want=m)


def strict_text():
    """spellings outside the URL standard: mended in lax mode, rejected in strict mode"""
    for odd, mended in (('http:/a/b', 'http://a/b'), ('http:a/b', 'http://a/b'), (' http://a/b', 'http://a/b'), ('http://a/b ', 'http://a/b'), ('http:\\\\a\\b', 'http://a/b'), ('http://a/b c', 'http://a/b%20c'), ('ht\ntp://a/', 'http://a/'), ('http:///a/b', 'http://a/b'), ('http://a/b|c', None), ('http://a/%zz', None)):
        for s in (cs.url_schema(), cs.url_schema(strict=True)):
            lax = run(SchemaValidator(s).validate_python, odd, strict=False) if 'strict' not in s else None
            if lax is not None and mended is not None:
                R.check(lax.ok and str(lax.v) == mended, f'lax url <- {odd!r}', got=lax, want=mended, nt=odd)
            st = run(SchemaValidator(s).validate_python, odd, **({} if 'strict' in s else {'strict': True}))
            R.check(st == ERR('url_syntax_violation'), f'strict url {s} <- {odd!r}', got=st, want='url_syntax_violation', nt='s' + odd)
    for fine in ('http://u:p@a/', 'http://a', 'http://a/?b#c', 'redis://a:1/0', 'http://é.com/'):
        st = run(SchemaValidator(cs.url_schema(strict=True)).validate_python, fine)
        R.check(st.ok, f'strict url <- {fine!r}', got=st, want='accepted')


guard(Recorder('C29'), main)
