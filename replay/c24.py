"""C24: decimals and UUIDs (oracles: exact rational arithmetic and digit strings; the RFC text of a UUID)"""
from h import *
import decimal, uuid, itertools, re
from fractions import Fraction
from decimal import Decimal as D

ORDER = ('le', 'lt', 'ge', 'gt')
ERRT = {'le': 'less_than_equal', 'lt': 'less_than', 'ge': 'greater_than_equal', 'gt': 'greater_than'}
OPS = {'le': lambda a, b: a <= b, 'lt': lambda a, b: a < b, 'ge': lambda a, b: a >= b, 'gt': lambda a, b: a > b}


def digits_of(d):
    """(whole digits, decimal places) of the shortest decimal numeral of |d| without trailing zeros, by text"""
    s, ds, e = d.as_tuple()
    t = ''.join(map(str, ds)).lstrip('0')
    if not t:
        return 0, 0
    while t.endswith('0'):
        t, e = t[:-1], e + 1
    if e >= 0:
        return len(t) + e, 0
    return max(0, len(t) + e), -e


def cmp_frac(a, b, op):
    """exact comparison of two decimals"""
    for x in (a, b):
        if x.is_nan():
            return False
    if a.is_infinite() or b.is_infinite():
        return OPS[op](float(a) if a.is_infinite() else 0.0, float(b) if b.is_infinite() else 0.0) if not (a.is_infinite() and b.is_infinite() and a == b) else op in ('le', 'ge')
    # same magnitude scale without building huge integers
    if abs(a.adjusted() - b.adjusted()) > 5000 and a and b:
        sa, sb = (-1 if a.is_signed() else 1), (-1 if b.is_signed() else 1)
        if sa != sb:
            return OPS[op](sa, sb)
        return OPS[op](sa * (1 if a.adjusted() > b.adjusted() else -1), 0)
    if not a or not b or abs(a.adjusted()) > 5000:
        if not a and not b:
            return OPS[op](0, 0)
        if not a or not b:
            sg = lambda x: 0 if not x else (-1 if x.is_signed() else 1)
            return OPS[op](sg(a), sg(b))
        k = min(a.as_tuple().exponent, b.as_tuple().exponent)
        sc = lambda x: (-1 if x.is_signed() else 1) * int(''.join(map(str, x.as_tuple().digits))) * 10 ** (x.as_tuple().exponent - k)
        return OPS[op](sc(a), sc(b))
    return OPS[op](Fraction(a), Fraction(b))


def violations(d, s):
    """error types of the declared limits that d violates; None when the multiple cannot be decided within the context's precision"""
    out = []
    inf_nan = s.get('allow_inf_nan', False)
    if not inf_nan and not d.is_finite():
        return ['finite_number']
    if d.is_finite():
        w, p = digits_of(d)
        md, dp = s.get('max_digits'), s.get('decimal_places')
        # a numeral needs max(whole + places, places) digits
        if md is not None and w + p > md:
            out.append('decimal_max_digits')
        if dp is not None and p > dp:
            out.append('decimal_max_places')
        if md is not None and dp is not None and w > max(0, md - dp):
            out.append('decimal_whole_digits')
    m = s.get('multiple_of')
    if m is not None:
        if d.is_qnan():
            out.append('multiple_of')
        elif d.is_infinite() or d.is_snan():
            return None
        elif d and abs(d.adjusted() - m.adjusted()) > 3000:
            if d.adjusted() > m.adjusted():
                return None
            out.append('multiple_of')
        else:
            q = Fraction(*ratio(d, m))
            if abs(q) >= 10 ** decimal.getcontext().prec:
                return None
            if q.denominator != 1:
                out.append('multiple_of')
    for k in ORDER:
        if s.get(k) is not None and not cmp_frac(d, s[k], k):
            out.append(ERRT[k])
    return out


def ratio(a, b):
    ta, tb = a.as_tuple(), b.as_tuple()
    k = min(ta.exponent, tb.exponent)
    sc = lambda t: (-1 if t.sign else 1) * int(''.join(map(str, t.digits))) * 10 ** (t.exponent - k)
    return sc(ta), sc(tb)


DEC = [D(x) for x in ('0', '-0', '0.0', '0.00', '0E+3', '0E-7', '1', '-1', '1.0', '1.00', '10', '1E1', '1E+2', '100', '0.1', '0.10', '0.01', '0.001', '0.0010', '12.34', '12.340', '-12.34', '123', '1.23E2', '1.230E3', '9.99', '99.9', '999', '999.999',
                     '0.00012', '1E-5', '12E-1', '120E-2', '1E20', '1E28', '1E-28', '9' * 27, '9' * 28, '9' * 29, '1' + '0' * 30, '1' + '0' * 27 + '1', '1.' + '0' * 27 + '1', '1.' + '0' * 28 + '1', '1.' + '0' * 40 + '1', '0.' + '0' * 30 + '1',
                     '9.' + '9' * 30, '2' + '0' * 27 + '.1', '1' + '0' * 60 + '.5', '1E100', '1E-100', '123456789012345678901234567890.123456789', 'Infinity', '-Infinity', 'NaN', '-NaN', 'sNaN', 'NaN123', '3', '0.3', '0.7', '1E+5000', '1E-5000', '-9E+9999')]


def rnd_dec(rng):
    n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 10, 20, 28, 29, 30, 40])
    return D((rng.randrange(2), tuple(rng.choice([0, 0, 1, 9, rng.randrange(10)]) for _ in range(n)), rng.choice([0, 0, -1, -2, -3, 1, 2, -n, -n - 1, -n + 1, rng.randrange(-45, 45)])))


def rnd_schema(rng):
    s = {'type': 'decimal'}
    lim = [D('0'), D('1'), D('1.0'), D('-1'), D('12.34'), D('100'), D('1E2'), D('0.1'), D('1.' + '0' * 28 + '1'), D('9' * 28), D('1E+5000'), D('Infinity')]
    for k in ORDER:
        if rng.random() < .25:
            s[k] = rng.choice(lim + [rnd_dec(rng)])
    if rng.random() < .3:
        m = rng.choice([D('1'), D('2'), D('0.1'), D('0.01'), D('3'), D('0.3'), D('0.25'), D('1E2'), D('7E-30'), D('1.5'), D('-2'), D('10')])
        s['multiple_of'] = m
    if rng.random() < .25:
        s['allow_inf_nan'] = True
    else:
        if rng.random() < .55:
            s['max_digits'] = rng.choice([1, 2, 3, 4, 5, 6, 10, 20, 27, 28, 29, 30, 31, 41])
        if rng.random() < .55:
            s['decimal_places'] = rng.choice([0, 0, 1, 2, 3, 4, 10, 27, 28, 29, 30])
    return s


CTX = {'decimal_max_digits': 'max_digits', 'decimal_max_places': 'decimal_places'}


def judge(label, s, d, got, code, strict_obj=None):
    """got is the full outcome; d the decimal that must come back"""
    v = violations(d, s)
    if v is None:
        if s.get('allow_inf_nan') is not True and not d.is_finite():
            v = ['finite_number']
        else:
            R.check(got.kind == 'err' and got.v[0][0] in ('multiple_of', 'decimal_max_digits', 'decimal_max_places', 'decimal_whole_digits', *ERRT.values()), label, code, got=got, want='rejected', nt=label, known='multiple-context' if got.kind == 'exc' and 'InvalidOperation' in got.v else None)
            return
    if not v:
        ok = got.ok and type(got.v) is D and (got.v is strict_obj if strict_obj is not None else got.v.as_tuple() == d.as_tuple())
        R.check(ok, label, code, got=got, want=d, nt=label)
        return
    ok = got.kind == 'err' and len(got.v) == 1 and got.v[0][0] in v and got.v[0][1] == ()
    if ok:
        t, _, ctx = got.v[0]
        for k in ('max_digits', 'decimal_places'):
            if t in CTX and CTX[t] == k:
                ok = ok and ctx == {k: s[k]}
        if t == 'decimal_whole_digits':
            ok = ok and ctx == {'whole_digits': max(0, s['max_digits'] - s['decimal_places'])}
        if t == 'multiple_of':
            ok = ok and ctx == {'multiple_of': s['multiple_of']}
        for k in ORDER:
            if t == ERRT[k]:
                ok = ok and list(ctx) == [k] and ctx[k].as_tuple() == s[k].as_tuple()
    R.check(ok, label, code, got=got, want=('one of', v), nt=label)


def code_of(s, mode, x, **kw):
    return f"from decimal import Decimal\nfrom pydantic_core import SchemaValidator\nprint(SchemaValidator({s!r}).validate_{mode}({x!r}{''.join(f', {k}={v!r}' for k, v in kw.items())}))"


class SubD(D):
    pass


class Str(str):
    pass


class Int(int):
    pass


NUM = re.compile(r'\s*[+-]?((\d[\d_]*\.?[\d_]*|\.\d[\d_]*)([eE][+-]?\d[\d_]*)?|inf(inity)?|s?nan\d*)\s*\Z', re.I)
STRS = ['1', '-1', '+1', ' 1 ', '1_0', '1.5', '.5', '5.', '-0', '1e3', '1E-3', '1e+3', 'nan', 'NaN', 'inf', '-Infinity', 'snan', '', ' ', 'x', '1x', '0x1', '1,5', '--1', '1e', 'e1', '.', '١', '１', '1\n', '1.5.2', 'NaN12', 'true', 'None', '1 2', '1' * 60, '0.' + '3' * 60, '1e400', '\u20091']


def decimals():
    rng = R.rng
    schemas = [{'type': 'decimal'}, {'type': 'decimal', 'allow_inf_nan': True}]
    schemas += [{'type': 'decimal', 'max_digits': a} for a in (1, 2, 3, 28, 30)] + [{'type': 'decimal', 'decimal_places': a} for a in (0, 1, 2, 3, 28, 30)]
    schemas += [{'type': 'decimal', 'max_digits': a, 'decimal_places': b} for a in (1, 2, 3, 4, 5, 29, 31) for b in (0, 1, 2, 3, 4, 29)]
    schemas += [{'type': 'decimal', 'allow_inf_nan': i, k: D(b)} for i in (False, True) for k in ORDER + ('multiple_of',) for b in ('1', '12.34', '1E2', '0.1')]
    schemas += [{'type': 'decimal', 'allow_inf_nan': True, k: D(b)} for k in ORDER for b in ('Infinity', '-Infinity', '0', '-0')]

    def one(s, sv, d):
        R.mark(f'{s} {d!r}')
        judge(f'decimal {s} <- {d!r}', s, d, run_full(sv.validate_python, d), code_of(s, 'python', d), strict_obj=d)
    for s in schemas:
        sv = SchemaValidator(s)
        for d in DEC:
            one(s, sv, d)
    # other types of input
    for s in schemas[:2] + [schemas[9], {'type': 'decimal', 'max_digits': 3, 'decimal_places': 1}]:
        sv = SchemaValidator(s)
        for x in STRS:
            want = None
            try:
                want = D(x)
            except decimal.DecimalException:
                pass
            assert x.isascii() is False or '_' in x or (want is not None) == bool(NUM.match(x)), x
            for mode, v in (('python', x), ('json', json.dumps(x)), ('strings', x), ('python', Str(x))):
                got = run_full(getattr(sv, 'validate_' + mode), v)
                if want is None:
                    R.check(got.kind == 'err' and [(a[0], a[1]) for a in got.v] == [('decimal_parsing', ())], f'decimal {mode} {s} <- {v!r}', code_of(s, mode, v), got=got, want='decimal_parsing', nt=(mode, x))
                else:
                    judge(f'decimal {mode} {s} <- {v!r}', s, want, got, code_of(s, mode, v))
            got = run_full(sv.validate_python, x, strict=True)
            R.check(got.kind == 'err' and [a[0] for a in got.v] == ['is_instance_of'], f'strict decimal <- {x!r}', code_of(s, 'python', x, strict=True), got=got, want='is_instance_of', nt=('strict', x))
        for i in (0, 1, -1, 12, 123, 1234, 10**30, -10**40, Int(5)):
            judge(f'decimal {s} <- {i!r}', s, D(int(i)), run_full(sv.validate_python, i), code_of(s, 'python', i))
            judge(f'decimal json {s} <- {i!r}', s, D(int(i)), run_full(sv.validate_json, str(int(i))), code_of(s, 'json', str(int(i))))
        for f in (0.1, 0.5, -1.5, 1e16, 1e22, 1e-7, 123.456, 5e-324, 1.7e308, float('inf'), float('-inf'), float('nan'), 0.1 + 0.2, -0.0):
            judge(f'decimal {s} <- {f!r}', s, D(repr(f)), run_full(sv.validate_python, f), code_of(s, 'python', f))
            got = run_full(sv.validate_json, json.dumps(f))
            d = D(repr(f))
            if d.is_finite():       # equal value, possibly another spelling
                g2 = Out('ok', d) if got.ok and type(got.v) is D and got.v == d and got.v.is_signed() == d.is_signed() else got
                if got.ok and g2.v is not d:
                    R.check(False, f'decimal json {s} <- {f!r}', '', got=got, want=d)
                    continue
                judge(f'decimal json {s} <- {f!r}', s, d, g2, code_of(s, 'json', json.dumps(f)))
            else:
                judge(f'decimal json {s} <- {f!r}', s, d, got, code_of(s, 'json', json.dumps(f)))
        for b in (True, False, None, b'1', [], (0, (1,), 0), {}, 1j, object(), Fraction(1, 2)):
            for st in (False, True):
                got = run_full(sv.validate_python, b, strict=st)
                R.check(got.kind == 'err' and [a[0] for a in got.v] == ['is_instance_of' if st else 'decimal_type'], f'decimal strict={st} <- {b!r}', code_of(s, 'python', b, strict=st), got=got, want='type error', nt=(repr(type(b)), st))
        for j in ('true', 'null', '[]', '{}'):
            got = run_full(sv.validate_json, j)
            R.check(got.kind == 'err' and [a[0] for a in got.v] == ['decimal_type'], f'decimal json <- {j}', code_of(s, 'json', j), got=got, want='decimal_type', nt=j)
        for st in (False, True):
            for x in ('1.5', '2', '1E1'):
                got = run_full(sv.validate_python, SubD(x), strict=st)
                judge(f'decimal subclass {s} strict={st} <- {x}', s, D(x), got, '')
                judge(f'decimal strict={st} {s} <- {x}', s, D(x), run_full(sv.validate_python, D(x), strict=st), '')
                judge(f'decimal json strict={st} {s} <- {x!r}', s, D(x), run_full(sv.validate_json, f'"{x}"', strict=st), '')
    R.rules.append('decimals: limits judged on exact rationals and digit strings; text by the decimal grammar')
    n = 0
    while not R.out_of_time() and n < (6000 if not THOROUGH else 60000):
        n += 1
        s = rnd_schema(rng)
        sv = SchemaValidator(s)
        pool = [rnd_dec(rng) for _ in range(25)] + rng.sample(DEC, 6)
        for k in ORDER + ('multiple_of',):
            if s.get(k) is not None and s[k].is_finite() and len(s[k].as_tuple().digits) < 45 and abs(s[k].adjusted()) < 60:
                with decimal.localcontext(decimal.Context(prec=200)):
                    for m in (1, -1, 3, 10**5):
                        pool.append(s[k] * m)
                    pool += [s[k] + D('1E-30'), s[k] - D('1E-30')]
        for d in pool:
            one(s, sv, d)
    # a changed context of the caller
    for prec in (3, 60):
        with decimal.localcontext(decimal.Context(prec=prec)):
            for s in schemas[2:]:
                sv = SchemaValidator(s)
                for d in DEC:
                    if d.is_snan():
                        continue
                    one(s, sv, d)
    R.rules.append('random decimals around the limits, other context precisions')


HEX = '0123456789abcdef'
FORMS = {'simple': lambda h: h, 'hyphen': lambda h: '-'.join((h[:8], h[8:12], h[12:16], h[16:20], h[20:])), 'urn': lambda h: 'urn:uuid:' + FORMS['hyphen'](h), 'braces': lambda h: '{' + FORMS['hyphen'](h) + '}'}
WELL = re.compile(r'(?:[0-9a-f]{32}|[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}|urn:uuid:[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}|\{[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}\})\Z', re.I)


class SubU(uuid.UUID):
    pass


def version_of(u):
    """RFC 4122: the version counts only with the variant bits 10"""
    if (u.int >> 62) & 3 != 2:
        return None
    return (u.int >> 76) & 15


def uuids():
    rng = R.rng
    us = [uuid.UUID(int=0), uuid.UUID(int=2**128 - 1)]
    for v in range(16):
        for var in range(16):
            n = rng.getrandbits(128)
            n = n & ~(15 << 76) & ~(15 << 60) | v << 76 | var << 60
            us.append(uuid.UUID(int=n))
    svs = {None: SchemaValidator({'type': 'uuid'}), **{v: SchemaValidator({'type': 'uuid', 'version': v}) for v in (1, 3, 4, 5, 6, 7, 8)}}

    def expect(label, got, u, ver, obj=None, code=''):
        if ver is None or version_of(u) == ver:
            ok = got.ok and isinstance(got.v, uuid.UUID) and (got.v is obj if obj is not None else type(got.v) is uuid.UUID and got.v.int == u.int and str(got.v) == str(u) and hash(got.v) == hash(u) and got.v.is_safe in uuid.SafeUUID)
            R.check(ok, label, code, got=got, want=u, nt=label)
        else:
            R.check(got.kind == 'err' and got.v == [('uuid_version', (), {'expected_version': ver})], label, code, got=got, want='uuid_version', nt=label)
    for u in us + [uuid.UUID(int=rng.getrandbits(128)) for _ in range(60)]:
        h = u.hex
        for ver, sv in svs.items():
            sc = {'type': 'uuid'} if ver is None else {'type': 'uuid', 'version': ver}
            for st in (False, True):
                expect(f'uuid {ver} strict={st} <- {u!r}', run_full(sv.validate_python, u, strict=st), u, ver, obj=u)
                su = SubU(int=u.int)
                expect(f'uuid {ver} strict={st} <- subclass {u!r}', run_full(sv.validate_python, su, strict=st), u, ver, obj=su)
            for fn, f in FORMS.items():
                t = f(h)
                t = rng.choice([t, t.upper() if fn != 'urn' else t, ''.join(rng.choice([c, c.upper()]) for c in t) if fn != 'urn' else t])
                for mode, x in (('python', t), ('json', json.dumps(t)), ('strings', t)):
                    expect(f'uuid {mode} {ver} <- {t!r}', run_full(getattr(sv, 'validate_' + mode), x), u, ver, code=code_of(sc, mode, x))
                expect(f'uuid json strict {ver} <- {t!r}', run_full(sv.validate_json, json.dumps(t), strict=True), u, ver, code=code_of(sc, 'json', json.dumps(t), strict=True))
                got = run_full(sv.validate_python, t, strict=True)
                R.check(got.kind == 'err' and got.v == [('is_instance_of', (), {'class': 'UUID'})], f'strict uuid <- {t!r}', code_of(sc, 'python', t, strict=True), got=got, want='is_instance_of', nt=('s', fn))
            expect(f'uuid {ver} <- bytes {u.bytes!r}', run_full(sv.validate_python, u.bytes), u, ver, code=code_of(sc, 'python', u.bytes))
            expect(f'uuid {ver} <- text bytes', run_full(sv.validate_python, str(u).encode()), u, ver, code=code_of(sc, 'python', str(u).encode()))
    R.rules.append('uuids: all versions and variants, the four spellings in any letter case, 16 bytes; version with its variant bits')
    base = str(us[5])
    bad = ['', 'x', base[:-1], base + '0', base.replace('-', ''), base.replace('-', '', 1), base.replace('-', ' '), ' ' + base, base + ' ', '{' + base, base + '}', '{' + base + ')', '(' + base + ')', 'urn:' + base, 'uuid:' + base, 'urn:uuid:' + us[5].hex, '{' + us[5].hex + '}',
           base[:8] + base[9:] + '-', '-' + base[:-1], base[:-1] + 'g', base[:-1] + 'é', base[:-1] + '１', us[5].hex[:-1], us[5].hex + '0', us[5].hex[:-1] + 'g', '0x' + us[5].hex[2:], us[5].hex[:-1] + '_', base[:4] + '-' + base[4:], us[5].hex[:16] + '-' + us[5].hex[16:], us[5].hex[:31] + '-', '+' + us[5].hex[1:]]
    for _ in range(400 if not THOROUGH else 20000):
        t = list(rng.choice([base, us[9].hex, FORMS['urn'](us[7].hex), FORMS['braces'](us[8].hex)]))
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.randrange(len(t))
            a = rng.choice(['del', 'ins', 'sub', 'swap'])
            if a == 'del' and len(t) > 1:
                del t[i]
            elif a == 'ins':
                t.insert(i, rng.choice('0aF-g{} '))
            elif a == 'sub':
                t[i] = rng.choice('0aF-g{} é')
            else:
                j = min(i + 1, len(t) - 1)
                t[i], t[j] = t[j], t[i]
        bad.append(''.join(t))
    for t in bad:
        m = WELL.match(t)
        for mode, x in (('python', t), ('json', json.dumps(t)), ('strings', t), ('python', t.encode())):
            got = run_full(getattr(svs[None], 'validate_' + mode), x)
            label = f'uuid {mode} <- {x!r}'
            if m:
                expect(label, got, uuid.UUID(re.sub('urn:uuid:|[-{}]', '', t.lower())), None, code=code_of({'type': 'uuid'}, mode, x))
            elif isinstance(x, bytes) and len(x) == 16:
                expect(label, got, uuid.UUID(bytes=x), None)
            else:
                R.check(got.kind == 'err' and [(a[0], a[1]) for a in got.v] == [('uuid_parsing', ())], label, code_of({'type': 'uuid'}, mode, x), got=got, want='uuid_parsing', nt=t)
    for x in (b'', b'1', bytes(15), bytes(17), b'\xff' * 32):
        got = run_full(svs[None].validate_python, x)
        R.check(got.kind == 'err' and [a[0] for a in got.v] == ['uuid_parsing'], f'uuid <- {x!r}', code_of({'type': 'uuid'}, 'python', x), got=got, want='uuid_parsing', nt=x)
    for x in (1, us[5].int, 1.5, None, True, [], {}, object()):
        for st in (False, True):
            got = run_full(svs[None].validate_python, x, strict=st)
            R.check(got.kind == 'err' and [a[0] for a in got.v] == ['is_instance_of' if st else 'uuid_type'], f'uuid strict={st} <- {x!r}', '', got=got, want='type error', nt=(repr(x)[:20], st))
    for j in ('1', 'null', 'true', '[]', '{}', '1.5'):
        got = run_full(svs[None].validate_json, j)
        R.check(got.kind == 'err' and [a[0] for a in got.v] == ['uuid_type'], f'uuid json <- {j}', '', got=got, want='uuid_type', nt=j)
    R.rules.append('malformed spellings, judged by the grammar')


def main(rec):
    global R
    R = rec
    R.budget = min(R.budget, 60 if not THOROUGH else 400)
    uuids()
    decimals()


guard(Recorder('C24'), main)
