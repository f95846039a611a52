"""C18: numeric and boolean conversions against exact arithmetic (fractions, Python int()/float())"""
from h import *
import enum, itertools, re, json as J
from decimal import Decimal
from fractions import Fraction

V = {}


def val(kind, strict=False):
    k = (kind, strict)
    if k not in V:
        V[k] = SchemaValidator({'type': kind, 'strict': strict})
    return V[k]


INT_RX = re.compile(r'[ \t\n\r]*([+-]?)([0-9][0-9_]*)(\.0+)?[ \t\n\r]*\Z')
PLAIN_INT = re.compile(r'[ \t\n\r]*[+-]?[0-9]+(_[0-9]+)*(\.0+)?[ \t\n\r]*\Z')
FLOAT_RX = re.compile(r'[ \t\n\r]*[+-]?([0-9_]*\.?[0-9_]*([eE][+-]?[0-9_]+)?|inf|infinity|nan)[ \t\n\r]*\Z', re.I)
FALSE = {'0', 'off', 'f', 'false', 'n', 'no'}
TRUE = {'1', 'on', 't', 'true', 'y', 'yes'}


def asciiws(s):
    return all(ord(c) < 128 for c in s)


def int_of(s):
    """the integer a text spells: None if it spells none; underscores between digits are ignored"""
    m = INT_RX.match(s.strip())
    if not m or m[2].endswith('_'):
        return None
    d = m[2].replace('_', '')
    return int(m[1] + d) if d else None


def must_int(s):
    """texts the documentation promises to read: a sign, digits with single underscores, trailing zeros of a fraction"""
    return PLAIN_INT.match(s) and len(s) < 4000


def float_of(s):
    t = s.replace('_', '').strip()
    if not asciiws(t):
        return None
    try:
        return float(t)
    except ValueError:
        return None


def must_float(s):
    # (underscores together with surrounding space are read for ints only)
    if not asciiws(s) or '_' in s and s != s.strip():
        return False
    try:
        float(s)
        return True
    except ValueError:
        return False


def bool_of(s):
    t = s.lower() if asciiws(s) else None
    return False if t in FALSE else True if t in TRUE else None


def how(kind, x, mode):
    return f"SchemaValidator({{'type': '{kind}'}}).validate_{mode}({x!r})"


def text_int(s, mode='python', x=None):
    x = s if x is None else x
    o = run(getattr(val('int'), 'validate_' + mode), x)
    if o.ok:
        w = int_of(s)
        R.check(type(o.v) is int and w is not None and o.v == w, 'an accepted int text denotes the int', how('int', x, mode), got=o, want=w, nt='i' + s[:6])
    else:
        R.check(o.kind == 'err' and not must_int(s), 'a spelled int is accepted', how('int', x, mode), got=o, want=int_of(s), nt='ir')
    return o


def text_float(s, mode='python', x=None):
    x = s if x is None else x
    o = run(getattr(val('float'), 'validate_' + mode), x)
    if o.ok:
        w = float_of(s)
        R.check(type(o.v) is float and w is not None and typed(o.v) == typed(w), 'an accepted float text denotes the float', how('float', x, mode), got=o, want=w, nt='f' + s[:6])
    else:
        R.check(o.kind == 'err' and not must_float(s), 'a spelled float is accepted', how('float', x, mode), got=o, want=float_of(s), nt='fr')
    return o


def text_bool(s, mode='python', x=None):
    x = s if x is None else x
    o = run(getattr(val('bool'), 'validate_' + mode), x)
    w = bool_of(s)
    R.check((o.ok and o.v is w) if w is not None else o.kind == 'err', 'only the documented words are booleans', how('bool', x, mode), got=o, want=w, nt='b' + s[:6])
    return o


def agree(s):
    """python str, bytes, JSON text and strings input agree on a text"""
    for kind, f in (('int', text_int), ('float', text_float), ('bool', text_bool)):
        a = f(s)
        outs = [('python bytes', f(s, 'python', s.encode())), ('strings', f(s, 'strings')), ('json', f(s, 'json', J.dumps(s)))]
        # a dict key is read by the JSON str input
        k = run(SchemaValidator({'type': 'dict', 'keys_schema': {'type': kind}}).validate_json, J.dumps({s: 1}))
        outs.append(('json key', Out('ok', list(k.v)[0]) if k.ok else k))
        for n, o in outs:
            R.check(o.ok == a.ok and (not a.ok or typed(o.v) == typed(a.v)), 'the input kinds agree on a text', f'{kind} {s!r}: {n}', got=o, want=a, nt=kind + n)


def number(x):
    """a Python number: int exactly when integral (floats inside 64 bits), bool exactly for 0 and 1, float the nearest"""
    fin = not (isinstance(x, float) and (x != x or abs(x) == math.inf)) and not (isinstance(x, Decimal) and not x.is_finite())
    q = Fraction(x) if fin else None
    o = run(val('int').validate_python, x)
    want = int(q) if fin and q.denominator == 1 else None
    if o.ok:
        R.check(type(o.v) is int and o.v == want, 'an int has the value of the number', how('int', x, 'python'), got=o, want=want, nt='n' + type(x).__name__)
    else:
        R.check(o.kind == 'err' and (want is None or (isinstance(x, float) and not -2 ** 63 < x < 2 ** 63)), 'an integral number is an int', how('int', x, 'python'), got=o, want=want, nt='nr' + type(x).__name__)
    o = run(val('bool').validate_python, x)
    want = bool(q) if fin and q in (0, 1) else None
    R.check((o.ok and o.v is want) if want is not None else o.kind == 'err', 'only 0 and 1 are booleans', how('bool', x, 'python'), got=o, want=want, nt='nb' + type(x).__name__)
    o = run(val('float').validate_python, x)
    try:
        want = float(x)
    except (OverflowError, ValueError):
        want = None
    if o.ok:
        R.check(type(o.v) is float and want is not None and typed(o.v) == typed(want), 'a float is the nearest one', how('float', x, 'python'), got=o, want=want, nt='nf' + type(x).__name__)
    else:
        R.check(want is None, 'a number has a float', how('float', x, 'python'), got=o, want=want, nt='nfr' + type(x).__name__)


def json_number(t):
    """a JSON number literal: as int / bool / float, exactly"""
    isint = re.match(r'-?\d+\Z', t)
    q = Fraction(int(t)) if isint else None
    f = float(t) if not isint else None
    x = q if isint else (Fraction(f) if math.isfinite(f) else None)
    o = run(val('int').validate_json, t)
    want = int(x) if x is not None and x.denominator == 1 else None
    if o.ok:
        R.check(type(o.v) is int and o.v == want, 'a JSON number is read exactly', how('int', t, 'json'), got=o, want=want, nt='j')
    else:
        R.check(o.kind == 'err' and (want is None or (not isint and not -2 ** 63 < f < 2 ** 63) or len(t) > 4300), 'an integral JSON number is an int', how('int', t, 'json'), got=o, want=want, nt='jr')
    o = run(val('float').validate_json, t)
    try:
        want = float(int(t)) if isint else f
    except OverflowError:
        want = None
    if o.ok:
        R.check(want is not None and typed(o.v) == typed(want), 'a JSON number is the nearest float', how('float', t, 'json'), got=o, want=want, nt='jf')
    else:
        R.check(want is None or len(t) > 4300, 'a JSON number is a float', how('float', t, 'json'), got=o, want=want, nt='jfr')
    o = run(val('bool').validate_json, t)
    want = bool(x) if x is not None and x in (0, 1) else None
    R.check((o.ok and o.v is want) if want is not None else o.kind == 'err', 'only JSON 0 and 1 are booleans', how('bool', t, 'json'), got=o, want=want, nt='jb')
    for strict in (True,):
        o = run(val('int', True).validate_json, t)
        if o.ok:
            R.check(isint and o.v == int(t), 'a strict int is a JSON int', how('int', t, 'json') + ' strict', got=o, nt='js')


class SI(int):
    pass


class SF(float):
    pass


class SS(str):
    pass


class E(enum.Enum):
    a = 'x'
    b = 1
    c = 1.5
    d = None
    big = 2 ** 80
    one = '1'
    t = True
    neg = -5


class EI(enum.IntEnum):
    a = 1
    z = 0
    big = 2 ** 70


class ES(str, enum.Enum):
    a = '1'
    b = 'true'
    c = 'x'


def enums():
    for e in E:
        o = run(val('int').validate_python, e)
        if isinstance(e.value, int):
            R.check(o.ok and type(o.v) is int and o.v == int(e.value), 'an enum member with an int value is that int', how('int', e, 'python'), got=o, want=e.value, nt=str(e))
        else:
            R.check(o.kind == 'err', 'an enum member without an int value is no int', how('int', e, 'python'), got=o, nt=str(e))
        for k in ('float', 'bool'):
            R.check(run(val(k).validate_python, e).kind == 'err', 'an enum member is no float or bool', how(k, e, 'python'), nt=str(e))
    for e in EI:
        o = run(val('int').validate_python, e)
        R.check(o.ok and type(o.v) is int and o.v == e.value, 'an int subclass becomes the int of its value', how('int', e, 'python'), got=o, want=e.value, nt=str(e))
        o = run(val('bool').validate_python, e)
        R.check((o.ok and o.v is bool(e.value)) if e.value in (0, 1) else o.kind == 'err', 'an int subclass is a boolean only as 0 or 1', how('bool', e, 'python'), got=o, nt=str(e))
    for e in ES:
        for k, f in (('int', text_int), ('float', text_float), ('bool', text_bool)):
            f(e.value, 'python', e)
    for x in (SI(3), SI(-2 ** 70), SI(0), SI(1), SI(2 ** 63 - 1), SI(2 ** 63), SI(-2 ** 63), SI(-2 ** 63 - 1)):
        for s in (False, True):
            o = run(val('int', s).validate_python, x)
            R.check(o.ok and type(o.v) is int and o.v == int(x), 'an int subclass becomes the int of its value', how('int', x, 'python'), got=o, want=int(x), nt=('si', x))


NUMS = [0, 1, -1, 2, 7, 10, 255, 2 ** 31, 2 ** 53, 2 ** 53 + 1, 2 ** 54 + 3, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1, 10 ** 19, 10 ** 30, 3 ** 200, 10 ** 308, 10 ** 309, 2 ** 1024 - 1, 2 ** 1023]
FL = [0.0, 0.5, 1.0, 1.5, 2.0, 1e-300, 5e-324, 0.1, 0.9999999999999999, 1.0000000000000002, 2.0 ** 52 + 0.5, 2.0 ** 53, 2.0 ** 62, 9.223372036854774e18, 2.0 ** 63, 9.223372036854778e18, 1e19, 1e300, 1.7976931348623157e308, math.inf, math.nan, 1e15 + 0.5, 4503599627370495.5]
DEC = ['0', '1', '2', '1.0', '1.5', '0.00', '1E+3', '1E-3', '1e400', '1e-400', '1.0000000000000000000000000001', '0.99999999999999999999999999999', '0.1', 'NaN', 'sNaN', 'Infinity', '9223372036854775807', '9223372036854775808', '123456789012345678901234567890', '123456789012345678901234567890.5', '1E+40', '1e-2', '10.00', '0E-5', '0E+5']


def main(rec):
    global R
    R = rec
    R.budget = min(R.budget, 60)
    # every short text over the alphabet of numbers
    n = 6 if THOROUGH else 5
    for k in range(0, n + 1):
        for tup in itertools.product('019_-+. ', repeat=k):
            s = ''.join(tup)
            text_int(s)
    for k in range(0, (6 if THOROUGH else 5) + 1):
        for tup in itertools.product('07_-+.e', repeat=k):
            text_float(''.join(tup))
    R.mark('texts')
    words = sorted(FALSE | TRUE)
    for w in words:
        for v in {w, w.upper(), w.title(), w.swapcase(), w[:1] + w[1:].upper(), w + ' ', ' ' + w, w + '\n', w + w, w[:-1], w[1:], w + '\0', w.replace('o', '0'), w + '.0', '+' + w, '-' + w, '0' + w, w.replace('s', '\u017f'), w.replace('i', '\u0131')}:
            agree(v)
    for k in (1, 2, 3):
        for tup in itertools.product('tfyn01oe', repeat=k):
            text_bool(''.join(tup))
    tails = ['', '.0', '.', '.00', '.000000001', '.5', 'e0', 'e1', 'e3', 'e-1', 'E2', '_', '_0', '_000', '__0', ' ', '\n', '\t ', '\x0b', 'x', 'n', 'j', 'L', 'f', '%', '\0', '.0_0', '._0', '.0e0', '\u00a0', '\u0660']
    heads = ['', '+', '-', ' ', '+ ', '- ', '--', '+-', '-+', '++', '0', '-0', '+0', '00', '-00', '0_', '-0_', '_', '0x', '0b', '0o', '\u2212', ' -', ' +', '\n-0', '0-', '0+', '00_-', '.', '-.', '0.', '1_', '\u0661']
    bodies = ['', '0', '1', '5', '10', '007', '100', '9223372036854775807', '9223372036854775808', '18446744073709551616', '123456789012345678901234567890', '1_2_3', '12__3', 'inf', 'nan', 'infinity', '1' + '0' * 40, '4' * 400]
    for h, b, t in itertools.product(heads, bodies, tails):
        s = h + b + t
        if THOROUGH or R.rng.random() < .25:
            agree(s)
        else:
            text_int(s)
            text_float(s)
    # length limits
    for m in (4290, 4299, 4300, 4301, 5000):
        for c in '19':
            for s in (c * m, '-' + c * m, '0' * m, '0' * m + '1', '1' + '_1' * (m // 2), '1.' + '0' * m, ' ' * m + '1'):
                o = run(val('int').validate_python, s)
                sys.set_int_max_str_digits(0)
                w = int_of(s)
                R.check((o.ok and o.v == w) or o.kind == 'err', 'a long int text is read exactly or rejected', f'int text of {len(s)} characters', got=str(o)[:80], nt=('len', m, c))
                sys.set_int_max_str_digits(4300)
    R.mark('combined texts')
    for x in NUMS:
        for y in (x, -x, SI(x), SI(-x)):
            number(y)
        if x < 10 ** 305:
            for d in (-1, 1):
                number(x + d)
        for s in (1, -1):
            json_number(str(s * x))
            agree(str(s * x))
    for x in FL:
        for y in (x, -x, SF(x), SF(-x)):
            number(y)
        for y in (x, -x):
            if math.isfinite(y):
                json_number(repr(y) if '.' in repr(y) or 'e' in repr(y) else repr(y) + '.0')
                for up in (math.nextafter(y, math.inf), math.nextafter(y, -math.inf)):
                    number(up)
    for d in DEC:
        for x in (Decimal(d), -Decimal(d) if d != 'sNaN' else Decimal(d)):
            if x.is_snan():
                for k in ('int', 'bool', 'float'):
                    R.check(run(val(k).validate_python, x).kind != 'ok', 'a signalling nan has no value', how(k, x, 'python'), nt=k)
            else:
                number(x)
    for x in (True, False):
        R.check(run(val('bool').validate_python, x).v is x and run(val('bool', True).validate_python, x).v is x, 'a bool is itself', how('bool', x, 'python'), nt=x)
        R.same('a bool is 0 or 1: ' + how('int', x, 'python'), run(val('int').validate_python, x), OK(int(x)))
        R.same('a bool is 0 or 1: ' + how('float', x, 'python'), run(val('float').validate_python, x), OK(float(x)))
        R.same('a bool is 0 or 1: ' + how('int', x, 'json'), run(val('int').validate_json, J.dumps(x)), OK(int(x)))
        R.same('a bool is 0 or 1: ' + how('float', x, 'json'), run(val('float').validate_json, J.dumps(x)), OK(float(x)))
        R.check(run(val('bool').validate_json, J.dumps(x)).v is x, 'a bool is itself', how('bool', x, 'json'), nt=x)
    enums()
    for x in (None, [], {}, (), object(), b'\xff', '\ud800', [1], 1j, int, b'', ''):
        for k in ('int', 'float', 'bool'):
            for s in (False, True):
                R.check(run(val(k, s).validate_python, x).kind == 'err', 'what is no number is rejected', how(k, x, 'python'), nt=(k, repr(x)[:20]))
    for t in ('null', '[]', '{}', '""', '"x"', '[1]', 'NaN', 'Infinity', '-Infinity'):
        o = run(val('int').validate_json, t)
        R.check(o.kind == 'err', 'what is no number is rejected', how('int', t, 'json'), got=o, nt=t)
        o = run(val('bool').validate_json, t)
        R.check(o.kind == 'err', 'what is no number is rejected', how('bool', t, 'json'), got=o, nt=t)
    for t in ('1.0', '0.0', '-0.0', '1.5', '9223372036854775807.0', '9.2233720368547758e18', '-9.3e18', '1e18', '1e2', '1E2', '10e-1', '1e400', '-1e400', '0.1', '123456789.0', '1.0000000000000000000000001', '0.5', '1e-400', '1e0', '2.5e1', '12345678901234567.0', '0.30000000000000004', '179769313486231580793e289', '-0'):
        json_number(t)
    R.mark('numbers')
    while not R.out_of_time():
        c = R.rng.random()
        if c < .3:
            b = R.rng.choice([8, 31, 53, 62, 63, 64, 65, 100, 300, 1024, 1030])
            x = R.rng.getrandbits(b) * R.rng.choice([1, -1])
            number(x)
            json_number(str(x))
            if R.rng.random() < .3:
                agree(R.rng.choice(['', '0', '+', ' ']) * (x >= 0) + str(x) + R.rng.choice(['', '.0', ' ', '.000']))
        elif c < .6:
            x = R.rng.choice([R.rng.uniform(-3, 3), R.rng.uniform(-1e19, 1e19), float(R.rng.getrandbits(63)), math.ldexp(R.rng.random(), R.rng.randint(-1070, 1023)), R.rng.randint(-5, 5) + 0.0])
            number(x)
            json_number(repr(x))
            if R.rng.random() < .3:
                agree(repr(x))
        elif c < .75:
            number(Decimal(R.rng.randint(-10 ** R.rng.randint(1, 30), 10 ** 20)).scaleb(R.rng.randint(-30, 30)))
        else:
            s = ''.join(R.rng.choice('0019_-+. eE') for _ in range(R.rng.randint(5, 12)))
            agree(s) if R.rng.random() < .3 else (text_int(s), text_float(s))
    R.rules += ['every text up to length 5 (thorough 6) over the alphabets 019_-+.space (int) and 07_-+.e (float); words x decorations; heads x bodies x tails',
                'numbers near every 64-bit, 53-bit and 1024-bit boundary as int, int subclass, float, float subclass, Decimal and JSON literal, random ones until the time is used']


guard(Recorder('C18'), main)
