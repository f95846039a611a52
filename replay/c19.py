"""C19: dates, times, datetimes and durations against exact arithmetic on Python's datetime types"""
from h import *
import copy, json as J, pickle
from datetime import date, datetime, time, timedelta, timezone, tzinfo
from decimal import Decimal
from fractions import Fraction
from pydantic_core import TzInfo

V = {}
EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
US = timedelta(microseconds=1)
LO = (datetime(1, 1, 1, tzinfo=timezone.utc) - EPOCH) // US
HI = (datetime(9999, 12, 31, 23, 59, 59, 999999, tzinfo=timezone.utc) - EPOCH) // US
W = 20_000_000_000


def val(kind, **kw):
    k = (kind, tuple(sorted(kw.items())))
    if k not in V:
        V[k] = SchemaValidator({'type': kind, **kw})
    return V[k]


def how(kind, x, mode='python', **kw):
    return f"SchemaValidator({dict(type=kind, **kw)}).validate_{mode}({x!r})"


def us_of(td):
    return td // US


def dt_number(x, how_, o, exact, tol=Fraction(1, 1000), known=None):
    """o: outcome; exact: the instant in microseconds as a fraction"""
    if o.ok:
        d = o.v
        good = type(d) is datetime and d.tzinfo is not None and d.utcoffset() == timedelta(0) and abs(us_of(d - EPOCH) - exact) <= Fraction(1, 2) + tol
        R.check(good, 'a number is that instant in UTC: ' + how_, how_, got=o, want=str(float(exact) / 1e6), nt='dn' + str(d.year // 100 if type(d) is datetime else 0), known=known)
    else:
        R.check(o.kind == 'err' and (exact <= LO + 1 or exact >= HI - 1 + Fraction(1, 2) or not LO <= exact <= HI), 'only instants outside the years 1-9999 are refused: ' + how_, how_, got=o, want=str(float(exact) / 1e6), nt='dnr', known=known)


def unit(w):
    return 1000 if abs(w) > W else 1_000_000


def numbers(x):
    """an int, float or Decimal as datetime, time, timedelta and date, in every mode"""
    f = x if isinstance(x, int) else float(x)
    if isinstance(f, float) and not math.isfinite(f):
        for k in ('datetime', 'time', 'timedelta', 'date'):
            R.check(run(val(k).validate_python, x).kind == 'err', 'a non-finite number is no instant', how(k, x), nt=k)
        return
    q = Fraction(f)
    modes = [('python', x)]
    if not isinstance(x, Decimal):
        modes.append(('json', str(x) if isinstance(x, int) else repr(x)))
    for mode, y in modes:
        w = math.floor(q)
        dt_number(x, how('datetime', y, mode), run(getattr(val('datetime'), 'validate_' + mode), y), q * unit(w))
        # time of day
        o = run(getattr(val('time'), 'validate_' + mode), y)
        if o.ok:
            t = o.v
            got = ((t.hour * 60 + t.minute) * 60 + t.second) * 1_000_000 + t.microsecond
            R.check(type(t) is time and t.utcoffset() == timedelta(0) and abs(got - q * 1_000_000) <= Fraction(501, 1000) and 0 <= q < 86400, 'a number is that time of day: ' + how('time', y, mode), how('time', y, mode), got=o, want=f, nt='t')
        else:
            R.check(o.kind == 'err' and not 0 <= q < 86400 - Fraction(1, 2_000_000), 'a number below a day is a time: ' + how('time', y, mode), how('time', y, mode), got=o, nt='tr')
        # duration
        o = run(getattr(val('timedelta'), 'validate_' + mode), y)
        if o.ok:
            R.check(type(o.v) is timedelta and abs(us_of(o.v) - q * 1_000_000) <= Fraction(501, 1000), 'a number is that many seconds: ' + how('timedelta', y, mode), how('timedelta', y, mode), got=o, want=f, nt='td' + str(len(str(w))))
        else:
            R.check(o.kind == 'err' and (abs(q) > 86400 * 999999999 or q >= 86400 * 10 ** 9 or q < -86400 * 999999999), 'a timedelta can hold the number: ' + how('timedelta', y, mode), how('timedelta', y, mode), got=o, nt='tdr')
        # date: exact days only
        o = run(getattr(val('date'), 'validate_' + mode), y)
        e = q * unit(w)
        r = round(e)
        if o.ok:
            R.check(type(o.v) is date and abs(((o.v - date(1970, 1, 1)).days * 86400 * 1_000_000) - e) <= Fraction(501, 1000), 'a number is a date only at midnight: ' + how('date', y, mode), how('date', y, mode), got=o, want=f, nt='da')
        else:
            R.check(o.kind == 'err' and (r % (86400 * 1_000_000) != 0 or not LO <= r <= HI or r != e), 'a number at midnight is a date: ' + how('date', y, mode), how('date', y, mode), got=o, nt='dar')


def texts(s):
    """an int or decimal number as text"""
    q = Fraction(s)
    w = math.floor(q) if '.' in s else int(s)
    ms = abs(q) > W
    e = q * (1000 if ms else 1_000_000)
    secs = float(e) / 1e6
    tol = Fraction(1, 2) + Fraction(math.ulp(secs)) * 4_000_000 if '.' in s else Fraction(1, 1000)
    known = 'fractional-ms-text' if '.' in s and ms and abs(secs) > W else None
    for mode, y in (('python', s), ('python', s.encode()), ('strings', s), ('json', J.dumps(s))):
        dt_number(s, how('datetime', y, mode), run(getattr(val('datetime'), 'validate_' + mode), y), e, tol, known)


def agree(kind, s, **kw):
    """the outcome of a text, the same for str, bytes, JSON and strings input"""
    a = run(val(kind, **kw).validate_python, s)
    for mode, y in (('python', s.encode()), ('strings', s), ('json', J.dumps(s))):
        o = run(getattr(val(kind, **kw), 'validate_' + mode), y)
        R.check(o.ok == a.ok and (not a.ok or (o.v == a.v and zone(o.v) == zone(a.v))), 'the input kinds agree on a text: ' + how(kind, y, mode), how(kind, y, mode), got=o, want=a, nt=kind + mode)
    return a


def zone(x):
    return x.utcoffset() if hasattr(x, 'utcoffset') else None


def mk(f, *a, **k):
    try:
        return f(*a, **k)
    except (ValueError, OverflowError):
        return None


def iso_date(y, m, d, sep='-'):
    s = f'{y:04d}{sep}{m:02d}{sep}{d:02d}'
    want = mk(date, y, m, d)
    o = agree('date', s)
    if want is None or sep != '-':
        R.check(o.kind == 'err', 'a text that is no date is refused: ' + repr(s), how('date', s), got=o, nt='x' + s[:2])
    else:
        R.check(o.ok and type(o.v) is date and o.v == want, 'an ISO date is that date: ' + repr(s), how('date', s), got=o, want=want, nt='d' + s[:7])
        o = agree('datetime', s)
        R.check(o.ok and o.v == datetime(y, m, d) and o.v.tzinfo is None, 'a date is its midnight: ' + repr(s), how('datetime', s), got=o, want=want, nt='dd')


OFFS = [('', None), ('Z', 0), ('z', 0), ('+00:00', 0), ('-00:00', 0), ('+05:30', 19800), ('-05:30', -19800), ('+23:59', 86340), ('-23:59', -86340), ('+0530', 19800), ('-00:01', -60), ('\u221200:30', -1800), ('+24:00', 'bad'), ('-24:00', 'bad'), ('+12:60', 'bad'), ('+1', 'bad'), ('x', 'bad')]


def iso_time(h, mi, s, frac, off, sep='T', dt=None):
    """a time, or a datetime on the day dt"""
    text = f'{h:02d}:{mi:02d}' + ('' if s is None else f':{s:02d}') + ('' if not frac else '.' + frac)
    o, want_off = off
    us = int((frac + '000000')[:6]) if frac else 0
    tz = None if want_off is None else timezone(timedelta(seconds=want_off)) if want_off != 'bad' else 'bad'
    t = mk(time, h, mi, s or 0, us, tzinfo=tz) if tz != 'bad' and not (frac and (s is None or len(frac) > 9 and False)) else None
    for kind, full in ([('time', text + o)] if dt is None else [('datetime', dt.isoformat() + sep + text + o)]):
        want = t if kind == 'time' or t is None else datetime.combine(dt, t)
        for prec in ('truncate', 'error'):
            r = agree(kind, full, microseconds_precision=prec)
            w = want
            if prec == 'error' and len(frac) > 6:
                w = None
            if w is None:
                R.check(r.kind == 'err', f'a text that is no {kind} is refused: {full!r}', how(kind, full, microseconds_precision=prec), got=r, nt='x' + full[-6:])
            else:
                R.check(r.ok and type(r.v) is type(w) and r.v.replace(tzinfo=None) == w.replace(tzinfo=None) and r.v.utcoffset() == w.utcoffset(), f'an ISO {kind} is what it spells: {full!r}', how(kind, full, microseconds_precision=prec), got=r, want=w, nt=kind + full[-8:])


def durations(rng):
    sign = rng.choice(['', '-', '+'])
    c = rng.random()
    d, h, m = rng.choice([0, 1, 30, 999, rng.randint(0, 10 ** 9 - 1), 999999999]), rng.randint(0, 23), rng.randint(0, 59)
    s, fr = rng.randint(0, 59), rng.choice(['', '5', '000001', '999999', str(rng.randint(0, 999999)).zfill(6), '123'])
    us = int((fr + '000000')[:6]) if fr else 0
    if c < .4:
        body = f'P{d}DT{h}H{m}M{s}' + ('.' + fr if fr else '') + 'S'
        tot = timedelta(days=d, hours=h, minutes=m, seconds=s, microseconds=us)
    elif c < .6:
        body = f'PT{h}H{s}' + ('.' + fr if fr else '') + 'S'
        tot = timedelta(hours=h, seconds=s, microseconds=us)
    elif c < .8:
        body = f'{d} days {h:02d}:{m:02d}:{s:02d}' + ('.' + fr if fr else '')
        tot = timedelta(days=d, hours=h, minutes=m, seconds=s, microseconds=us)
    else:
        w = rng.randint(0, 5000)
        body = f'P{w}W{h}D'
        tot = timedelta(weeks=w, days=h)
    want = tot if sign != '-' else mk(lambda: -tot)
    o = agree('timedelta', sign + body)
    if want is None:
        R.check(o.kind == 'err', 'a duration beyond timedelta is refused: ' + sign + body, how('timedelta', sign + body), got=o, nt='tx')
    elif o.ok:
        R.check(type(o.v) is timedelta and o.v == want, 'a duration is what it spells: ' + sign + body, how('timedelta', sign + body), got=o, want=want, nt='t' + body[-5:])
    else:
        # (a leading sign is read for ISO durations and day counts)
        R.check(o.kind == 'err' and sign == '-' and want < timedelta.min + timedelta(days=1), 'a duration is read: ' + sign + body, how('timedelta', sign + body), got=o, want=want, nt='tr')


class DT(datetime):
    pass


class TD(timedelta):
    pass


class Unknown(tzinfo):
    def utcoffset(self, dt):
        return None

    def dst(self, dt):
        return None

    def tzname(self, dt):
        return None


def objects(rng):
    n = timedelta(microseconds=rng.randint(-10 ** rng.randint(1, 19), 10 ** rng.randint(1, 19)))
    tz = rng.choice([None, None, timezone.utc, timezone(timedelta(seconds=rng.randint(-86399, 86399))), TzInfo(rng.randint(-86399, 86399)), Unknown()])
    cls = rng.choice([datetime, DT])
    x = mk(lambda: cls(rng.randint(1, 9999), rng.randint(1, 12), rng.randint(1, 28), *rng.choice([(0, 0, 0, 0), (0, 0, 0, 1), (0, 0, 1), (0, 1), (5,), (23, 59, 59, 999999), (0,)]), tzinfo=tz))
    for k, v in (('datetime', x), ('date', x.date()), ('time', x.timetz()), ('timedelta', n), ('timedelta', TD(seconds=n.total_seconds()))):
        for strict in (False, True):
            o = run(val(k, strict=strict).validate_python, v)
            R.check(o.ok and o.v is v, 'a temporal object is kept: ' + how(k, v), how(k, v), got=o, want=v, nt=k + type(v).__name__)
    o = run(val('date').validate_python, x)
    midnight = (x.hour, x.minute, x.second, x.microsecond) == (0, 0, 0, 0)
    R.check((o.ok and type(o.v) is date and o.v == x.date()) if midnight else o.kind == 'err', 'a datetime is a date only at midnight: ' + how('date', x), how('date', x), got=o, want=x.date() if midnight else None, nt='mid' + str(midnight))
    R.check(run(val('date', strict=True).validate_python, x).kind == 'err', 'a datetime is no strict date', how('date', x), nt='strictdate')
    d = x.date()
    o = run(val('datetime').validate_python, d)
    R.check(o.ok and type(o.v) is datetime and o.v == datetime(d.year, d.month, d.day) and o.v.tzinfo is None, 'a date is its midnight: ' + how('datetime', d), how('datetime', d), got=o, want=d, nt='d2dt')
    # durations through JSON text
    s = SchemaSerializer({'type': 'timedelta'}).to_json(n)
    o = run(val('timedelta').validate_json, s)
    R.check(o.ok and o.v == n, f'a serialized duration is read back: {n!r}', f'SchemaSerializer timedelta -> {s!r}', got=o, want=n, nt='rt' + str(n.days > 0) + str(n.microseconds > 0))
    # and datetimes: the same instant and offset
    if not isinstance(tz, Unknown) and (tz is None or x.utcoffset().seconds % 60 == 0):
        s = SchemaSerializer({'type': 'datetime'}).to_json(x)
        o = run(val('datetime').validate_json, s)
        R.check(o.ok and o.v.replace(tzinfo=None) == x.replace(tzinfo=None) and o.v.utcoffset() == x.utcoffset(), f'a serialized datetime is read back: {x!r}', f'SchemaSerializer datetime -> {s!r}', got=o, want=x, nt='rtdt' + str(tz is None))


def offsets(s):
    z = TzInfo(s)
    t = timezone(timedelta(seconds=s))
    lab = f'TzInfo({s})'
    R.check(z.utcoffset(None) == timedelta(seconds=s), 'the offset is the one it was built from: ' + lab, lab, got=z.utcoffset(None), nt=('o', s))
    R.check(z == t and t.utcoffset(None) == z.utcoffset(None) and hash(z) == hash(t) == hash(TzInfo(s)) and z == TzInfo(s) and not z != t, 'equal offsets are equal with equal hashes: ' + lab, lab, got=(hash(z), hash(t)), nt=('e', s % 97))
    for c in (copy.copy(z), copy.deepcopy(z), pickle.loads(pickle.dumps(z))):
        R.check(type(c) is TzInfo and c == z and c.utcoffset(None) == z.utcoffset(None) and hash(c) == hash(z), 'a copy has the offset: ' + lab, lab, got=c, nt=('c', s % 97))
    d = datetime(2020, 5, 5, 12, 30, 15, 7, tzinfo=timezone.utc)
    R.check(d.astimezone(z) == d and d.astimezone(z).replace(tzinfo=None) == d.astimezone(t).replace(tzinfo=None), 'an instant is kept when its zone changes: ' + lab, lab, got=d.astimezone(z), nt=('a', s % 97))
    for u in (s - 1, s + 1):
        if -86400 < u < 86400:
            R.check(z != TzInfo(u) and z != timezone(timedelta(seconds=u)) and (z < TzInfo(u)) == (s < u), 'different offsets differ: ' + lab, lab, got=u, nt=('n', s % 97))
    for m in (1, 300000, 499999, 500000, 999999):
        b = timezone(timedelta(seconds=s, microseconds=m)) if s < 86399 else None
        if b is not None:
            R.check((not z == b) or hash(z) == hash(b), 'equal zones have equal hashes: ' + lab + f' and {b!r}', lab, got=(z == b), nt=('h', m))


def main(rec):
    global R
    R = rec
    R.budget = min(R.budget, 60)
    rng = R.rng
    base = [0, 1, 59, 60, 3600, 86399, 86400, 86401, 172800, 10 ** 9, W - 1, W, W + 1, W * 10, 253402300799, 253402300800, 62135596800, 62135596801, 62167219200, 62135596800000, 62135596800001, 253402300799000, 253402300799999, 253402300800000, 2 ** 31, 2 ** 32, 2 ** 32 + 5, 86400 * 999999999, 86400 * 999999999 + 86399, 86400 * 999999999 + 1, 86400 * 10 ** 9, 2 ** 53, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 64, 10 ** 25, 86400000, 86400 * 365 * 10, 1654646400, 1654646400123, 86400 * (2 ** 32), 86400 * (2 ** 32) + 7, 86400 * 2 ** 31]
    for b in base:
        for x in (b, -b, b + 1, -b - 1):
            numbers(x)
            texts(str(x)) if abs(x) < 10 ** 18 else None
        for fr in (0.0, 0.5, 0.25, 0.75, 1e-6, 0.000001, 0.999999, 0.9999996, 0.9999994, 0.1, 0.123456, 0.0000004):
            for sg in (1, -1):
                numbers(sg * (b + fr))
                numbers(float(sg * b) - fr)
    R.mark('numbers')
    for f in (5e-324, 1e-7, -1e-7, 1e300, -1e300, math.inf, -math.inf, math.nan, 0.4999999e-6, 86399.9999994, 86399.9999996, 1.0000005, 2.5e-6, 3.5e-6):
        numbers(f)
    for d in ('1.25', '-1.25', '0.000001', '1654646400.123456', '1E+5', '-0', '86400', '1e-30', '123456789012.5'):
        numbers(Decimal(d))
    for s in ('0.5', '-0.5', '-1.25', '1654646400.123456', '1654646400123.5', '-20000000001.5', '20000000000.5', '0.0', '-0.0', '1.999999', '1.9999999', '-0.000001', '12345678901.25', '12345678901234.5', '25340230079999.5', '-62135596800.5'):
        texts(s)
    for y in (0, 1, 4, 100, 400, 1900, 1970, 2000, 2023, 2024, 2100, 9999):
        for m in range(0, 14):
            for d in (0, 1, 28, 29, 30, 31, 32):
                iso_date(y, m, d)
    for s in ('2020/01/01', '20200101', '2020-1-1', ' 2020-01-01', '2020-01-01 ', '+2020-01-01', '10000-01-01', '-0001-01-01', '2020-01-01T', '2020-01-01T00', '', 'x', '2020-01-01T00:00x', '2020-W01-1', '2020-001', '1_0', '1e5', '0x10', 'nan', 'inf'):
        o = agree('date', s)
        R.check(o.kind == 'err', 'a text that is no date is refused: ' + repr(s), how('date', s), got=o, nt='x' + s)
    for off in OFFS:
        for h, mi, s in ((0, 0, 0), (0, 0, None), (23, 59, 59), (12, 34, 56), (24, 0, 0), (12, 60, 0), (12, 0, 60), (5, 5, None)):
            for fr in ('', '1', '123456', '000001', '999999', '1234567', '9999999'):
                if fr and s is None:
                    continue
                iso_time(h, mi, s, fr, off)
                iso_time(h, mi, s, fr, off, rng.choice('Tt _'), date(2020, 2, 29))
    for s, day, mid in (('2020-01-01T00:00:00', date(2020, 1, 1), True), ('2020-01-01T00:00:00.000001', None, False), ('2020-01-01T00:00:01', None, False), ('2020-01-01T00:00Z', date(2020, 1, 1), True), ('2020-01-01T00:00:00+05:00', date(2020, 1, 1), True), ('2020-01-01T12:00', None, False), ('2020-01-01T23:59:59.999999', None, False)):
        o = agree('date', s)
        R.check((o.ok and o.v == day) if mid else o.kind == 'err', 'a datetime text is a date only at midnight: ' + s, how('date', s), got=o, want=day, nt=s)
    R.mark('texts')
    for s in list(range(-130, 131)) + [3600 * h + d for h in range(-23, 24) for d in (0, 1, 1800, -1, 30)] + [-86399, 86399, -86340, 86340] + [rng.randint(-86399, 86399) for _ in range(20000 if THOROUGH else 1500)]:
        offsets(s)
    for s in (86400, -86400, 86401, 1e30, -1e30, math.inf, -math.inf, math.nan, 2 ** 31, -2 ** 31, -2147483648.0, 1e10, 2 ** 32):
        o = run(TzInfo, s)
        R.check(not o.ok and o.v.startswith('ValueError'), f'an offset of a day or more is refused: TzInfo({s})', f'TzInfo({s})', got=o, nt=('big', s))
    R.mark('offsets')
    for k in ('date', 'datetime', 'time', 'timedelta'):
        for x in (None, [], {}, object(), b'\xff', '\ud800', 1j):
            R.check(run(val(k).validate_python, x).kind == 'err', f'what denotes no {k} is refused', how(k, x), nt=(k, repr(x)[:10]))
        for t in ('null', '[]', '{}', '""', '1' + '0' * 30, '-1' + '0' * 30, 'true'):
            if (k, t) != ('timedelta', 'true'):
                R.check(run(val(k).validate_json, t).kind == 'err', f'what denotes no {k} is refused: {t}', how(k, t, 'json'), nt=(k, t))
    while not R.out_of_time():
        c = rng.random()
        if c < .15:
            numbers(rng.randint(-10 ** rng.randint(1, 16), 10 ** rng.randint(1, 16)))
        elif c < .4:
            numbers(rng.choice([rng.uniform(-3, 3), rng.uniform(-1e5, 1e5), rng.uniform(-2e10, 2e10), rng.uniform(-2.6e14, 2.6e14), round(rng.uniform(-1e9, 1e9), 6), round(rng.uniform(-1e13, 1e13), 3), rng.randint(-10 ** 9, 10 ** 9) + 0.5, rng.uniform(0, 86400), rng.randint(-999999999, 999999999) * 86400.0 - rng.random()]))
        elif c < .5:
            texts(str(rng.randint(-10 ** rng.randint(1, 14), 10 ** rng.randint(1, 14))) + rng.choice(['', '', '.5', '.25', '.123']))
        elif c < .6:
            iso_date(rng.randint(0, 9999), rng.randint(0, 13), rng.randint(0, 32))
        elif c < .75:
            iso_time(rng.randint(0, 24), rng.randint(0, 60), rng.randint(0, 60), rng.choice(['', str(rng.randint(0, 10 ** 9))[:rng.randint(1, 9)]]), rng.choice(OFFS), rng.choice('T '), rng.choice([None, date(rng.randint(1, 9999), rng.randint(1, 12), rng.randint(1, 28))]))
        elif c < .88:
            durations(rng)
        else:
            objects(rng)
    R.rules += ['numbers near every boundary (the seconds/milliseconds watershed, years 1 and 9999, a day, 999999999 days, 32/64 bits) with fractions, as int, float, Decimal, JSON and text',
                'every month and day of twelve years; times x fractions x offsets; offsets of +-130 s, every hour and sampled seconds (all modes of copying)', 'random numbers, texts, durations and objects until the time is used']


guard(Recorder('C19'), main)
