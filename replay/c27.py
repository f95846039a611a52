"""C27: temporal bounds (oracle: Python's own comparison of datetime objects)"""
from h import *
import datetime as dt, time as tm
try:
    from zoneinfo import ZoneInfo
    ZONES = []
    for z in ('Europe/Paris', 'America/New_York', 'Australia/Lord_Howe', 'Asia/Kathmandu'):
        try:
            ZONES.append(ZoneInfo(z))
        except Exception:
            pass
except ImportError:
    ZONES = []

OPS = {'le': lambda a, b: a <= b, 'lt': lambda a, b: a < b, 'ge': lambda a, b: a >= b, 'gt': lambda a, b: a > b}
ERRT = {'le': 'less_than_equal', 'lt': 'less_than', 'ge': 'greater_than_equal', 'gt': 'greater_than'}
US = dt.timedelta(microseconds=1)
US1 = [dt.timedelta(0), US, -US, dt.timedelta(seconds=1), dt.timedelta(seconds=-1), dt.timedelta(hours=1), dt.timedelta(hours=-1), dt.timedelta(days=1), dt.timedelta(days=-1), dt.timedelta(days=1, microseconds=-1)]


def human(d):
    """the message text of a duration"""
    out = []
    for n, u in ((d.days, 'day'), (d.seconds // 3600, 'hour'), (d.seconds % 3600 // 60, 'minute'), (d.seconds % 60, 'second'), (d.microseconds, 'microsecond')):
        if n:
            out.append(f'{n} {u}{"" if n == 1 else "s"}')
    return ' and '.join(out) or '0 seconds'


def reads_as(kind, text, bound):
    """the reported limit denotes the bound"""
    if kind == 'timedelta':
        return text == human(bound)
    v = {'date': cs.date_schema, 'time': cs.time_schema, 'datetime': cs.datetime_schema}[kind]()
    try:
        x = validator_of(kind, v).validate_python(text)
    except ValidationError:
        return False
    off = bound.utcoffset() if kind in ('datetime', 'time') and bound.tzinfo is not None else None
    if off is not None and off.total_seconds() % 60:        # the text of an offset has minutes only
        return key(kind, x.replace(tzinfo=None)) == key(kind, bound.replace(tzinfo=None))
    return key(kind, x) == key(kind, bound) and (getattr(x, 'tzinfo', None) is None) == (getattr(bound, 'tzinfo', None) is None)


_pl = {}


def validator_of(kind, s):
    if kind not in _pl:
        _pl[kind] = SchemaValidator(s)
    return _pl[kind]


def iso_td(d):
    us = (d.days * 86400 + d.seconds) * 10**6 + d.microseconds
    sg, us = ('-' if us < 0 else ''), abs(us)
    s = f'{sg}P{us // 86400000000}DT{us // 10**6 % 86400}'
    return s + (f'.{us % 10**6:06d}S' if us % 10**6 else 'S')


class TD(dt.timedelta):
    pass


class DTS(dt.datetime):
    pass


def gen(rng, kind, aware):
    if kind == 'date':
        return dt.date(*rng.choice([(2020, 2, 28), (2020, 2, 29), (1, 1, 1), (9999, 12, 31), (1970, 1, 1), (2000, 12, 31), (1969, 12, 31), (rng.randrange(1, 9999), rng.randrange(1, 13), rng.randrange(1, 29))]))
    if kind == 'timedelta':
        return rng.choice([dt.timedelta(0), dt.timedelta(days=rng.randrange(-999, 999), seconds=rng.randrange(86400), microseconds=rng.choice([0, 1, 500000, 999999])), dt.timedelta(seconds=rng.randrange(-3, 3)), dt.timedelta(microseconds=rng.randrange(-3, 3)),
                           dt.timedelta(days=-1), dt.timedelta(days=1), dt.timedelta(days=999999999, seconds=86399, microseconds=999999), dt.timedelta(days=-999999999)])
    tz = None
    if aware:
        tz = rng.choice([dt.timezone.utc, dt.timezone(dt.timedelta(hours=rng.randrange(-23, 24), minutes=rng.choice([0, 0, 30, 45]))), dt.timezone(dt.timedelta(seconds=rng.randrange(-80000, 80000)))] + (ZONES if kind == 'datetime' else []))
    t = dt.time(rng.choice([0, 12, 23, rng.randrange(24)]), rng.choice([0, 59, rng.randrange(60)]), rng.choice([0, 59, rng.randrange(60)]), rng.choice([0, 0, 1, 999999, rng.randrange(10**6)]), tzinfo=tz, fold=rng.choice([0, 0, 1]))
    if kind == 'time':
        return t
    d = gen(rng, 'date', False)
    if d.year in (1, 9999):
        d = d.replace(year=2024, month=10, day=27)
    if rng.random() < .3:
        d = dt.date(2024, rng.choice([3, 10, 4, 11]), rng.choice([3, 6, 7, 10, 27, 31 if 0 else 28]))
    return dt.datetime.combine(d, t)


def near(rng, kind, b):
    """a value at or next to a bound, possibly written with another offset"""
    try:
        if kind in ('timedelta',):
            return b + rng.choice(US1)
        if kind == 'date':
            return b + rng.choice([dt.timedelta(0), dt.timedelta(1), dt.timedelta(-1)])
        if kind == 'datetime':
            x = b + rng.choice(US1)
            if b.tzinfo is not None and rng.random() < .7:
                x = x.astimezone(gen(rng, 'datetime', True).tzinfo)
            return x
        x = (dt.datetime.combine(dt.date(2020, 1, 15), b) + rng.choice(US1)).timetz()
        return x
    except OverflowError:
        return b


def forms(rng, kind, x):
    """the value as python object, string and JSON"""
    out = [('python', x)]
    if kind == 'timedelta':
        out.append(('str', iso_td(x)))
        if abs(x.days) < 10000:
            out.append(('python', TD(days=x.days, seconds=x.seconds, microseconds=x.microseconds)))
    elif kind == 'date':
        out.append(('str', x.isoformat()))
    else:
        off = x.utcoffset() if kind == 'datetime' or x.tzinfo is None or x.utcoffset() is not None else None
        if off is None or off.total_seconds() % 60 == 0:
            out.append(('str', x.isoformat()))
        if kind == 'datetime' and x.tzinfo is None:
            out.append(('python', DTS(x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond)))
    return out


MK = {'date': cs.date_schema, 'time': cs.time_schema, 'datetime': cs.datetime_schema, 'timedelta': cs.timedelta_schema}


def bounds(R):
    rng = R.rng
    for it in range(9000 if not THOROUGH else 60000):
        if R.out_of_time():
            return
        kind = rng.choice(['date', 'time', 'datetime', 'datetime', 'timedelta', 'timedelta'])
        aware = kind in ('time', 'datetime') and rng.random() < .6
        keys = rng.sample(list(OPS), rng.choice([1, 1, 2, 2, 3, 4]))
        base = gen(rng, kind, aware)
        bs = {k: (near(rng, kind, base) if rng.random() < .6 else gen(rng, kind, aware)) for k in keys}
        if any(getattr(b, 'tzinfo', None) is not None and b.utcoffset() is None for b in bs.values()):
            continue
        R.mark(f'{kind} {bs}')
        v = SchemaValidator(MK[kind](**bs))
        for _ in range(4):
            x = near(rng, kind, rng.choice(list(bs.values()))) if rng.random() < .85 else gen(rng, kind, aware)
            viol = {ERRT[k]: b for k, b in bs.items() if not OPS[k](x, b) and not inst(kind, k, x, b)}
            if kind in ('datetime', 'time') and aware:
                viol = {ERRT[k]: b for k, b in bs.items() if not inst(kind, k, x, b)}
            for mode, form in forms(rng, kind, x):
                js = mode == 'str' and rng.random() < .5
                label = f'{kind} {bs} <- {mode} {form!r}{" (json)" if js else ""}'
                R.mark(label)
                got = run_full(v.validate_json, json.dumps(form)) if js else run_full(v.validate_python, form)
                if not viol:
                    R.check(got.ok and same(kind, got.v, x), label, label, got, x, R.n)
                else:
                    ok = got.kind == 'err' and len(got.v) == 1 and got.v[0][0] in viol
                    if ok:
                        t = got.v[0][0]
                        ctx = [str(y) for z, y in got.v[0][2].items() if z in OPS]
                        ok = len(ctx) == 1 and reads_as(kind, ctx[0], viol[t])
                    R.check(ok, label, label, got, viol, R.n)


def key(kind, x):
    """the instant of an aware value, the reading of a naive one"""
    if kind == 'datetime':
        if x.utcoffset() is None:
            return x.replace(tzinfo=None, fold=0)
        return x.replace(tzinfo=None, fold=0) - dt.datetime(1, 1, 1) - x.utcoffset()
    if kind == 'time':
        s = dt.timedelta(hours=x.hour, minutes=x.minute, seconds=x.second, microseconds=x.microsecond)
        return s - x.utcoffset() if x.utcoffset() is not None else s
    return x


def same(kind, a, b):
    return key(kind, a) == key(kind, b) and (getattr(a, 'tzinfo', None) is None) == (getattr(b, 'tzinfo', None) is None)


def inst(kind, k, x, b):
    return OPS[k](key(kind, x), key(kind, b))


def now(R):
    rng = R.rng
    for it in range(1500 if not THOROUGH else 8000):
        if R.out_of_time():
            return
        op = rng.choice(['past', 'future'])
        off = rng.choice([None, 0, 3600, -3600, 12345, -43200, 50400, rng.randrange(-86399, 86400)])
        kind = rng.choice(['date', 'datetime'])
        os.environ['TZ'] = rng.choice(['UTC', 'JST-9', 'EST+5'])
        tm.tzset()
        v = SchemaValidator(MK[kind](now_op=op, **({} if off is None else {'now_utc_offset': off})))
        loc = dt.timezone(dt.timedelta(seconds=off if off is not None else tm.localtime().tm_gmtoff))
        n0 = dt.datetime.now(loc)
        if kind == 'date':
            if n0.hour == 23 and n0.minute == 59 and n0.second > 50:
                continue
            x = n0.date() + dt.timedelta(days=rng.choice([0, 1, -1, 400, -400]))
            ok = x < n0.date() if op == 'past' else x > n0.date()
            et = 'date_past' if op == 'past' else 'date_future'
        else:
            d = rng.choice([5, -5, 3600, -3600, 7200, -7200, 40000, -40000, 10**6, -10**6])
            x = n0 + dt.timedelta(seconds=d)
            if rng.random() < .5:
                x = x.astimezone(dt.timezone(dt.timedelta(seconds=60 * rng.randrange(-1400, 1400))))
            else:
                x = x.replace(tzinfo=None)      # a naive value is read at the stated offset
            ok = d < 0 if op == 'past' else d > 0
            et = 'datetime_past' if op == 'past' else 'datetime_future'
        for form in (x, x.isoformat()):
            label = f'TZ={os.environ["TZ"]} {kind} {op} offset={off} <- {form!r}'
            R.mark(label)
            got = run(v.validate_python, form)
            R.check((got.ok and same(kind, got.v, x)) if ok else got == ERR(et), label, f'now = {n0}; ' + label, got, OK(x) if ok else et, R.n)


def zones(R):
    rng = R.rng
    for it in range(1500 if not THOROUGH else 8000):
        if R.out_of_time():
            return
        kind = rng.choice(['time', 'datetime'])
        c = rng.choice(['naive', 'aware', 0, 3600, -3600, 19800, rng.randrange(-86399, 86400)])
        x = gen(rng, kind, rng.random() < .7)
        if x.tzinfo is not None and not isinstance(c, str) and rng.random() < .6:
            x = x.replace(tzinfo=dt.timezone(dt.timedelta(seconds=c + rng.choice([0, 0, 60, 1]))) if abs(c) < 86000 else x.tzinfo)
        off = x.utcoffset()
        if x.tzinfo is not None and off is None:
            continue
        v = SchemaValidator(MK[kind](tz_constraint=c))
        want = None
        if c == 'naive':
            want = 'timezone_naive' if off is not None else None
        elif off is None:
            want = 'timezone_aware'
        elif c != 'aware' and off.total_seconds() != c:
            want = 'timezone_offset'
        for mode, form in forms(rng, kind, x):
            label = f'{kind} tz_constraint={c} <- {form!r}'
            R.mark(label)
            got = run_full(v.validate_python, form)
            if want is None:
                R.check(got.ok and same(kind, got.v, x) and got.v.utcoffset() == off, label, label, got, x, R.n)
            else:
                ok = got.kind == 'err' and len(got.v) == 1 and got.v[0][0] == want
                if ok and want == 'timezone_offset':
                    ok = got.v[0][2] == {'tz_expected': c, 'tz_actual': int(off.total_seconds())}
                R.check(ok, label, label, got, want, R.n)


def precision(R):
    rng = R.rng
    for it in range(2500 if not THOROUGH else 10000):
        if R.out_of_time():
            return
        kind = rng.choice(['time', 'datetime', 'timedelta'])
        mode = rng.choice(['truncate', 'error', None])
        via = rng.random() < .5
        sch = {'type': kind}
        if mode and not via:
            sch['microseconds_precision'] = mode
        v = SchemaValidator(sch, {'microseconds_precision': mode} if mode and via else None)
        nd = rng.randrange(0, 10)
        fr = ''.join(rng.choice('0123456789') for _ in range(nd))
        if rng.random() < .3:
            fr = fr[:6].ljust(6, '9') + '9' * rng.randrange(0, 4)
        us = int((fr + '000000')[:6])
        frac = '.' + fr if fr else ''
        h, m, s = rng.randrange(24), rng.randrange(60), rng.randrange(60)
        z = rng.choice(['', 'Z', '+01:00'])
        sg = rng.choice(['', '-'])
        if kind == 'time':
            text, want = f'{h:02}:{m:02}:{s:02}{frac}{z}', dt.time(h, m, s, us)
        elif kind == 'datetime':
            text, want = f'2020-02-29T{h:02}:{m:02}:{s:02}{frac}{z}', dt.datetime(2020, 2, 29, h, m, s, us)
        else:
            z = ''
            text, want = f'{sg}P1DT{h}H{m}M{s}{frac}S', dt.timedelta(days=1, hours=h, minutes=m, seconds=s, microseconds=us) * (-1 if sg else 1)
            if rng.random() < .4:
                text = f'{sg}1 day, {h:02}:{m:02}:{s:02}{frac}'
        reject = mode == 'error' and len(fr) > 6
        for js in (False, True):
            label = f'{kind} precision={mode} <- {text!r} {"json" if js else ""}'
            R.mark(label)
            got = run(v.validate_json, json.dumps(text)) if js else run(v.validate_python, text)
            R.check(got.kind == 'err' if reject else got.ok and (got.v if kind == 'timedelta' else got.v.replace(tzinfo=None)) == want, label, label, got, 'rejected' if reject else want, R.n,
                    known='iso-duration-precision' if text.lstrip('-')[0] == 'P' and len(fr) > 6 and got.ok and abs(got.v - want) <= US else None)


def midnight(R):
    """dates from datetimes and datetimes from dates"""
    rng = R.rng
    vd, vdt = SchemaValidator(cs.date_schema()), SchemaValidator(cs.datetime_schema())
    for it in range(1200):
        x = gen(rng, 'datetime', rng.random() < .5)
        if rng.random() < .5:
            x = x.replace(hour=0, minute=0, second=0, microsecond=rng.choice([0, 0, 0, 1]))
        for form in (x, x.isoformat()):
            if isinstance(form, str) and x.utcoffset() is not None and x.utcoffset().total_seconds() % 60:
                continue
            label = f'date <- {form!r}'
            R.mark(label)
            got = run(vd.validate_python, form)
            at = (x.hour, x.minute, x.second, x.microsecond) == (0, 0, 0, 0)
            R.check(got.ok and type(got.v) is dt.date and got.v == x.date() if at else got == ERR('date_from_datetime_inexact'), label, label, got, x.date() if at else 'inexact', R.n)
        d = gen(rng, 'date', False)
        for form in (d, d.isoformat()):
            label = f'datetime <- {form!r}'
            got = run(vdt.validate_python, form)
            R.check(got.ok and got.v == dt.datetime(d.year, d.month, d.day) and got.v.tzinfo is None, label, label, got, d, R.n)


def main(R):
    R.rules.append('random bounds of date / time / datetime / timedelta schemas x values at and next to them, as objects, subclasses, strings and JSON, naive and aware with other offsets and zones; past/future around now; timezone constraints; microsecond precision; midnight conversions')
    bounds(R)
    now(R)
    os.environ['TZ'] = 'UTC'
    tm.tzset()
    zones(R)
    precision(R)
    midnight(R)
    for z in ('-PT0S', '-P0D', '-00:00:00', -0.0, -1e-9, '-PT0.0000001S', -0.0000004):
        for k, b in (('ge', 0), ('le', 0), ('gt', 0), ('lt', 0)):
            v = SchemaValidator(cs.timedelta_schema(**{k: dt.timedelta(0)}))
            got = run(v.validate_python, z)
            R.mark(f'{z} {k} 0')
            R.check(got.ok == (k in ('ge', 'le')), f'timedelta {k}=0 <- {z!r}', f'{z!r}', got, k in ('ge', 'le'), R.n, known='negative-zero')


R_ = Recorder('C27')
guard(R_, main)
