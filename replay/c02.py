from h import *
import struct
KEYS = ['multiple_of', 'le', 'lt', 'ge', 'gt']
ETYPE = {'multiple_of': 'multiple_of', 'le': 'less_than_equal', 'lt': 'less_than', 'ge': 'greater_than_equal', 'gt': 'greater_than'}
INF, NAN = math.inf, math.nan
CORE = [0.0, -0.0, 1.0, -1.0, 0.5, 2.5, -2.5, 3.0, 0.1, 0.3, 1e-9, 1e-10, 2e-9, 1e300, -1e300, 1.7976931348623157e308, 5e-324, -5e-324, 2.0 ** 53, 2.0 ** 53 + 2, INF, -INF, NAN]


def rround(x):
    """Rust f64::round: half away from zero"""
    if x != x or math.isinf(x) or abs(x) >= 2 ** 52:
        return x
    r = math.floor(abs(x))
    if abs(x) - r >= 0.5:
        r += 1
    return math.copysign(float(r), x)


def div(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        return NAN if a == 0 or a != a else math.copysign(INF, math.copysign(1, a) * math.copysign(1, b))


def mul(a, b):
    return a * b


def sat(x, k, m):
    if k == 'multiple_of':
        d = abs(x - mul(rround(div(x, m)), m))
        return not d > 1e-9
    return {'le': x <= m, 'lt': x < m, 'ge': x >= m, 'gt': x > m}[k]


def expect(x, cons, allow):
    if not allow and not math.isfinite(x):
        return Out('err', [('finite_number', ())])
    for k in KEYS:
        if k in cons and not sat(x, k, cons[k]):
            return Out('err', [(ETYPE[k], ())])
    return OK(x)


class MyFloat(float):
    pass


def main(R):
    rng = R.rng
    R.rules.append('float schemas with random bounds x floats around the bounds, ulp neighbours, infinities and nan, via python / JSON / strings; oracle: python floats; '
                   'non-trivial = a bound or allow_inf_nan=False declared')

    def one(cons, x, allow=None, cfg=None):
        sch = {'type': 'float', **cons}
        if allow is not None:
            sch['allow_inf_nan'] = allow
        if cfg is not None:
            sch['config'] = None
            del sch['config']
            sv = SchemaValidator(sch, {'allow_inf_nan': cfg})
        else:
            sv = validator(sch)
        eff = allow if allow is not None else (cfg if cfg is not None else True)
        w = expect(x, cons, eff)
        nt = (repr(x), tuple(cons.items()), allow, cfg) if cons or not eff else None
        R.val(sch, x, w, sv=sv, nt=nt)
        R.val(sch, x, w, sv=sv, strict=True, nt=None)
        R.val(sch, MyFloat(x), lambda g, w=w: (g.ok and w.ok and (g.v == x or x != x)) or g == w, sv=sv, nt=None)
        js = 'NaN' if x != x else ('Infinity' if x == INF else '-Infinity' if x == -INF else repr(x))
        R.val(sch, js, w, 'json', sv=sv, nt=None)
        R.val(sch, repr(x), w, 'strings', sv=sv, nt=None)
        R.val(sch, repr(x), w, sv=sv, nt=None)
        if x == x and abs(x) < 2 ** 53 and x == int(x) and not (x == 0 and math.copysign(1, x) < 0):
            R.val(sch, int(x), w, sv=sv, nt=None)
            R.val(sch, str(int(x)), w, 'json', sv=sv, nt=None)

    def near(m):
        if not math.isfinite(m):
            return [m]
        return [m, math.nextafter(m, INF), math.nextafter(m, -INF), -m, m * 2, m + 1, m - 1]
    for k in KEYS:
        for m in CORE:
            if k == 'multiple_of' and (m == 0 or m != m):
                continue
            if m != m:
                continue
            for x in CORE + near(m):
                one({k: m}, x)
                one({k: m}, x, allow=False)
            if R.out_of_time():
                return
    for x in CORE:
        for allow in (None, True, False):
            for cfg in (None, True, False):
                one({}, x, allow, cfg)
                one({'ge': -1.0}, x, allow, cfg)
    # tolerance of multiple_of
    for m in (0.1, 0.01, 3.3, 1e-3, 2.0, 7.0, 1e5):
        for q in (0, 1, 2, 3, 7, 100, 12345, -5):
            for d in (0, 5e-10, 9.9e-10, 1.1e-9, 2e-9, 1e-8, 1e-6, m / 2, m / 3):
                for s in (1, -1):
                    one({'multiple_of': m}, q * m + s * d)
    for _ in range(1200 if not THOROUGH else 15000):
        base = rng.choice(CORE[:-3]) if rng.random() < .5 else rng.uniform(-100, 100) if rng.random() < .7 else struct.unpack('d', struct.pack('Q', rng.getrandbits(64)))[0]
        cons = {}
        for k in KEYS:
            if rng.random() < .4:
                m = rng.choice(near(base) + [rng.uniform(-50, 50)])
                if k == 'multiple_of':
                    m = rng.choice([0.1, 0.5, 1.0, 2.0, 3.0, 0.25, 1e-3])
                if m == m:
                    cons[k] = m
        for x in near(base) + [rng.choice(CORE), rng.uniform(-100, 100)]:
            one(cons, x, rng.choice([None, None, True, False]), rng.choice([None, None, False, True]))
        if R.out_of_time():
            return
    # error context reports the declared bound
    for k in KEYS:
        for m in (1.5, 3.0, -2.25 if k != 'multiple_of' else 2.25):
            bad = {'multiple_of': m + 0.7, 'le': m + 1, 'lt': m, 'ge': m - 1, 'gt': m}[k]
            R.val({'type': 'float', k: m}, bad, Out('err', [(ETYPE[k], (), {k: m})]), full=True)


guard(Recorder('C02'), main)
