from h import *
KEYS = ['multiple_of', 'le', 'lt', 'ge', 'gt']
ETYPE = {'multiple_of': 'multiple_of', 'le': 'less_than_equal', 'lt': 'less_than', 'ge': 'greater_than_equal', 'gt': 'greater_than'}
B = 2 ** 63
CORE = [0, 1, -1, 2, 3, -3, 7, 10, -10, B - 1, B, B + 1, -B, -B - 1, -B + 1, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1, 2 ** 70, -2 ** 70, 3 * 2 ** 70, 10 ** 30, -10 ** 30, 2 ** 127, 2**128, 2 ** 31, 2**32]


def sat(n, k, m):
    if k == 'multiple_of':
        return n == 0 if m == 0 else n % m == 0
    return {'le': n <= m, 'lt': n < m, 'ge': n >= m, 'gt': n > m}[k]


def expect(n, cons):
    for k in KEYS:
        if k in cons and not sat(n, k, cons[k]):
            return Out('err', [(ETYPE[k], (), {k: cons[k]})])
    return OK(n)


class MyInt(int):
    pass


def main(R):
    rng = R.rng
    R.rules.append('int schemas with random subsets of bounds x integers around the bounds and 64-bit limits, as python int / JSON / string; oracle: python integers; '
                   'non-trivial = at least one bound declared')
    def one(cons, n, strict=None):
        sch = {'type': 'int', **cons}
        w = expect(n, cons)
        sv = validator(sch)
        R.val(sch, n, w, full=True, sv=sv, nt=(n, tuple(cons.items())) if cons else None)
        R.val(sch, n, w, full=True, sv=sv, strict=True, nt=None)
        R.val(sch, str(n), w, 'json', full=True, sv=sv, nt=None)
        R.val(sch, str(n), w, 'strings', full=True, sv=sv, nt=None)
        R.val(sch, str(n), w, full=True, sv=sv, nt=None)
        if abs(n) < 2 ** 52:
            R.val(sch, float(n), w, full=True, sv=sv, nt=None)
            R.val(sch, f'{n}.0', w, 'json', full=True, sv=sv, nt=None)
    # every single bound x core values
    for k in KEYS:
        for m in CORE:
            cons = {k: m}
            for n in CORE + [m + 1, m - 1, -m, 2 * m]:
                one(cons, n)
            if R.out_of_time():
                break
    pool = CORE + [m + d for m in CORE for d in (1, -1)]
    for _ in range(1500 if not THOROUGH else 20000):
        ks = [k for k in KEYS if rng.random() < 0.45]
        base = rng.choice(pool)
        cons = {}
        for k in ks:
            cons[k] = rng.choice([base + rng.randint(-3, 3), rng.choice(pool), rng.randint(-20, 20)])
            if k == 'multiple_of' and cons[k] < 0 and rng.random() < .7:
                cons[k] = -cons[k]
        for n in {base, base + rng.randint(-3, 3), rng.choice(pool), rng.randint(-30, 30)}:
            one(cons, n)
        if R.out_of_time():
            break
    # subclass values are accepted and their value is constrained
    for n in (5, B, -B - 1):
        R.val({'type': 'int', 'le': n}, MyInt(n), lambda g, n=n: g.ok and g.v == n, nt=('sub', n))
        R.val({'type': 'int', 'lt': n}, MyInt(n), lambda g, n=n: g.kind == 'err' and g.v[0][0] == 'less_than', nt=('sub2', n))
    # schema keys with a default-like explicit zero
    for k in KEYS[1:]:
        R.val({'type': 'int', k: 0}, 0, expect(0, {k: 0}), full=True, nt=('zero', k))
        R.val({'type': 'int', k: 0}, 1, expect(1, {k: 0}), full=True, nt=('zero1', k))
        R.val({'type': 'int', k: 0}, -1, expect(-1, {k: 0}), full=True, nt=('zero-1', k))
    # bounds inside containers behave the same
    sch = {'type': 'list', 'items_schema': {'type': 'int', 'ge': 3, 'multiple_of': 3}}
    for _ in range(200):
        xs = [rng.randint(-9, 12) for _ in range(rng.randint(0, 6))]
        errs = [(expect(x, {'multiple_of': 3, 'ge': 3}).v[0][0], (i,)) for i, x in enumerate(xs) if not expect(x, {'multiple_of': 3, 'ge': 3}).ok]
        R.val(sch, xs, Out('err', errs) if errs else OK(xs))


guard(Recorder('C01'), main)
