"""Harness of the concrete drivers: runs cases against a freshly built extension module and compares every outcome
with an oracle stated in Python (the executable reading of the property). Used to find a failing input for a refuted
obligation, and as the labelled-bounded stand-in for functions outside the verifier's reach."""
import json, math, mmap, os, random, sys, time, traceback

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'

from pydantic_core import (SchemaValidator, SchemaSerializer, ValidationError, PydanticSerializationError, SchemaError,
                           PydanticUndefined, PydanticOmit, PydanticCustomError, PydanticKnownError, core_schema, from_json, to_json, to_jsonable_python)
import pydantic_core
cs = core_schema

KEEP = int(os.environ.get("KEEPN", 40))


def typed(x):
    """value with its types made explicit, so that 1 != 1.0 != True and nan == nan"""
    t = type(x)
    if t is float:
        if x != x:
            return 'nan'
        return ('float', x, math.copysign(1, x))
    if t is complex and x != x:
        return ('complex', repr(x))
    if t in (list, tuple):
        return (t.__name__, tuple(typed(i) for i in x))
    if t is dict:
        return ('dict', tuple((typed(k), typed(v)) for k, v in x.items()))
    if t in (set, frozenset):
        return (t.__name__, frozenset(typed(i) for i in x))
    try:
        hash(x)
        return (t.__name__, x)
    except TypeError:
        return (t.__name__, id(x))


class Out:
    """outcome of one call"""
    __slots__ = ('kind', 'v')

    def __init__(self, kind, v):
        self.kind, self.v = kind, v

    def __eq__(self, o):
        return isinstance(o, Out) and self.kind == o.kind and self.v == o.v

    def __repr__(self):
        return f'{self.kind}:{self.v!r}'[:400]

    @property
    def ok(self):
        return self.kind == 'ok'


def run(f, *a, **k):
    try:
        return Out('ok', f(*a, **k))
    except ValidationError as e:
        return Out('err', [(d['type'], tuple(d['loc'])) for d in e.errors(include_url=False, include_input=False, include_context=False)])
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        return Out('exc', type(e).__name__ + ': ' + str(e)[:200])


def run_full(f, *a, **k):
    """as run, errors with context"""
    try:
        return Out('ok', f(*a, **k))
    except ValidationError as e:
        return Out('err', [(d['type'], tuple(d['loc']), {x: y for x, y in d.get('ctx', {}).items()}) for d in e.errors(include_url=False, include_input=False)])
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        return Out('exc', type(e).__name__ + ': ' + str(e)[:200])


class Recorder:
    def __init__(self, prop):
        self.prop = prop
        self.n = 0
        self.nontrivial = set()
        self.failures = []
        self.nfail = 0
        self.samples = []
        self.known = {}
        self.rules = []
        self.t0 = time.time()
        self.budget = 90 if not THOROUGH else 600
        self.rng = random.Random(SEED * 1000003 + sum(map(ord, prop)))
        p = os.environ.get('VERIF_PROGRESS')
        self.mm = None
        if p:
            with open(p, 'wb') as f:
                f.write(b'\0' * 4096)
            self.fd = os.open(p, os.O_RDWR)
            self.mm = mmap.mmap(self.fd, 4096)
        kf = os.environ.get('VERIF_KNOWN')
        self.known_ids = {}
        if kf and os.path.exists(kf):
            for line in open(kf):
                if line.startswith('known: '):
                    d = json.loads(line[7:])
                    if d['property'] == prop:
                        self.known_ids[d['match']] = d['what']

    def mark(self, label):
        if self.mm is not None:
            b = label.encode('utf8', 'backslashreplace')[:4090] + b'\0'
            self.mm[0:len(b)] = b

    def out_of_time(self):
        return time.time() - self.t0 > self.budget

    def check(self, ok, label, code='', got=None, want=None, nt=None, known=None):
        """one case. nt: key of a distinct non-trivial case"""
        self.n += 1
        if nt is not None:
            self.nontrivial.add(nt if isinstance(nt, str) else repr(nt))
        if len(self.samples) < 6 and self.n % 37 == 1:
            self.samples.append({'case': label[:300], 'got': repr(got)[:200]})
        if not ok:
            if known is not None and known in self.known_ids:
                self.known[known] = self.known_ids[known]
                return True
            self.nfail += 1
            if len(self.failures) < KEEP:
                self.failures.append({'case': label[:1500], 'code': code[:4000], 'got': repr(got)[:1500], 'expected': repr(want)[:1500]})
        if self.mm is not None:
            self.mark('the case after: ' + label)
        return ok

    def same(self, label, got, want, code='', nt=None, known=None):
        if isinstance(got, Out) and isinstance(want, Out) and got.kind == 'ok' and want.kind == 'ok':
            ok = typed(got.v) == typed(want.v)
        else:
            ok = got == want
        return self.check(ok, label, code, got, want, nt, known)

    def val(self, schema, value, want, mode='python', known=None, full=False, nt=True, sv=None, **kw):
        """validate and compare with the expected outcome. want: Out('ok',v) / Out('err',[..]) or a predicate"""
        label = f'{mode} {short(schema)} <- {value!r} {kw or ""}'
        self.mark(label)
        try:
            v = sv if sv is not None else validator(schema)
        except BaseException as e:
            return self.check(False, label, 'schema: ' + short(schema), f'{type(e).__name__}: {e}', want, known=known)
        f = {'python': v.validate_python, 'json': v.validate_json, 'strings': v.validate_strings}[mode]
        got = (run_full if full else run)(f, value, **kw)
        code = (f'from pydantic_core import SchemaValidator, core_schema\n'
                f'print(SchemaValidator({schema!r}).validate_{mode}({value!r}{"".join(f", {k}={x!r}" for k, x in kw.items())}))')
        key = (short(schema), repr(value), mode) if nt is True else nt
        if callable(want):
            try:
                ok = want(got)
            except Exception as e:
                ok = False
            return self.check(ok, label, code, got, getattr(want, '__doc__', None) or 'predicate', repr(key) if key else None, known)
        return self.same(label, got, want, code, repr(key) if key else None, known)

    def done(self):
        out = os.environ.get('VERIF_REPLAY_OUT')
        r = {'n': self.n, 'nontrivial': len(self.nontrivial), 'failures': self.failures, 'nfail': self.nfail, 'samples': self.samples,
             'rule': ' | '.join(self.rules), 'known': self.known, 'secs': round(time.time() - self.t0, 2)}
        if out:
            with open(out, 'w') as f:
                json.dump(r, f)
        print(f'{self.prop}: {self.n} cases, {len(self.nontrivial)} non-trivial, {self.nfail} failures, known={list(self.known)} {r["secs"]}s')
        for f in self.failures[:int(os.environ.get('SHOW', '8'))]:
            print('  FAIL', f['case'], f['code'][:300], '\n     got', f['got'], '\n     want', f['expected'])


_vc = {}


def short(s):
    return repr(s)[:700]


def validator(schema):
    k = id(schema)
    e = _vc.get(k)
    if e is None or e[0] is not schema:
        e = (schema, SchemaValidator(schema))
        if len(_vc) > 5000:
            _vc.clear()
        _vc[k] = e
    return e[1]


def OK(v):
    return Out('ok', v)


def ERR(*types, loc=None):
    """errors with these types; every one at location () unless given as (type, loc)"""
    return Out('err', [(t if isinstance(t, tuple) else (t, tuple(loc or ()))) for t in types])


def guard(R, body):
    """run the driver; a crash of the driver itself is reported as such, never as a violation"""
    try:
        body(R)
    except BaseException:
        traceback.print_exc()
        R.rules.append('driver error: ' + traceback.format_exc()[-500:])
        out = os.environ.get('VERIF_REPLAY_OUT')
        R.done()
        if out:
            d = json.load(open(out))
            d['driver_error'] = traceback.format_exc()[-1500:]
            json.dump(d, open(out, 'w'))
        sys.exit(3)
    R.done()
