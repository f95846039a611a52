"""C23: literal and enum membership against Python equality"""
from h import *
import enum, itertools
from decimal import Decimal


class K(str, enum.Enum):
    a = 'a'
    b = 'b'


class KI(enum.IntEnum):
    one = 1
    two = 2
    big = 2 ** 70


class P(enum.Enum):
    x = 'x'
    y = 'y'
    n = None
    i = 7
    t = (1, 2)
    f = 2.5


class Q(enum.Enum):
    a = 1
    b = '1'
    c = True and 'true'


class FE(float, enum.Enum):
    h = 0.5
    w = 3.0
    inf = float('inf')


class SI(int):
    pass


class SS(str):
    pass


def eq(k, t):
    try:
        return bool(k == t)
    except Exception:
        return False


def hashable(t):
    try:
        hash(t)
        return True
    except TypeError:
        return False


def candidates(listed, x):
    """listed values equal to the input; an exact-type one if there is one (for the primitive types)"""
    c = [k for k in listed if eq(k, x) and (hashable(x) or not hashable(k))]
    if type(x) in (bool, int, str):
        same = [k for k in c if type(k) is type(x)]
        if same:
            return same
    return c


def expected_repr(vals):
    r = [repr(v) for v in vals]
    return r[0] if len(r) == 1 else ', '.join(r[:-1]) + ' or ' + r[-1]


def main(R):
    rng = R.rng
    R.rules.append('random lists of listed values (ints of any size, strings, bools, bytes, floats, None, enum members, lists, tuples) and every input of a pool, python and JSON; membership decided by Python equality with an exact-type match preferred')
    pool = [0, 1, 2, -1, 7, 10 ** 18, 2 ** 63 - 1, 2 ** 63, -2 ** 63, -2 ** 63 - 1, 2 ** 70, True, False, '', 'a', 'b', '1', 'true', 'x', 'é', b'a', b'', None, 1.0, 2.5, 0.0, -0.0, K.a, K.b, KI.one, KI.big, P.x, P.n, P.i,
            (1, 2), (), [1], [1, 2], [], {'a': 1}, {}, Decimal(1), SI(1), SI(7), SS('a'), 'None', float('inf'), 3, '2']
    litpool = [v for v in pool if not isinstance(v, (SI, SS, Decimal))]
    N = 450 if not THOROUGH else 8000
    for it in range(N):
        if R.out_of_time():
            break
        listed = [rng.choice(litpool) for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6]))]
        if it < len(litpool):
            listed = [litpool[it]]
        v = SchemaValidator(cs.literal_schema(listed))
        near = [w for k in listed if isinstance(k, str) and type(k) is str for w in (k + '\0', k + ' ', ' ' + k, k.swapcase(), k + k, k[:-1], 'e\u0301', k + '\n')]
        near += [w for k in listed if type(k) is int for w in (k + 1, k - 1, -k, k + 2 ** 64, k - 2 ** 64, k ^ (1 << 63), float(k) if abs(k) < 2 ** 53 else k)]
        for x in pool + near:
            label = f'literal {listed!r} on {x!r} ({type(x).__name__})'
            R.mark(label)
            got = run_full(v.validate_python, x)
            judge(R, label, listed, x, got)
            if type(x) in (int, str, bool, float, list, dict, type(None)) and x != float('inf'):
                raw = json.dumps(x)
                got = run_full(v.validate_json, raw)
                judge(R, 'json ' + label, listed, x, got)
    # enums
    import typing
    inputs = [0, 1, 2, 3, 7, 2 ** 70, 2 ** 71, True, False, '1', '2', 'a', 'b', 'x', 'y', 'zz', 'true', '', 'a\0', 'A', ' a', 'a ', 'ab', '\0', 'a\u0301', '\uff41', 'ſ', 'x\n', 1.0, 2.0, 1.5, 2.5, 0.5, 3.0, None, (1, 2), [1, 2], {}, b'a', float('inf'), float('nan'), '0.5', '7', SI(1), SI(7), SS('a'), SS('x'),
              Decimal(1), Decimal('0.5'), K.a, KI.one, P.x, P.n, FE.h, Q.a]
    for cls, sub in [(K, 'str'), (K, None), (KI, 'int'), (KI, None), (P, None), (Q, None), (FE, 'float'), (FE, None)]:
        for members in (list(cls), list(cls)[:1], list(cls)[::-1]):
            vals = [m.value for m in members]
            for strict in (None, False, True):
                for cstrict in (None, False, True):
                    for hook in (None, 'member', 'none', 'bad', 'raise'):
                        calls = []

                        def missing(x, hook=hook, members=members):
                            calls.append(x)
                            if hook == 'member':
                                return members[0]
                            if hook == 'bad':
                                return 'not a member'
                            if hook == 'raise':
                                raise ValueError('no')
                            return None
                        kw = {} if sub is None else {'sub_type': sub}
                        v = SchemaValidator(cs.enum_schema(cls, members, strict=strict, missing=missing if hook else None, **kw))
                        eff = cstrict if cstrict is not None else bool(strict)
                        for x in inputs:
                            for js in (False, True):
                                if js and (type(x) not in (int, str, bool, float, list, dict, type(None)) or x != x or x in (float('inf'),)):
                                    continue
                                label = f'enum {cls.__name__} sub_type={sub} members={[m.name for m in members]} strict={strict}/{cstrict} missing={hook} {"json" if js else "python"} {x!r}'
                                R.mark(label)
                                calls.clear()
                                got = run_full(v.validate_json if js else v.validate_python, json.dumps(x) if js else x, strict=cstrict)
                                enum_judge(R, label, cls, members, vals, sub, eff, hook, calls, js, x, got)


INT, STR, FLT = SchemaValidator(cs.int_schema()), SchemaValidator(cs.str_schema()), SchemaValidator(cs.float_schema())


def enum_judge(R, label, cls, members, vals, sub, strict, hook, calls, js, x, got):
    if not js and type(x) is cls:
        R.check(got.kind == 'ok' and got.v is x, label, got=got, want=f'the member itself {x!r}')
        R.check(not calls, label + ' hook', got=calls, want=[])
        return
    if strict and not js:
        R.check(got.kind == 'err' and got.v[0][0] == 'is_instance_of' and not calls, label, got=got, want='is_instance_of error')
        return
    conv = {'int': INT, 'str': STR, 'float': FLT}.get(sub)
    match = []
    if conv is not None:
        c = run(conv.validate_json if js else conv.validate_python, json.dumps(x) if js else x, strict=strict)
        if c.ok:
            match = [m for m in members if eq(m.value, c.v)]
    else:
        match = [m for m in members if m.value in candidates(vals, x)] if candidates(vals, x) else []
        if not match and not js and not strict:
            c = run((STR if isinstance(x, str) else INT).validate_python, x) if isinstance(x, (str, int, float)) else None
            if c is not None and c.ok:
                match = [m for m in members if type(m.value) in (int, str) and eq(m.value, c.v)]
    if not match and not js:
        # the class itself may know the value (members not listed in the schema, aliases)
        try:
            match = [cls(x)]
        except ValueError:
            pass
    if match:
        R.check(got.kind == 'ok' and any(got.v is m for m in match), label, got=got, want=f'one of {match!r}', nt=label)
        R.check(not calls, label + ' hook not called', got=calls, want=[])
        return
    if hook:
        R.check(len(calls) == 1 and typed(calls[0]) == typed(x), label + ' hook called once with the input', got=calls, want=[x])
    if hook == 'member':
        R.check(got.kind == 'ok' and got.v is members[0], label, got=got, want=members[0])
    elif hook == 'bad':
        R.check(got.kind == 'exc' and got.v.startswith('TypeError'), label, got=got, want='TypeError')
    else:
        want = [('enum', (), {'expected': expected_repr(vals)})]
        R.check(got.kind == 'err' and got.v == want, label, got=got, want=want)


def judge(R, label, listed, x, got):
    c = candidates(listed, x)
    if c:
        R.check(got.kind == 'ok' and any(got.v is k or (type(got.v) is type(k) and typed(got.v) == typed(k)) for k in c), label, got=got, want=f'one of {c!r}', nt=label if len(listed) > 1 else None)
    else:
        want = [('literal_error', (), {'expected': expected_repr(listed)})]
        R.check(got.kind == 'err' and got.v == want, label, got=got, want=want)


guard(Recorder('C23'), main)
