"""C14: assignment. The object before and after every assignment is compared with a dict model of it."""
from h import *
import itertools, dataclasses


class M:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'


class RM(M):
    __slots__ = ()


@dataclasses.dataclass
class D:
    a: object
    b: object
    c: object


@dataclasses.dataclass
class DS:
    __slots__ = ('a', 'b', 'c')
    a: object
    b: object
    c: object


def fld(x):
    """even ints pass doubled; 'omit' and odd ints and everything else fail"""
    if type(x) is int and x % 2 == 0:
        return 'ok', x * 2
    if x == 'boom':
        return 'exc', None
    return 'err', 'bad'


SEEN = []


def fn(x, info):
    SEEN.append((info.field_name, dict(info.data) if info.data is not None else None))
    k, v = fld(x)
    if k == 'ok':
        return v
    if k == 'exc':
        raise RuntimeError('boom')
    raise PydanticCustomError('bad', 'bad')


def fnx(x, info):
    SEEN.append((info.field_name, None))
    k, v = fld(x)
    if k == 'ok':
        return ('x', v)
    if k == 'exc':
        raise RuntimeError('boom')
    raise PydanticCustomError('badx', 'bad')


F = cs.with_info_plain_validator_function(fn)
FX = cs.with_info_plain_validator_function(fnx)
VALUES = [2, 4, 3, 'no', None, 'boom', [1], 0, -6]
NAMES = ['a', 'b', 'c', 'z', 'A', 'root', '', '__dict__x', 'ä']


def snap(m):
    return (dict(m.__dict__), dict(m.__pydantic_extra__) if isinstance(m.__pydantic_extra__, dict) else m.__pydantic_extra__, set(m.__pydantic_fields_set__))


def main(R):
    rng = R.rng
    R.rules.append('sequences of assignments to models (field and model frozen flags, extra behaviours, extras schemas, extras named like fields through aliases, root models), dataclasses (with and without slots, extras, non-field attributes) and model-fields validators; '
                   'after every assignment data, extras, set fields, order of keys, validator calls, info.data and field_name compared with a dict model; failures must leave everything equal')
    for frozen_model, fz, extra, xs in itertools.product((False, True), ((), ('b',), ('a', 'c')), (None, 'ignore', 'forbid', 'allow'), (False, True)):
        if xs and extra != 'allow':
            continue
        kw = {}
        if extra:
            kw['extra_behavior'] = extra
        if xs:
            kw['extras_schema'] = FX
        fields = {n: cs.model_field(cs.with_default_schema(F, default=0) if n == 'c' else F, frozen=n in fz or None, **({'validation_alias': 'A'} if n == 'a' else {})) for n in 'abc'}
        mf = cs.model_fields_schema(fields, **kw)
        v = SchemaValidator(cs.model_schema(M, mf, frozen=frozen_model or None))
        vf = SchemaValidator(mf)
        for it in range(250 if not THOROUGH else 3000):
            inp = {'A': rng.choice((2, 4, 8)), 'b': rng.choice((2, 6))}
            if rng.random() < .5:
                inp['c'] = 10
            if extra == 'allow' and rng.random() < .8:
                inp['z'] = rng.choice((2, 6))
                if rng.random() < .5:
                    inp['y'] = 4
                if rng.random() < .5:
                    inp['a'] = 12   # an extra named like a field
            label0 = f'model frozen={frozen_model} frozen fields={fz} extra={extra} extras_schema={xs} input={inp}'
            R.mark(label0)
            m = run(v.validate_python, inp)
            if not m.ok:
                R.check(False, label0, got=m, want='valid')
                continue
            m = m.v
            d, x, s = snap(m)
            for step in range(5):
                name, val = rng.choice(NAMES), rng.choice(VALUES)
                label = f'{label0} state={(d, x, s)} assign {name}={val!r}'
                R.mark(label)
                SEEN.clear()
                got = run(v.validate_assignment, m, name, val)
                seen = list(SEEN)
                nt = repr((frozen_model, fz, extra, xs, name, val, step, it))
                now = snap(m)
                if frozen_model:
                    R.check(got == ERR('frozen_instance') and not seen and now == (d, x, s), label, got=(got, seen, now), want='frozen_instance and nothing changed', nt=nt)
                    continue
                k, res = fld(val)
                if name in 'abc' and name:
                    if name in fz:
                        want = ERR(('frozen_field', (name,)))
                        k = 'frozen'
                    elif k == 'err':
                        want = ERR(('bad', (name,)))
                elif extra != 'allow':
                    want, k = ERR(('no_such_attribute', (name,))), 'nosuch'
                elif xs:
                    if k == 'err':
                        want = ERR(('badx', (name,)))
                    res = ('x', res)
                else:
                    k, res = 'ok', val
                if k == 'ok':
                    if name in d:
                        d = {**d, name: res}
                    elif name in fields:
                        d = {**d, name: res}
                    else:
                        x = {**x, name: res}
                    s = s | {name}
                    R.check(got.ok and got.v is m, label + ' result', got=got, want='the model')
                    R.check(now == (d, x, s), label, got=now, want=(d, x, s), nt=nt)
                elif k == 'exc':
                    R.check(got.kind == 'exc' and 'boom' in got.v and now == (d, x, s), label, got=(got, now), want=('exception', (d, x, s)), nt=nt)
                else:
                    R.check(got == want and now == (d, x, s), label, got=(got, now), want=(want, (d, x, s)), nt=nt)
                called = name in fields and name not in fz or (name and name not in fields and xs) or (name == '' and xs)
                R.check(len(seen) == (1 if called else 0), label + ' validator calls', got=seen, want=1 if called else 0)
                if called and seen and name in fields:
                    dd = {kk: vv for kk, vv in snap(m)[0].items() if kk != name}
                    R.check(seen[0][0] == name and {kk: vv for kk, vv in (seen[0][1] or {}).items() if kk in fields} == dd, label + ' info', got=seen[0], want=(name, dd))
                d, x, s = snap(m) if not (now == (d, x, s)) else (d, x, s)
            # the fields validator directly, on a dict of the data
            base = {n: q for n, q in (('a', 1), ('b', 2), ('c', 3)) if rng.random() < .8}
            if extra == 'allow':
                base['z'] = 9
            name, val = rng.choice(NAMES), rng.choice(VALUES)
            before = dict(base)
            SEEN.clear()
            got = run(vf.validate_assignment, base, name, val)
            k, res = fld(val)
            if SEEN and name in fields:
                dd = {n: q for n, q in before.items() if n != name}
                R.check(SEEN[0][0] == name and SEEN[0][1] == dd, f'data seen on assigning {name} to {before}', got=SEEN[0], want=(name, dd))
            label = f'model-fields frozen fields={fz} extra={extra} extras_schema={xs} data={before} assign {name}={val!r}'
            R.mark(label)
            if name in fields:
                want = ERR(('frozen_field', (name,))) if name in fz else ERR(('bad', (name,))) if k == 'err' else None
            elif extra != 'allow':
                want, k = ERR(('no_such_attribute', (name,))), 'x'
            elif xs:
                want, res = ERR(('badx', (name,))) if k == 'err' else None, ('x', res)
            else:
                want, k, res = None, 'ok', val
            if want is not None:
                R.check(got == want and base == before, label, got=(got, base), want=(want, before), nt=label)
            elif k == 'ok':
                full = {**before, name: res}
                wd = {n: q for n, q in full.items() if n in fields}
                wx = {n: q for n, q in full.items() if n not in fields} if extra == 'allow' else None
                R.check(got.ok and got.v == (wd, wx, {name}), label, got=got, want=(wd, wx, {name}), nt=label)
            if R.out_of_time():
                return
    # root models
    for frozen in (False, True):
        v = SchemaValidator(cs.model_schema(RM, cs.with_default_schema(F, default=7), root_model=True, frozen=frozen or None))
        for it in range(60):
            start = rng.choice((2, PydanticUndefined))
            m = v.validate_python(start)
            r, s = m.root, set(m.__pydantic_fields_set__)
            for step in range(3):
                name, val = rng.choice(['root', 'root', 'a', 'Root', '']), rng.choice(VALUES)
                label = f'root model frozen={frozen} root={r!r} set={s} assign {name}={val!r}'
                R.mark(label)
                SEEN.clear()
                got = run(v.validate_assignment, m, name, val)
                k, res = fld(val)
                if frozen:
                    want = ERR('frozen_instance')
                elif name != 'root':
                    want = ERR(('no_such_attribute', (name,)))
                elif k == 'err':
                    want = ERR('bad')
                else:
                    want = None
                    if k == 'ok':
                        r, s = res, s | {'root'}
                        R.check(got.ok and got.v is m and SEEN[0][0] == 'root', label + ' result', got=got, want='the model')
                now = (m.root, set(m.__pydantic_fields_set__))
                R.check((want is None or got == want) and now == (r, s), label, got=(got, now), want=(want, r, s), nt=label)
    # dataclasses
    for cls, frozen, fz, extra in itertools.product((D, DS), (False, True), ((), ('b',)), (None, 'ignore', 'forbid', 'allow')):
        slots = cls is DS
        if slots and extra == 'allow':
            continue
        kw = {'extra_behavior': extra} if extra else {}
        fields = [cs.dataclass_field(n, cs.with_default_schema(F, default=0) if n == 'c' else F, frozen=n in fz or None) for n in 'abc']
        v = SchemaValidator(cs.dataclass_schema(cls, cs.dataclass_args_schema('D', fields, **kw), ['a', 'b', 'c'], slots=slots, frozen=frozen or None))
        for it in range(150):
            inp = {'a': 2, 'b': 4}
            if extra == 'allow' and rng.random() < .5:
                inp['z'] = 6
            o = v.validate_python(inp)
            if not slots and rng.random() < .6:
                o.__dict__['other'] = [1]
            st = (lambda: dict(o.__dict__)) if not slots else (lambda: {n: getattr(o, n) for n in 'abc'})
            d = st()
            for step in range(4):
                name, val = rng.choice(['a', 'b', 'c', 'z', '', 'ä']), rng.choice(VALUES)
                label = f'dataclass slots={slots} frozen={frozen} frozen fields={fz} extra={extra} state={d} assign {name}={val!r}'
                R.mark(label)
                SEEN.clear()
                got = run(v.validate_assignment, o, name, val)
                k, res = fld(val)
                if frozen:
                    want = ERR('frozen_instance')
                elif name in ('a', 'b', 'c'):
                    want = ERR(('frozen_field', (name,))) if name in fz else ERR(('bad', (name,))) if k == 'err' else None
                elif extra != 'allow':
                    want = ERR(('no_such_attribute', (name,)))
                else:
                    want, k, res = None, 'ok', val
                if want is None and k == 'ok':
                    d = {**d, name: res}
                    R.check(got.ok and got.v is o, label + ' result', got=got, want='the object')
                    if name in ('a', 'b', 'c'):
                        R.check(len(SEEN) == 1 and SEEN[0][0] == name and {q: w for q, w in SEEN[0][1].items()} == {q: w for q, w in d.items() if q in 'abc' and q and q != name}, label + ' info', got=SEEN, want=d)
                now = st()
                R.check((want is None or got == want) and now == d, label, got=(got, now), want=(want, d), nt=label)
                d = now


if __name__ == '__main__':
    R = Recorder('C14')
    guard(R, main)
