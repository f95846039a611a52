"""C07: unions. The expected outcome of a union is computed from the outcomes of its members validated alone, plus a table of
exactness of leaf conversions (documented: exact type > strict conversion > lax conversion)."""
from h import *
import itertools

LAX, STRICT, EXACT = 0, 1, 2


class S(str):
    pass


class M:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'

    def __eq__(self, o):
        return type(self) is type(o) and self.__dict__ == o.__dict__ and self.__pydantic_fields_set__ == o.__pydantic_fields_set__

    def __hash__(self):
        return 1

    def __repr__(self):
        return f'{type(self).__name__}({self.__dict__})'


class MA(M):
    pass


class MB(M):
    pass


class Member:
    """a schema with its exactness / fields-set oracle"""

    def __init__(self, schema, label, ex, fs=None):
        self.schema, self.label, self.ex, self.fs = schema, label, ex, fs or (lambda x, js: None)
        self.v = SchemaValidator(schema)


def ex_int(x, js):
    return EXACT if type(x) is int else LAX


def ex_float(x, js):
    return EXACT if type(x) is float else STRICT if type(x) is int else LAX


def ex_str(x, js):
    return EXACT if type(x) is str and not js else STRICT if isinstance(x, str) else LAX


def ex_bool(x, js):
    return EXACT if type(x) is bool else LAX


LEAVES = [('int', cs.int_schema(), ex_int), ('float', cs.float_schema(), ex_float), ('str', cs.str_schema(), ex_str), ('bool', cs.bool_schema(), ex_bool),
          ('none', cs.none_schema(), lambda x, js: EXACT), ('any', cs.any_schema(), lambda x, js: STRICT),
          ('gt5', cs.int_schema(gt=5), ex_int), ('upper', cs.str_schema(to_upper=True), ex_str), ('date', cs.date_schema(), lambda x, js: (STRICT if type(x) is str else LAX) if js else LAX)]


def leaf(i):
    n, s, e = LEAVES[i]
    return Member(s, n, e)


def lst(m):
    return Member(cs.list_schema(m.schema), 'list_' + m.label, lambda x, js: EXACT if m.label == 'any' else min([EXACT] + [m.ex(i, js) for i in x]), lambda x, js: addf([m.fs(i, js) for i in x]))


def addf(xs):
    xs = [x for x in xs if x is not None]
    return sum(xs) if xs else None


def td(fields, total=True):
    """fields: {name: (Member, required)}"""
    sch = cs.typed_dict_schema({k: cs.typed_dict_field(m.schema, required=r) for k, (m, r) in fields.items()})
    return Member(sch, 'td_' + '_'.join(f'{k}{m.label}{int(r)}' for k, (m, r) in fields.items()),
                  lambda x, js: min([EXACT] + [m.ex(x[k], js) for k, (m, r) in fields.items() if k in x]),
                  lambda x, js: addf([sum(k in x for k in fields)] + [m.fs(x[k], js) for k, (m, r) in fields.items() if k in x]))


def model(cls, fields):
    sch = cs.model_schema(cls, cs.model_fields_schema({k: cs.model_field(m.schema if r else cs.with_default_schema(m.schema, default=None)) for k, (m, r) in fields.items()}))
    return Member(sch, cls.__name__ + '_' + '_'.join(f'{k}{m.label}{int(r)}' for k, (m, r) in fields.items()), lambda x, js: min([STRICT] + [m.ex(x[k], js) for k, (m, r) in fields.items() if k in x]),
                  lambda x, js: addf([sum(k in x for k in fields)] + [m.fs(x[k], js) for k, (m, r) in fields.items() if k in x]))


def smart(outs):
    """outs: [(ok, value/errors, exactness, fields set)] -> index of the winner or None"""
    best = None
    for i, (ok, v, ex, fs) in enumerate(outs):
        if not ok:
            continue
        if ex == EXACT and fs is None:
            return i
        if best is None:
            best = i
            continue
        bex, bfs = outs[best][2], outs[best][3]
        if bfs is not None and fs is not None and bfs != fs:
            if fs > bfs:
                best = i
        elif ex > bex:
            best = i
    return best


def union_of(members, mode, custom=False, nolabel=False):
    ch = [(m.schema, m.label) for m in members]
    kw = dict(custom_error_type='cu', custom_error_message='cu') if custom else {}
    sch = cs.union_schema(ch, mode=mode, auto_collapse=False, **kw)

    def outs(x, js, raw=None):
        res = []
        for m in members:
            r = run(m.v.validate_json if js else m.v.validate_python, raw if js else x)
            res.append((r.ok, r.v, m.ex(x, js) if r.ok else None, m.fs(x, js) if r.ok else None, r.kind))
        return res

    def pick(x, js, raw=None):
        o = outs(x, js, raw)
        if mode == 'smart':
            return o, smart([t[:4] for t in o])
        for i, t in enumerate(o):
            if t[0]:
                return o, i
        return o, None

    def ex(x, js):
        o, i = pick(x, js, json.dumps(x) if js else None)
        return o[i][2] if i is not None else LAX

    def fs(x, js):
        o, i = pick(x, js, json.dumps(x) if js else None)
        return o[i][3] if i is not None else None
    m = Member(sch, 'u' + mode[0] + '_' + '_'.join(k.label for k in members), ex, fs)
    m.pick, m.members, m.custom = pick, members, custom
    return m


def check(R, u, x, js):
    raw = json.dumps(x) if js else None
    label = f'{"json" if js else "python"} union {u.label} on {x!r} ({type(x).__name__})'
    R.mark(label)
    got = run(u.v.validate_json if js else u.v.validate_python, raw if js else x)
    o, i = u.pick(x, js, raw)
    if any(t[4] == 'exc' for t in o):
        return
    if i is not None:
        want = OK(o[i][1])
    elif u.custom:
        want = ERR(('cu', ()))
    else:
        want = ERR(*[(t, (m.label,) + loc) for m, r in zip(u.members, o) for t, loc in r[1]])
    R.same(label, got, want, nt=f'{u.label}|{x!r}|{js}' if i else None)


def main(R):
    rng = R.rng
    R.rules.append('unions of 2-4 members (leaves, lists, typed dicts, models, nested unions) in both modes, python and JSON; the expected outcome is computed from the members validated alone and a table of leaf exactness')
    scal = [0, 1, 2, 7, -3, True, False, 1.0, 1.5, 6.0, '1', '7', 'x', 'true', '1.5', None, '2020-01-01', S('7'), S('z'), b'1', 2 ** 70, '', [], {}]
    js_ok = lambda x: json.loads(json.dumps(x)) == x and not isinstance(x, S)
    jscal = [x for x in scal if not isinstance(x, (bytes, S))]
    L = [leaf(i) for i in range(len(LEAVES))]
    n = 0
    for k in (2, 3):
        for combo in itertools.permutations(range(len(L)), k):
            if k == 3 and not THOROUGH and rng.random() > 0.25:
                continue
            for mode in ('smart', 'left_to_right'):
                u = union_of([L[i] for i in combo], mode, custom=rng.random() < 0.1)
                for x in scal:
                    check(R, u, x, False)
                for x in jscal:
                    check(R, u, x, True)
    # composites

    def rnd_scalar():
        return rng.choice([1, 7, True, 1.0, 6.0, '1', '7', 'x', None, 'true'])

    def rnd_member(d):
        r = rng.random()
        if d <= 0 or r < 0.25:
            return leaf(rng.randrange(len(LEAVES)))
        if r < 0.45:
            return lst(rnd_member(d - 1))
        if r < 0.7:
            return td({k: (rnd_member(d - 1), rng.random() < 0.5) for k in rng.sample('abcd', rng.randrange(1, 4))})
        if r < 0.8:
            return model(rng.choice([MA, MB]), {k: (rnd_member(d - 1), rng.random() < 0.5) for k in rng.sample('abcd', rng.randrange(1, 4))})
        return union_of([rnd_member(d - 1) for _ in range(rng.randrange(2, 4))], rng.choice(['smart', 'left_to_right']))

    def rnd_value(d):
        r = rng.random()
        if d <= 0 or r < 0.2:
            return rnd_scalar()
        if r < 0.5:
            return [rnd_value(d - 1) for _ in range(rng.randrange(0, 4))]
        return {k: rnd_value(d - 1) for k in rng.sample('abcd', rng.randrange(0, 5))}

    N = 700 if not THOROUGH else 12000
    for _ in range(N):
        if R.out_of_time():
            break
        ms = [rnd_member(2) for _ in range(rng.randrange(2, 5))]
        if len({m.label for m in ms}) != len(ms):
            continue
        u = union_of(ms, rng.choice(['smart', 'smart', 'left_to_right']), custom=rng.random() < 0.05)
        for _ in range(12):
            x = rnd_value(3)
            check(R, u, x, False)
            check(R, u, x, True)
    # wide members: many fields set, ties and near ties
    W = 'abcdefghijkl'
    sc = [i for i, l in enumerate(LEAVES) if l[0] in ('int', 'str', 'float', 'any', 'bool')]
    for _ in range(250 if not THOROUGH else 5000):
        if R.out_of_time():
            break
        n = rng.randrange(4, 13)
        ms = []
        for j in range(rng.randrange(2, 5)):
            fs = {k: (leaf(rng.choice(sc) if rng.random() < 0.5 else 0), rng.random() < 0.4) for k in W[:max(1, n - rng.choice([0, 0, 0, 1, 2]))]}
            ms.append(td(fs) if rng.random() < 0.5 else model([MA, MB][j % 2], fs))
        if len({m.label for m in ms}) != len(ms):
            continue
        u = union_of(ms, 'smart')
        for _ in range(8):
            x = {k: rng.choice([1, 1, 1, 0, '1']) for k in W[:n] if rng.random() < 0.95}
            check(R, u, x, False)
            check(R, u, x, True)
    # attempts that ask to be omitted or end otherwise leave no trace
    om = cs.with_default_schema(cs.int_schema(), on_error='omit')
    for inner_mode in ('smart', 'left_to_right'):
        for auto in (True, False):
            it = cs.union_schema([om, cs.none_schema()], mode=inner_mode)
            v = SchemaValidator(cs.union_schema([cs.list_schema(it), cs.list_schema(cs.str_schema())]))
            for x in (['1', 'x'], ['x', '1'], ['1', 'x', 'y'], ['x']):
                # choice 1 omits the 'x' items: lax because of '1'
                lax = '1' in x
                want = OK(list(x)) if lax else OK([])
                R.same(f'omit in {inner_mode} union inside list inside union: {x!r}', run(v.validate_python, x), want)
    v = SchemaValidator(cs.union_schema([cs.union_schema([cs.list_schema(cs.int_schema()), cs.list_schema(cs.str_schema())], mode='left_to_right'), cs.list_schema(cs.str_schema(to_upper=True))]))
    R.same('a failed left-to-right attempt', run(v.validate_python, ['1', 'x']), OK(['1', 'x']))
    # every error of a failing function member propagates at once

    def boom(x):
        raise RuntimeError('boom')
    for mode in ('smart', 'left_to_right'):
        v = SchemaValidator(cs.union_schema([cs.int_schema(), cs.no_info_plain_validator_function(boom), cs.str_schema()], mode=mode))
        R.same(f'{mode} exception', run(v.validate_python, 'x').kind, 'exc')
        R.same(f'{mode} exception not reached', run(v.validate_python, 1), OK(1))


guard(Recorder('C07'), main)
