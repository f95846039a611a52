"""C22: binding of call arguments and dataclass arguments (oracle: the real Python call of the same signature, and a list of the expected errors)"""
from h import *
from pydantic_core import ArgsKwargs

LOG = []


def leaf(tag):
    def f(v, info):
        LOG.append((tag, v))
        if isinstance(v, str) and v.startswith('x'):
            raise PydanticCustomError('bad', 'bad')
        return (tag, v)
    f.__name__ = tag
    return cs.with_info_plain_validator_function(f)


class P:
    def __init__(self, name, mode, default, alias):
        self.name, self.mode, self.default, self.alias = name, mode, default, alias

    def __repr__(self):
        return f'{self.name}:{self.mode}{"=" + repr(self.default) if self.default is not None else ""}{"@" + self.alias if self.alias else ""}'

    def keys(self, ba, bn):
        ks = []
        if self.alias and ba:
            ks.append(self.alias)
        if not self.alias or bn:
            ks.append(self.name)
        return ks


def wrap(p):
    s = leaf(p.name)
    if p.default == 'val':
        return cs.with_default_schema(s, default=7, validate_default=True)
    if p.default == 'badval':
        return cs.with_default_schema(s, default='xd', validate_default=True)
    if p.default == 'plain':
        return cs.with_default_schema(s, default=('d', p.name))
    if p.default == 'fac':
        return cs.with_default_schema(s, default_factory=lambda: ('d', p.name))
    return s


def dflt(p):
    """-> (ok, value, log)"""
    return {'val': ((p.name, 7), None), 'badval': (None, 'bad'), 'plain': (('d', p.name), None), 'fac': (('d', p.name), None)}[p.default]


def gen_sig(rng):
    n = rng.randrange(0, 5)
    modes = sorted((rng.choice([0, 0, 1, 1, 1, 2]) for _ in range(n)))
    ps, had = [], False
    for i, m in enumerate(modes):
        d = None
        if rng.random() < .35 or (had and m < 2):
            d = rng.choice(['val', 'plain', 'fac', 'plain', 'badval'] if rng.random() < .3 else ['val', 'plain', 'fac'])
        if d and m < 2:
            had = True
        name = 'abcdef'[i]
        al = rng.choice([name.upper(), name + '_', 'abcdef'[(i + 1) % 6]]) if rng.random() < .3 and m != 0 else None
        ps.append(P(name, ('positional_only', 'positional_or_keyword', 'keyword_only')[m], d, al))
    return ps


def items(rng, n):
    return [rng.choice([1, 2, 3, 4, 5, 'x']) if rng.random() < .35 else rng.randrange(10) for _ in range(n)]


def bad(v):
    return isinstance(v, str) and v.startswith('x')


def oracle(ps, args, kw, va, vk, td, extra, ba, bn, lba):
    """-> ('ok', args, kwargs) or ('err', [(type, loc)]), values validated in order"""
    oa, ok_, errs, used, seen = [], {}, [], set(), []
    npos = sum(1 for p in ps if p.mode != 'keyword_only')
    for i, p in enumerate(ps):
        hp = p.mode != 'keyword_only' and i < len(args)
        k = None
        if p.mode != 'positional_only':
            k = next((x for x in p.keys(ba, bn) if x in kw), None)
            if k is not None:
                used.add(k)
        if hp and k is not None:
            errs.append(('multiple_argument_values', (p.name,)))
        elif hp:
            seen.append((p.name, args[i]))
            if bad(args[i]):
                errs.append(('bad', (i,)))
            else:
                oa.append((p.name, args[i]))
        elif k is not None:
            seen.append((p.name, kw[k]))
            if bad(kw[k]):
                errs.append(('bad', (k if lba else p.name,)))
            else:
                ok_[p.name] = (p.name, kw[k])
        elif p.default is not None:
            if p.default in ('val', 'badval'):
                seen.append((p.name, 7 if p.default == 'val' else 'xd'))
            v, e = dflt(p)
            if e:
                errs.append((e, None))
            elif p.mode == 'positional_only':
                oa.append(v)
            else:
                ok_[p.name] = v
        elif p.mode == 'positional_only':
            errs.append(('missing_positional_only_argument', (i,)))
        else:
            errs.append(('missing_argument' if p.mode == 'positional_or_keyword' else 'missing_keyword_only_argument', ((p.keys(ba, bn)[0] if lba else p.name),)))
    for i in range(npos, len(args)):
        if va:
            seen.append(('va', args[i]))
            if bad(args[i]):
                errs.append(('bad', (i,)))
            else:
                oa.append(('va', args[i]))
        else:
            errs.append(('unexpected_positional_argument', (i,)))
    rest = {k: v for k, v in kw.items() if k not in used}
    if td is not None:
        for f, req in td:
            if f in rest:
                seen.append(('td' + f, rest[f]))
                if bad(rest[f]):
                    errs.append(('bad', (f,)))
                else:
                    ok_[f] = ('td' + f, rest[f])
            elif req:
                errs.append(('missing', (f,)))
        for k in rest:
            if k not in dict(td):
                errs.append(('extra_forbidden', (k,)))
    else:
        for k, v in rest.items():
            if vk:
                seen.append(('vk', v))
                if bad(v):
                    errs.append(('bad', (k,)))
                else:
                    ok_[k] = ('vk', v)
            elif extra == 'forbid':
                errs.append(('unexpected_keyword_argument', (k,)))
    return (('err', errs) if errs else ('ok', tuple(oa), ok_)), seen


def errs_match(got, want):
    """same errors in the same order; None as a location is free"""
    return len(got) == len(want) and all(g[0] == w[0] and (w[1] is None or g[1] == w[1]) for g, w in zip(sorted(got, key=str), sorted(want, key=str))) if all(w[1] is not None for w in want) else \
        sorted(g[0] for g in got) == sorted(w[0] for w in want) and all((w in got) for w in want if w[1] is not None)


def real_call(ps, va, vk):
    """a Python function of this signature returning what each parameter got"""
    parts, star = [], False
    for i, p in enumerate(ps):
        if i and ps[i - 1].mode == 'positional_only' and p.mode != 'positional_only':
            parts.append('/')
        if p.mode == 'keyword_only' and not star:
            parts.append('*va' if va else '*')
            star = True
        parts.append(p.name + ('=DEF[%r]' % p.name if p.default else ''))
    if ps and ps[-1].mode == 'positional_only':
        parts.append('/')
    if va and not star:
        parts.append('*va')
    if vk:
        parts.append('**vk')
    ns = {'DEF': {p.name: dflt(p)[0] for p in ps if p.default}}
    exec(f'def f({", ".join(parts)}):\n return dict(locals())', ns)
    return ns['f']


def arguments(R):
    rng = R.rng
    for it in range(3500 if not THOROUGH else 40000):
        if R.out_of_time():
            return
        ps = gen_sig(rng)
        va = rng.random() < .4
        kmode = rng.choice(['none', 'none', 'uniform', 'td'])
        td = [(f, rng.random() < .5) for f in rng.sample(['m', 'n', 'z'], rng.randrange(1, 3))] if kmode == 'td' else None
        extra = rng.choice(['forbid', 'forbid', 'ignore', None])
        lba = rng.choice([True, True, False])
        sa, sn = rng.choice([(None, None), (None, None), (True, True), (False, True), (None, True)])
        cfg = {}
        if not lba:
            cfg['loc_by_alias'] = False
        kws = {}
        if va:
            kws['var_args_schema'] = leaf('va')
        if kmode == 'uniform':
            kws['var_kwargs_schema'] = leaf('vk')
        if kmode == 'td':
            kws.update(var_kwargs_mode='unpacked-typed-dict', var_kwargs_schema=cs.typed_dict_schema({f: cs.typed_dict_field(leaf('td' + f), required=r) for f, r in td}, extra_behavior='forbid'))
        if sa is not None:
            cfg['validate_by_alias'] = sa
        if sn is not None:
            cfg['validate_by_name'] = sn
        sch = cs.arguments_schema([cs.arguments_parameter(p.name, wrap(p), mode=p.mode, **({'alias': p.alias} if p.alias else {})) for p in ps], **kws)
        if extra:
            sch['extra_behavior'] = extra
        ba, bn = sa is not False, bool(sn)
        label0 = f'arguments {ps} va={va} kw={kmode}{td or ""} extra={extra} by={sa, sn} loc_by_alias={lba}'
        R.mark(label0)
        v = SchemaValidator(sch, cfg)
        f = real_call(ps, va, kmode != 'none')
        plain = all(p.default != 'badval' for p in ps)
        for _ in range(10):
            npos = sum(1 for p in ps if p.mode != 'keyword_only')
            args = items(rng, rng.choice([0, npos, max(0, npos - 1), npos + 1, rng.randrange(0, 6)]))
            pool = list(dict.fromkeys([p.name for p in ps] + [p.alias for p in ps if p.alias] + ['m', 'n', 'z', 'q']))
            kn = [p.keys(ba, bn)[0] for i, p in enumerate(ps) if p.mode != 'positional_only' and (i >= len(args) or p.mode == 'keyword_only') and rng.random() < .8]
            kn += rng.sample(pool, rng.choice([0, 0, 0, 1, 2]) if len(pool) > 1 else 0)
            if td and rng.random() < .7:
                kn += [a for a, r in td]
            rng.shuffle(kn)
            kn = list(dict.fromkeys(kn))
            kw = dict(zip(kn, items(rng, len(kn))))
            form = rng.choice(['ak', 'ak', 'ak', 'list', 'tuple', 'dict', 'jlist', 'jdict'])
            if form in ('list', 'tuple', 'jlist'):
                kw = {}
            if form in ('dict', 'jdict'):
                args = []
            inp = {'ak': lambda: ArgsKwargs(tuple(args), kw or None), 'list': lambda: list(args), 'tuple': lambda: tuple(args), 'dict': lambda: dict(kw), 'jlist': lambda: json.dumps(args), 'jdict': lambda: json.dumps(kw)}[form]()
            label = f'{label0} <- {form} {inp!r}'
            R.mark(label)
            del LOG[:]
            got = run(v.validate_json if form[0] == 'j' else v.validate_python, inp)
            log = list(LOG)
            want, seen = oracle(ps, args, kw, va, kmode == 'uniform', td, extra or 'forbid', ba, bn, lba)
            if want[0] == 'ok':
                # a parameter whose name is taken by a further keyword argument: the Python call could not be made
                clash = len(want[2]) and len(set(want[2])) < sum(1 for p in ps if 0)
                ok = got.ok and isinstance(got.v, tuple) and typed(got.v[0]) == typed(want[1]) and typed(dict(sorted(got.v[1].items()))) == typed(dict(sorted(want[2].items())))
            else:
                ok = got.kind == 'err' and errs_match(got.v, want[1])
            R.check(ok, label, label, got, want, R.n)
            R.check(sorted(map(repr, log)) == sorted(map(repr, seen)), 'validated once: ' + label, label, log, seen)
            # the call itself: what the parameters get
            if plain and not any(p.alias for p in ps) and extra in (None, 'forbid') and not td and not any(map(bad, args)) and not any(map(bad, kw.values())):
                try:
                    direct = f(*args, **kw)
                except TypeError:
                    direct = None
                R.check((direct is not None) == got.ok, 'Python call: ' + label, label, got, direct)
                if direct is not None and got.ok:
                    bound = f(*got.v[0], **got.v[1])
                    wantb = {}
                    for k, x in direct.items():
                        if k == 'va':
                            wantb[k] = tuple(('va', y) for y in x)
                        elif k == 'vk':
                            wantb[k] = {a: ('vk', y) for a, y in x.items()}
                        else:
                            wantb[k] = x if isinstance(x, tuple) else (k, x)
                    R.check(bound == wantb, 'Python call binds: ' + label, label, bound, wantb)


class F:
    def __init__(self, name, kw_only, init, init_only, default, alias):
        self.name, self.kw_only, self.init, self.init_only, self.default, self.alias = name, kw_only, init, init_only, default, alias

    def __repr__(self):
        return f'{self.name}{"" if self.kw_only else "/"}{"" if self.init else "!init"}{"?only" if self.init_only else ""}{"=" + self.default if self.default else ""}{"@" + self.alias if self.alias else ""}'

    keys = P.keys


def dc_oracle(fs, args, kw, extra, ev, ba, bn, lba, collect):
    out, only, errs, used, seen, pos = {}, [], [], set(), [], 0

    def put(f, v):
        if f.init_only:
            only.append(v)
        else:
            out[f.name] = v
    for f in fs:
        if not f.init:
            if f.default:
                if f.default in ('val', 'badval'):
                    seen.append((f.name, 7 if f.default == 'val' else 'xd'))
                v, e = dflt(f)
                if e:
                    errs.append((e, None))
                else:
                    put(f, v)
            continue
        hp = False
        if not f.kw_only:
            i, pos = pos, pos + 1
            hp = i < len(args)
        k = next((x for x in f.keys(ba, bn) if x in kw), None)
        if k is not None:
            used.add(k)
        if hp and k is not None:
            errs.append(('multiple_argument_values', (f.name,)))
        elif hp or k is not None:
            x = args[i] if hp else kw[k]
            seen.append((f.name, x))
            if bad(x):
                errs.append(('bad', (i,) if hp else (k if lba else f.name,)))
            else:
                put(f, (f.name, x))
        elif f.default:
            if f.default in ('val', 'badval'):
                seen.append((f.name, 7 if f.default == 'val' else 'xd'))
            v, e = dflt(f)
            if e:
                errs.append((e, None))
            else:
                put(f, v)
        else:
            errs.append(('missing', (f.keys(ba, bn)[0] if lba else f.name,)))
    for i in range(pos, len(args)):
        errs.append(('unexpected_positional_argument', (i,)))
    clash = False
    for k, v in kw.items():
        if k in used:
            continue
        if extra == 'forbid':
            errs.append(('unexpected_keyword_argument', (k,)))
        elif extra == 'allow':
            if k in [f.name for f in fs]:
                clash = clash or {}
                clash[k] = ('ev', v) if ev else v
            if ev:
                seen.append(('ev', v))
                if bad(v):
                    errs.append(('bad', (k,)))
                    continue
                v = ('ev', v)
            if k not in [f.name for f in fs]:
                out[k] = v
    return (('err', errs) if errs else ('ok', out, tuple(only) if collect else None)), seen, clash


def dataclass_args(R):
    rng = R.rng
    for it in range(3000 if not THOROUGH else 30000):
        if R.out_of_time():
            return
        n = rng.randrange(0, 6)
        fs = []
        for i in range(n):
            init = rng.random() < .8
            d = rng.choice(['val', 'plain', 'fac']) if rng.random() < (.35 if init else .7) else ('badval' if rng.random() < .04 else None)
            name = 'abcdef'[i]
            al = rng.choice([name.upper(), 'abcdef'[(i + 1) % 6]]) if rng.random() < .3 else None
            fs.append(F(name, rng.random() < .4, init, rng.random() < .2, d, al))
        extra = rng.choice(['forbid', 'ignore', 'allow', None])
        ev = extra == 'allow' and rng.random() < .5
        collect = rng.random() < .6
        lba = rng.random() < .7
        sa, sn = rng.choice([(None, None), (None, None), (True, True), (False, True), (None, True)])
        cfg = {}
        if not lba:
            cfg['loc_by_alias'] = False
        if sa is not None:
            cfg['validate_by_alias'] = sa
        if sn is not None:
            cfg['validate_by_name'] = sn
        kws = {}
        if extra:
            kws['extra_behavior'] = extra
        sch = cs.dataclass_args_schema('D', [cs.dataclass_field(f.name, wrap(f), kw_only=f.kw_only, init=f.init, init_only=f.init_only, **({'validation_alias': f.alias} if f.alias else {})) for f in fs], collect_init_only=collect, **kws)
        if ev:
            sch['extras_schema'] = leaf('ev')
        ba, bn = sa is not False, bool(sn)
        label0 = f'dataclass args {fs} extra={extra} ev={ev} collect={collect} by={sa, sn} loc_by_alias={lba}'
        R.mark(label0)
        v = SchemaValidator(sch, cfg)
        for _ in range(10):
            npos = sum(1 for f in fs if f.init and not f.kw_only)
            args = items(rng, rng.choice([0, npos, max(0, npos - 1), npos + 1, rng.randrange(0, 6)]))
            kn, i = [], 0
            for f in fs:
                if not f.init:
                    continue
                j = i
                if not f.kw_only:
                    i += 1
                if (f.kw_only or j >= len(args)) and rng.random() < .85:
                    kn.append(f.keys(ba, bn)[0])
            pool = [f.name for f in fs] + [f.alias for f in fs if f.alias] + ['m', 'n', 'q']
            kn += rng.sample(pool, rng.choice([0, 0, 1, 2]))
            rng.shuffle(kn)
            kn = list(dict.fromkeys(kn))
            kw = dict(zip(kn, items(rng, len(kn))))
            form = rng.choice(['ak', 'ak', 'ak', 'dict', 'jdict'])
            if form in ('dict', 'jdict'):
                args = []
            inp = {'ak': lambda: ArgsKwargs(tuple(args), kw or None), 'dict': lambda: dict(kw), 'jdict': lambda: json.dumps(kw)}[form]()
            label = f'{label0} <- {form} {inp!r}'
            R.mark(label)
            del LOG[:]
            got = run(v.validate_json if form[0] == 'j' else v.validate_python, inp)
            log = list(LOG)
            want, seen, clash = dc_oracle(fs, args, kw, extra or 'ignore', ev, ba, bn, lba, collect)
            if want[0] == 'ok':
                ok = got.ok and typed(dict(sorted(got.v[0].items()))) == typed(dict(sorted(want[1].items()))) and typed(got.v[1]) == typed(want[2])
            else:
                ok = got.kind == 'err' and errs_match(got.v, want[1])
            if clash and got.ok and want[0] == 'ok':     # the recorded finding is exactly: the extra is stored under the name of the field
                over = {**want[1], **clash}
                asfound = typed(dict(sorted(got.v[0].items()))) == typed(dict(sorted(over.items()))) and typed(got.v[1]) == typed(want[2])
            else:
                asfound = False
            R.check(ok, label, label, got, want, R.n, known='extra-named-as-field' if asfound else None)
            R.check(sorted(map(repr, log)) == sorted(map(repr, seen)), 'validated once: ' + label, label, log, seen)


class D:
    pass


def construct(R):
    """construction of dataclasses: attributes are those of the fields, init-only values go to __post_init__ in order"""
    import dataclasses
    rng = R.rng
    for it in range(400 if not THOROUGH else 4000):
        if R.out_of_time():
            return
        n = rng.randrange(1, 5)
        spec = [(f'f{i}', rng.random() < .4, rng.random() < .8, rng.random() < .3) for i in range(n)]     # name, kw_only, init, init_only
        ns, ann, order, had = {}, {}, [], False
        for nm, kw, init, io in spec:
            io = io and init
            # std dataclass: a field without default may not follow one with a default, so positional ones have none
            ann[nm] = dataclasses.InitVar[int] if io else int
            ns[nm] = dataclasses.field(kw_only=kw, **({} if init else {'init': False, 'default': 99}))
            if io:
                order.append(nm)
        posts = []
        ns['__annotations__'] = ann
        ns['__post_init__'] = lambda self, *a: posts.append(a)
        Dc = dataclasses.dataclass(type('Dc', (), ns))
        fs = [cs.dataclass_field(nm, cs.int_schema() if init else cs.with_default_schema(cs.int_schema(), default=99), kw_only=kw, init=init, init_only=io and init) for nm, kw, init, io in spec]
        sch = cs.dataclass_schema(Dc, cs.dataclass_args_schema('Dc', fs, collect_init_only=bool(order)), [nm for nm, kw, init, io in spec if not (io and init)], post_init=True)
        v = SchemaValidator(sch)
        for _ in range(6):
            npos = sum(1 for nm, kw, init, io in spec if init and not kw)
            k = rng.randrange(0, npos + 2)
            args = [rng.randrange(100) for _ in range(k)]
            names = [nm for nm, kw, init, io in spec if init and not kw][k:] + [nm for nm, kw, init, io in spec if init and kw]
            names = [x for x in names if rng.random() < .93] + ([rng.choice(spec)[0]] if rng.random() < .1 else [])
            rng.shuffle(names)
            kw = {x: rng.randrange(100) for x in names}
            label = f'construct {spec} <- {args} {kw}'
            R.mark(label)
            del posts[:]
            try:
                w = Dc(*args, **kw)
                want = ({**{nm: 99 for nm, kwo, init, io in spec if not init}, **w.__dict__}, list(posts))
            except TypeError:
                want = None
            # an init=False field given by keyword is no argument of the call: std dataclasses raise, here extras are ignored by default
            if any(x in kw for x, kwo, init, io in spec if not init):
                continue
            del posts[:]
            got = run(v.validate_python, ArgsKwargs(tuple(args), kw))
            if want is None:
                R.check(got.kind == 'err', label, label, got, want, R.n)
            else:
                R.check(got.ok and ({a: b for a, b in got.v.__dict__.items()}, list(posts)) == want, label, label, got.ok and (got.v.__dict__, list(posts)) or got, want, R.n)


def main(R):
    R.rules.append('random signatures (positional-only / keyword / keyword-only, defaults, aliases, *args, **kwargs, unpacked typed dict) x random calls as ArgsKwargs, list, tuple, dict, JSON against the real Python call and a list of the expected errors; '
                   'random dataclass fields (kw_only, init, init_only, defaults, aliases, extras); construction against std dataclasses')
    arguments(R)
    dataclass_args(R)
    construct(R)


R_ = Recorder('C22')
guard(R_, main)
