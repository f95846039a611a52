"""oracle and generator for field schemas (model fields, typed dicts): the executable reading of C12, C13 and C21"""
from h import *
from collections.abc import Mapping
from pydantic_core import PydanticOmit


class Mp(Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __repr__(self):
        return f'Mp({self.d!r})'


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __repr__(self):
        return f'Obj({self.__dict__!r})'


class Evil(Obj):
    @property
    def zz(self):
        raise RuntimeError('no')


CALLS = []


def inner(v):
    CALLS.append(v)
    if type(v) is str and v.isdigit():
        v = int(v)
    if type(v) is int:
        return v + 1
    if v is None:
        raise PydanticOmit()
    raise PydanticCustomError('bad', 'bad')


VAL = cs.no_info_plain_validator_function(inner)
MISSING = object()
ERRMARK = object()


def inner_o(v):
    """-> ('ok', value) | ('omit',) | ('err',)"""
    if type(v) is str and v.isdigit():
        v = int(v)
    if type(v) is int:
        return 'ok', v + 1
    if v is None:
        return ('omit',)
    return ('err',)


def paths_of(alias, name, by_alias, by_name):
    """alternative paths, in order"""
    out = []
    if by_alias and alias is not None:
        if isinstance(alias, str):
            out.append([alias])
        elif alias and isinstance(alias[0], str):
            out.append(list(alias))
        else:
            out += [list(x) for x in alias]
    if alias is None or by_name or not by_alias:
        out.append([name])
    return out


def step_py(v, s):
    if isinstance(v, str):
        return MISSING
    try:
        return v[s]
    except Exception:
        return MISSING


def step_json(v, s):
    if isinstance(v, dict):
        return v[s] if isinstance(s, str) and s in v else MISSING
    if isinstance(v, list):
        if isinstance(s, str) or not -len(v) <= s < len(v):
            return MISSING
        return v[s]
    return MISSING


def step_attr(v, s):
    if isinstance(s, str) and not isinstance(v, dict):
        try:
            return getattr(v, s)
        except AttributeError:
            return MISSING
        except RuntimeError:
            return ERRMARK
    return step_py(v, s)


def resolve(paths, data, mode):
    """-> (path, value) | None | ERRMARK"""
    for p in paths:
        v = data
        for i, s in enumerate(p):
            if mode == 'attr':
                v = step_attr(v, s)
                if v is ERRMARK:
                    return ERRMARK
            elif mode == 'json':
                v = step_json(v, s)
            elif i == 0:
                v = v[s] if s in v else MISSING
            else:
                v = step_py(v, s)
            if v is MISSING:
                break
        else:
            return p, v
    return None


def oracle(fields, extra, exs, exk, loc_by_alias, by_alias, by_name, data, mode, typed_dict):
    """-> (errors, {name: value}, {extra: value}, set of names, calls)"""
    errs, vals, ex, fset, calls = [], {}, {}, set(), []
    used = set()
    for f in fields:
        ps = paths_of(f['alias'], f['name'], by_alias, by_name)
        r = resolve(ps, data, mode)
        if r is ERRMARK:
            errs.append(('get_attribute_error', (f['name'],)))
            continue
        if r is None:
            if f['kind'] == 'default':
                vals[f['name']] = 100
            elif f['kind'] == 'req':
                errs.append(('missing', tuple(ps[0]) if loc_by_alias else (f['name'],)))
            continue
        path, v = r
        used.add(path[0])
        calls.append(v)
        o = inner_o(v)
        if o[0] == 'ok':
            vals[f['name']] = o[1]
            fset.add(f['name'])
        elif o[0] == 'err':
            errs.append(('bad', tuple(path) if loc_by_alias else (f['name'],)))
    if mode != 'attr' and extra != 'ignore':
        for k, v in data.items():
            if not isinstance(k, str):
                errs.append(('invalid_key', (k,)))
                continue
            if k in used:
                continue
            if extra == 'forbid':
                errs.append(('extra_forbidden', (k,)))
                continue
            kk = k
            if exk:
                if len(k) > 1:
                    errs.append(('bad_key', (k,)))
                    continue
                kk = k + k
            if exs:
                calls.append(v)
                o = inner_o(v)
                if o[0] == 'ok':
                    ex[kk] = o[1]
                    fset.add(kk)
                elif o[0] == 'err':
                    errs.append(('bad', (k,)))
                else:
                    return 'omit', None, None, None, None
            else:
                ex[kk] = v
                fset.add(kk)
    return errs, vals, ex, fset, calls


def keyfn(k):
    if len(k) > 1:
        raise PydanticCustomError('bad_key', 'bad_key')
    return k + k


NAMES = ['a', 'b', 'c', 'd', 'zz', '', 'é']


def gen_alias(rng, paths):
    r = rng.random()
    if r < 0.35:
        return None
    if r < (0.75 if not paths else 0.45):
        return rng.choice(NAMES)
    def one():
        return [rng.choice(NAMES)] + [rng.choice(NAMES + [0, 1, -1, -2, 2, -3]) for _ in range(rng.randrange(0, 4))]
    if r < 0.8:
        return one()
    return [one() for _ in range(rng.randrange(1, 4))]


def gen_val(rng, depth=0):
    r = rng.random()
    if r < 0.45 or depth > 3:
        return rng.choice([1, 2, 30, 'x', None, 'abc', '7', 1.5, True])
    if r < 0.72:
        return {rng.choice(NAMES): gen_val(rng, depth + 1) for _ in range(rng.randrange(0, 4))}
    return [gen_val(rng, depth + 1) for _ in range(rng.randrange(0, 4))]


def gen_input(rng, flat):
    ks = rng.sample(NAMES + ['e', 'ff'], rng.randrange(0, 6))
    if flat:
        return {k: rng.choice([1, 5, 'x', None, '7', [1], {'a': 1}]) for k in ks}
    return {k: gen_val(rng) for k in ks}


def to_obj(x):
    if isinstance(x, dict):
        if not all(isinstance(k, str) for k in x):
            return {k: to_obj(v) for k, v in x.items()}
        return Obj(**{k: to_obj(v) for k, v in x.items()})
    if isinstance(x, list):
        return [to_obj(v) for v in x]
    return x


def gen_fields(rng, paths, typed_dict):
    names = rng.sample(NAMES[:4] if rng.random() < 0.7 else NAMES, rng.randrange(1, 5))
    return [{'name': n, 'alias': gen_alias(rng, paths), 'kind': rng.choice(['req', 'req', 'default'] + (['optional'] if typed_dict else [])), 'via_total': rng.random() < 0.5} for n in names]


def build(fields, typed_dict, extra, exs, exk, cfg, total):
    fs = {}
    for f in fields:
        sch = cs.with_default_schema(VAL, default=100) if f['kind'] == 'default' else VAL
        kw = {}
        if f['alias'] is not None:
            kw['validation_alias'] = f['alias']
        if typed_dict:
            req = f['kind'] == 'req'
            if f['kind'] == 'default':
                if rng_bool(f):
                    kw['required'] = False
            elif not (f['via_total'] and req == total):
                kw['required'] = req
            fs[f['name']] = cs.typed_dict_field(sch, **kw)
        else:
            fs[f['name']] = cs.model_field(sch, **kw)
    kw = {}
    if extra is not None:
        kw['extra_behavior'] = extra
    if exs:
        kw['extras_schema'] = VAL
    if typed_dict:
        return SchemaValidator(cs.typed_dict_schema(fs, config=cfg, total=total, **kw))
    if exk:
        kw['extras_keys_schema'] = cs.no_info_plain_validator_function(keyfn)
    return SchemaValidator(cs.model_fields_schema(fs, **kw), cfg)


def rng_bool(f):
    return f['via_total']


def drive(R, typed_dict, paths, n):
    rng = R.rng
    for it in range(n):
        if R.out_of_time():
            break
        fields = gen_fields(rng, paths, typed_dict)
        extra_s = rng.choice([None, 'ignore', 'allow', 'forbid'])
        extra_c = rng.choice([None, 'ignore', 'allow', 'forbid'])
        extra = extra_s or extra_c or 'ignore'
        exs = extra == 'allow' and rng.random() < 0.4
        exk = extra == 'allow' and not typed_dict and rng.random() < 0.3
        cfg = {}
        if extra_c:
            cfg['extra_fields_behavior'] = extra_c
        lba = True
        if rng.random() < 0.4:
            lba = cfg['loc_by_alias'] = rng.random() < 0.5
        ba, bn = True, False
        if rng.random() < 0.5:
            ba, bn = rng.choice([(True, False), (True, True), (False, True)])
            cfg['validate_by_alias'], cfg['validate_by_name'] = ba, bn
        total = rng.random() < 0.6
        try:
            v = build(fields, typed_dict, extra_s, exs, exk, cfg, total)
        except SchemaError as e:
            R.check(False, f'schema is buildable {fields} {cfg}', got=str(e), want='a validator')
            continue
        for j in range(6):
            data = gen_input(rng, not paths)
            kw = {}
            cba, cbn = ba, bn
            if rng.random() < 0.3:
                cba, cbn = rng.choice([(True, False), (True, True), (False, True)])
                kw = {'by_alias': cba, 'by_name': cbn}
            elif rng.random() < 0.15 and ba:
                cbn = rng.random() < 0.5
                kw = {'by_name': cbn}
            js = json.dumps(data)
            if rng.random() < 0.2 and data:
                # a duplicate key: the last one counts
                k = rng.choice(list(data))
                if extra == 'ignore':
                    js = '{"%s": "dup", ' % k + js[1:]
            modes = [('py', v.validate_python, data, data), ('py', v.validate_python, Mp(data), data), ('json', v.validate_json, js, data)]
            pd = dict(data)
            if rng.random() < 0.2:
                pd[rng.choice([1, (2,), 7])] = 5
                modes.append(('py', v.validate_python, pd, {k if not isinstance(k, tuple) else k: x for k, x in pd.items()}))
            if not typed_dict:
                o = to_obj(data)
                modes.append(('attr', lambda x, **k: v.validate_python(x, from_attributes=True, **k), o, o))
                if rng.random() < 0.2:
                    e = Evil(**{k: x for k, x in o.__dict__.items() if k != 'zz'})
                    modes.append(('attr', lambda x, **k: v.validate_python(x, from_attributes=True, **k), e, e))
            for mode, fn, x, d in modes:
                label = f'{mode} {type(x).__name__} fields={fields} extra={extra_s}/{extra_c} extras_schema={exs} keys_schema={exk} config={cfg} call={kw} total={total} input={x!r}'
                R.mark(label)
                before = repr(x)
                errs, vals, ex, fset, calls = oracle(fields, extra, exs, exk, lba, cba, cbn, d, mode, typed_dict)
                CALLS.clear()
                got = run(fn, x, **kw)
                c = list(CALLS)
                if errs == 'omit':
                    continue
                errs = [(t, tuple(str(l) if isinstance(l, tuple) else l for l in loc)) for t, loc in errs]
                if errs:
                    R.same(label, got, Out('err', errs), nt=(label if it < 300 else None))
                else:
                    if typed_dict:
                        R.same(label, got, OK({**vals, **ex}) if not set(vals) & set(ex) else got)
                        w = {**vals, **ex}
                    else:
                        want = (vals, ex if extra == 'allow' else None, fset)
                        R.same(label, got, OK(want), nt=(label if it < 300 else None))
                R.check(c == calls, label + ' (validations)', got=c, want=calls)
                R.check(repr(x) == before, label + ' (input unchanged)', got=repr(x), want=before)
