"""C26: partial validation (oracle: a direct Python reading of the documented rules over the parsed prefix)"""
from h import *


def leaf(v):
    if isinstance(v, str):
        raise PydanticCustomError('bad', 'bad')
    return ('L', v)


def keyf(k):
    if k.startswith('!'):
        raise PydanticCustomError('badkey', 'badkey')
    return k.upper()


LEAF, KEY = cs.no_info_plain_validator_function(leaf), cs.no_info_plain_validator_function(keyf)


class S:
    """a schema of the reference: kind, core schema, children"""
    def __init__(self, kind, core, kids=(), **x):
        self.kind, self.core, self.kids, self.x = kind, core, kids, x

    def __repr__(self):
        return f'{self.kind}{list(self.kids) if self.kids else ""}{self.x or ""}'


def has_default(a):
    return bool(a.x.get('default'))


def gen(rng, d):
    k = rng.choice(['leaf', 'any', 'list', 'dict', 'td', 'list', 'dict', 'td', 'tuple', 'nullable', 'union', 'default', 'ref', 'set', 'before', 'wrap', 'tagged', 'lax', 'model', 'chainless'] if d > 0 else ['leaf', 'leaf', 'any'])
    if k in ('leaf', 'chainless'):
        return S('leaf', LEAF)
    if k == 'any':
        return S('any', cs.any_schema())
    if k == 'list':
        a, ff = gen(rng, d - 1), rng.random() < .25
        return S('list', cs.list_schema(a.core, fail_fast=ff), (a,), ff=ff)
    if k == 'set':
        ff = rng.random() < .25
        a = S('leaf', LEAF)
        if rng.random() < .6:       # an item that can be incomplete itself and still be hashable
            b = S('list', cs.list_schema(LEAF), (a,), ff=False)
            a = S('astuple', cs.no_info_after_validator_function(lambda v: ('T', *v), b.core), (b,))
        return S('set', (cs.set_schema if rng.random() < .5 else cs.frozenset_schema)(a.core, fail_fast=ff), (a,), ff=ff)
    if k == 'dict':
        a = gen(rng, d - 1)
        kf = rng.random() < .5
        return S('dict', cs.dict_schema(KEY if kf else cs.any_schema(), a.core), (a,), kf=kf)
    if k == 'td':
        n = rng.randrange(1, 4)
        names = rng.sample('abcd', n)
        fs = []
        for m in names:
            a = gen(rng, d - 1)
            core = a.core
            fs.append((m, a, rng.random() < .4 and not has_default(a), m.upper() if rng.random() < .3 else m))
        ex = rng.choice(['ignore', 'forbid', 'allow', 'allow'])
        ea = gen(rng, d - 1) if ex == 'allow' and rng.random() < .6 else None
        core = cs.typed_dict_schema({m: cs.typed_dict_field(a.core, required=r, **({'validation_alias': al} if al != m else {})) for m, a, r, al in fs}, extra_behavior=ex, **({'extras_schema': ea.core} if ea else {}))
        return S('td', core, tuple(a for _, a, _, _ in fs), fs=[(m, r, al) for m, _, r, al in fs], ex=ex, ea=ea)
    if k == 'tuple':
        a = gen(rng, d - 1)
        return S('off', cs.tuple_schema([a.core], variadic_item_index=0), (a,))
    if k == 'model':
        a = gen(rng, d - 1)
        return S('model', cs.model_schema(M, cs.model_fields_schema({'a': cs.model_field(a.core)})), (a,))
    if k == 'ref':
        a = gen(rng, d - 1)
        if a.kind in ('ref',):
            return a
        return S('any', cs.any_schema())
    if k == 'lax':
        a = gen(rng, d - 1)
        return S('pass', cs.lax_or_strict_schema(a.core, a.core), (a,))
    if k == 'nullable':
        a = gen(rng, d - 1)
        return S('nullable', cs.nullable_schema(a.core), (a,))
    if k == 'default':
        a = gen(rng, d - 1)
        return S('pass', cs.with_default_schema(a.core, default=0), (a,), default=True)
    if k == 'before':
        a = gen(rng, d - 1)
        return S('pass', rng.choice([cs.no_info_before_validator_function(lambda v: v, a.core), cs.no_info_after_validator_function(lambda v: v, a.core)]), (a,))
    if k == 'wrap':
        a = gen(rng, d - 1)
        return S('wrap', cs.no_info_wrap_validator_function(lambda v, h: h(v), a.core), (a,))
    if k == 'tagged':
        a = gen(rng, d - 1)
        return S('pass', cs.json_or_python_schema(a.core, a.core), (a,))
    if k == 'union':
        n = rng.randrange(2, 4)
        kids = tuple(gen(rng, d - 1) for _ in range(n))
        return S('union', cs.union_schema([a.core for a in kids], mode='left_to_right', custom_error_type='u', custom_error_message='u'), kids)
    raise AssertionError(k)


class M:
    __slots__ = '__dict__', '__pydantic_extra__', '__pydantic_fields_set__', '__pydantic_private__'

    def __eq__(self, o):
        return type(o) is M and self.__dict__ == o.__dict__

    def __hash__(self):
        return 1

    def __repr__(self):
        return f'M({self.__dict__})'


class Bad(Exception):
    """errors: list of (type, loc)"""


def errs_of(e):
    return e.args[0]


def val(s, v, part, json_):
    """-> value or raises Bad(list of (type, loc))"""
    k = s.kind
    if k == 'leaf':
        if isinstance(v, str):
            raise Bad([('bad', ())])
        return ('L', v)
    if k == 'any':
        return v
    if k == 'pass':
        return val(s.kids[0], v, part, json_)
    if k == 'astuple':
        return ('T', *val(s.kids[0], v, part, json_))
    if k == 'wrap':
        return val(s.kids[0], v, False, json_)        # a handler validates completely
    if k == 'nullable':
        return None if v is None else val(s.kids[0], v, part, json_)
    if k == 'union':
        for a in s.kids:
            try:
                return val(a, v, part, json_)
            except Bad:
                pass
        raise Bad([('u', ())])
    if k in ('list', 'set', 'off'):
        if not isinstance(v, list):
            raise Bad([({'list': 'list_type', 'off': 'tuple_type'}.get(k) or ('frozen_set_type' if s.core['type'] == 'frozenset' else 'set_type'), ())])
        out, errs = [], []
        for i, x in enumerate(v):
            last = part and i == len(v) - 1 and k != 'off'
            try:
                y = val(s.kids[0], x, last, json_)
                if k == 'set':
                    try:
                        hash(y)
                    except TypeError:
                        raise Bad([('set_item_not_hashable', ())])
                out.append(y)
            except Bad as e:
                if not last:
                    errs += [(t, (i,) + l) for t, l in errs_of(e)]
                    if s.x.get('ff'):
                        break
        if errs:
            raise Bad(errs)
        return out if k == 'list' else tuple(out) if k == 'off' else (set if s.core['type'] == 'set' else frozenset)(out)
    if k == 'model':
        if not isinstance(v, dict):
            raise Bad([('model_type', ())])
        if 'a' not in v:
            if has_default(s.kids[0]):
                m = M()
                m.__dict__ = {'a': 0}
                return m
            raise Bad([('missing', ('a',))])
        try:
            m = M()
            m.__dict__ = {'a': val(s.kids[0], v['a'], False, json_)}
            return m
        except Bad as e:
            raise Bad([(t, ('a',) + l) for t, l in errs_of(e)])
    if k == 'dict':
        if not isinstance(v, dict):
            raise Bad([('dict_type', ())])
        out, errs = {}, []
        for i, (kk, x) in enumerate(v.items()):
            last = part and i == len(v) - 1
            ok = True
            y = kk
            if s.x['kf']:
                if kk.startswith('!'):
                    errs.append(('badkey', (kk, '[key]')))
                    ok = False
                y = kk.upper()
            try:
                z = val(s.kids[0], x, last, json_)
            except Bad as e:
                if not last:
                    errs += [(t, (kk,) + l) for t, l in errs_of(e)]
                continue
            if ok:
                out[y] = z
        if errs:
            raise Bad(errs)
        return out
    if k == 'td':
        if not isinstance(v, dict):
            raise Bad([('dict_type', ())])
        lastk = list(v)[-1] if v and part else None
        out, errs = {}, []
        used = set()
        for (m, req, al), a in zip(s.x['fs'], s.kids):
            if al in v:
                used.add(al)
                last = part and al == lastk
                try:
                    out[m] = val(a, v[al], last, json_)
                except Bad as e:
                    if not last or req:
                        errs += [(t, (al,) + l) for t, l in errs_of(e)]
            else:
                if has_default(a):
                    out[m] = 0
                elif req:
                    errs.append(('missing', (al,)))
        if s.x['ex'] != 'ignore':
            for kk, x in v.items():
                if kk in used:
                    continue
                if s.x['ex'] == 'forbid':
                    errs.append(('extra_forbidden', (kk,)))
                elif s.x['ea'] is None:
                    out[kk] = x
                else:
                    last = part and kk == lastk
                    try:
                        out[kk] = val(s.x['ea'], x, last, json_)
                    except Bad as e:
                        if not last:
                            errs += [(t, (kk,) + l) for t, l in errs_of(e)]
        if errs:
            raise Bad(errs)
        return out
    raise AssertionError(k)


def doc(rng, s, d=3):
    """a JSON value that mostly fits the schema"""
    if rng.random() < .08:
        return rng.choice([1, 'x', None, [], {}, [1, 'y'], {'a': 1}])
    k = s.kind
    if k == 'leaf':
        return rng.choice([1, 22, 3.5, True, None, 'x', 'yy', -7])
    if k == 'any':
        return rng.choice([1, 'str', [1, [2, 'z']], {'q': [1], 'r': 'w'}, None])
    if k in ('pass', 'wrap', 'astuple'):
        return doc(rng, s.kids[0], d)
    if k == 'nullable':
        return None if rng.random() < .2 else doc(rng, s.kids[0], d)
    if k == 'union':
        return doc(rng, rng.choice(s.kids), d)
    if k in ('list', 'set', 'off'):
        return [doc(rng, s.kids[0], d - 1) for _ in range(rng.randrange(0, 4))]
    if k == 'dict':
        return {rng.choice(['a', 'b', 'kk', '!x', 'd' * 3]) + str(i): doc(rng, s.kids[0], d - 1) for i in range(rng.randrange(0, 4))}
    if k == 'model':
        return {'a': doc(rng, s.kids[0], d - 1)}
    keys = [(al, a) for (m, r, al), a in zip(s.x['fs'], s.kids) if rng.random() < .8]
    if rng.random() < .5:
        keys.append(('zz', s.x['ea'] or S('any', None)))
    rng.shuffle(keys)
    return {al: doc(rng, a, d - 1) for al, a in keys}


def is_prefix(r, f, trail):
    """r is what a prefix of the text of f can denote: complete up to the last element at every level"""
    if r == f and type(r) is type(f):
        return True
    if isinstance(f, list) and isinstance(r, list):
        return len(r) <= len(f) and r[:-1] == f[:max(0, len(r) - 1)] and (not r or is_prefix(r[-1], f[len(r) - 1], trail))
    if isinstance(f, dict) and isinstance(r, dict):
        fk, rk = list(f.items()), list(r.items())
        return len(rk) <= len(fk) and rk[:-1] == fk[:max(0, len(rk) - 1)] and (not rk or (rk[-1][0] == fk[len(rk) - 1][0] and is_prefix(rk[-1][1], fk[len(rk) - 1][1], trail)))
    if isinstance(f, str) and isinstance(r, str):
        return trail and f.startswith(r)
    if type(f) in (int, float) and type(r) in (int, float):
        return repr(f).startswith(repr(r).removesuffix('.0'))
    return False


JANY = SchemaValidator(cs.json_schema())


def main(R):
    rng = R.rng
    R.rules.append('random schemas (list, set, dict, typed dict, tuple, model, union, wrappers) x random JSON documents x every truncation point x allow_partial in (off, on, trailing-strings); the same values as Python input')
    for it in range(5000 if not THOROUGH else 30000):
        if R.out_of_time():
            break
        s = gen(rng, 3)
        if s.kind in ('leaf', 'any'):
            continue
        try:
            v = SchemaValidator(s.core)
        except SchemaError:
            raise
        x = doc(rng, s)
        text = json.dumps(x)
        jv = SchemaValidator(cs.json_schema(s.core))
        cuts = range(len(text) + 1) if THOROUGH or len(text) < 40 else sorted(rng.sample(range(len(text) + 1), 40))
        for c in cuts:
            pre = text[:c]
            for mode in (True, 'trailing-strings'):
                try:
                    pv = from_json(pre, allow_partial=mode)
                except ValueError:
                    R.check(not run(v.validate_json, pre, allow_partial=mode).ok, f'unparsable {s!r} {pre!r}', '', nt=R.n)
                    continue
                if c == len(text):
                    R.check(pv == x, f'parse {pre!r}', '', pv, x)
                else:
                    R.check(is_prefix(pv, x, mode == 'trailing-strings'), f'from_json({pre!r}, allow_partial={mode!r})', '', pv, x, nt=R.n)
                try:
                    want = OK(val(s, pv, True, True))
                except Bad as e:
                    want = ERR(*errs_of(e))
                got = run(v.validate_json, pre, allow_partial=mode)
                lab = f'{s!r}.validate_json({pre!r}, allow_partial={mode!r})'
                R.mark(lab)
                R.same(lab, got, want, nt=R.n)
                if c % 3 == 0:
                    R.same(f'json schema {lab}', run(jv.validate_python, pre, allow_partial=mode), want, nt=R.n)
                R.same(f'json any {pre!r} {mode}', run(JANY.validate_python, pre, allow_partial=mode), OK(pv), nt=R.n)
            if c < len(text):
                got = run(v.validate_json, pre)
                try:
                    json.loads(pre)
                except ValueError:
                    R.check(got == ERR('json_invalid'), f'off {s!r} {pre!r}', '', got, 'json_invalid', nt=R.n)
        for part in (False, True, 'trailing-strings'):
            try:
                want = OK(val(s, x, bool(part), False))
            except Bad as e:
                want = ERR(*errs_of(e))
            lab = f'{s!r} {x!r} allow_partial={part!r}'
            R.same('python ' + lab, run(v.validate_python, x, allow_partial=part), want, nt=R.n)
            R.same('json ' + lab, run(v.validate_json, text, allow_partial=part), want, nt=R.n)
    # attempts on the same input do not influence each other
    I = cs.int_schema()
    for mode in ('smart', 'left_to_right'):
        for first in (cs.tuple_schema([I], variadic_item_index=0), cs.set_schema(cs.list_schema(I)), cs.dict_schema(I, I), cs.typed_dict_schema({'a': cs.typed_dict_field(I)}, extra_behavior='forbid'), cs.generator_schema(cs.str_schema(), min_length=50), cs.str_schema(),
                      cs.model_schema(M, cs.model_fields_schema({'zz': cs.model_field(I)})), cs.definitions_schema(cs.definition_reference_schema('r'), [cs.tuple_schema([I], ref='r', variadic_item_index=0)])):
            if first['type'] == 'generator':
                continue
            for second, x, want in ((cs.list_schema(I), [1, 2, 'x'], [1, 2]), (cs.dict_schema(cs.str_schema(), I), {'a': 1, 'b': 'x'}, {'a': 1}), (cs.typed_dict_schema({'b': cs.typed_dict_field(I, required=False), 'a': cs.typed_dict_field(I)}), {'a': 1, 'b': 'x'}, {'a': 1}),
                                    (cs.list_schema(I), [1, 'x', 2], None), (cs.dict_schema(cs.str_schema(), I), {'a': 'x', 'b': 1}, None)):
                v = SchemaValidator(cs.union_schema([first, second], mode=mode))
                for m, g in (('python', run(v.validate_python, x, allow_partial=True)), ('json', run(v.validate_json, json.dumps(x), allow_partial=True))):
                    R.check(g == OK(want) if want is not None else not g.ok, f'{mode} union[{first["type"]}, {second["type"]}] {x} {m}', '', g, want, nt=R.n)
    v = SchemaValidator(cs.typed_dict_schema({'a': cs.typed_dict_field(cs.list_schema(I), required=False), 'b': cs.typed_dict_field(cs.with_default_schema(cs.list_schema(I), default=[1, 'x'], validate_default=True), required=False)}))
    for x in ({'a': [1, 'y']}, {'a': []}, {}):
        R.check(not run(v.validate_python, x, allow_partial=True).ok, f'a default is complete {x}', '', nt=R.n)
    v = SchemaValidator(cs.typed_dict_schema({'a': cs.typed_dict_field(I), 'b': cs.typed_dict_field(I, required=False)}))
    R.same('strings on', run(v.validate_strings, {'a': '1', 'b': 'x'}, allow_partial=True), OK({'a': 1}), nt=R.n)
    R.same('strings off', run(v.validate_strings, {'a': '1', 'b': 'x'}), ERR(('int_parsing', ('b',))), nt=R.n)
    R.same('strings first', run(v.validate_strings, {'b': 'x', 'a': '1'}, allow_partial=True), ERR(('int_parsing', ('b',))), nt=R.n)
    R.same('strings required', run(v.validate_strings, {'b': '1', 'a': 'x'}, allow_partial=True), ERR(('int_parsing', ('a',))), nt=R.n)


guard(Recorder('C26'), main)
