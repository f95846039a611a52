"""C11: wrapping schemas. The oracle interprets a random schema tree over recorded user functions: which are called, with what, in
which order, and what comes out."""
from h import *
import itertools, re, warnings
warnings.simplefilter('ignore')


class M:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'


LOG = []


class Fail(Exception):
    """an error of the oracle: kind 'err' (errors), 'exc' (type name), 'omit', 'usedefault'"""

    def __init__(self, kind, v=None):
        self.kind, self.v = kind, v


class Boom(Exception):
    pass


class MyValueError(ValueError):
    pass


class MyAssert(AssertionError):
    pass


def act(kind, x):
    """what a user function does after its call was recorded"""
    if kind == 'id':
        return x
    if kind == 'wrap':
        return [x]
    if kind == 'inc':
        return x + 1 if type(x) is int else x
    if kind == 'str':
        return str(x)
    if kind == 've':
        raise ValueError('ve')
    if kind == 'mve':
        raise MyValueError('ve')
    if kind == 'ae':
        raise AssertionError('ae')
    if kind == 'mae':
        raise MyAssert('ae')
    if kind == 'te':
        raise TypeError('te')
    if kind == 'boom':
        raise Boom('b')
    if kind == 'key':
        raise KeyError('k')
    if kind == 'custom':
        raise PydanticCustomError('cust', 'custom {a}', {'a': 1})
    if kind == 'known':
        raise PydanticKnownError('greater_than', {'gt': 3})
    if kind == 'omit':
        raise PydanticOmit()
    if kind == 'usedef':
        raise pydantic_core.PydanticUseDefault()
    if kind == 'nested':
        SchemaValidator(cs.list_schema(cs.int_schema())).validate_python(['a', 1, 'b'])
    if kind == 'stop':
        raise StopIteration('s')
    if kind == 'uni':
        raise UnicodeDecodeError('utf8', b'x', 0, 1, 'r')
    raise NotImplementedError(kind)


OUT = {'ve': ('err', [('value_error', ())]), 'mve': ('err', [('value_error', ())]), 'uni': ('err', [('value_error', ())]), 'ae': ('err', [('assertion_error', ())]), 'mae': ('err', [('assertion_error', ())]),
       'te': ('exc', 'TypeError'), 'boom': ('exc', 'Boom'), 'key': ('exc', 'KeyError'), 'stop': ('exc', 'StopIteration'),
       'custom': ('err', [('cust', ())]), 'known': ('err', [('greater_than', ())]), 'omit': ('omit', None), 'usedef': ('usedefault', None),
       'nested': ('err', [('int_parsing', (0,)), ('int_parsing', (2,))])}
GOOD = ['id', 'wrap', 'inc', 'str']
BAD = list(OUT)


def oact(kind, x):
    if kind in OUT:
        raise Fail(*OUT[kind])
    return act(kind, x)


class Ctx:
    """what the oracle knows about the call"""

    def __init__(self, mode='python', strict=False, field=None, context=None, data=None, config=None):
        self.mode, self.strict, self.field, self.context, self.data, self.config = mode, strict, field, context, data, config


CNT = [0]


def leaf(rng):
    return rng.choice([('int',), ('any',), ('istr',), ('omitl',)] if rng.random() < .05 else [('int',), ('any',), ('istr',), ('int',)])


def tree(rng, d):
    if d == 0 or rng.random() < .12:
        return leaf(rng)
    k = rng.choice(['before', 'after', 'plain', 'wrap', 'wrap', 'nullable', 'chain', 'los', 'jop', 'cust', 'list', 'before', 'after'])
    CNT[0] += 1
    n = CNT[0]
    a = rng.choice(GOOD) if rng.random() < .6 else rng.choice(BAD)
    info = rng.random() < .5
    own = rng.choice([None, 'own%d' % n]) if info else None
    if k in ('before', 'after'):
        return (k, n, a, info, own, tree(rng, d - 1))
    if k == 'plain':
        return (k, n, a, info, own)
    if k == 'wrap':
        # how the function uses the handler: never, once, twice, catching, with a location
        return (k, n, a, info, own, tree(rng, d - 1), rng.choice(['once', 'never', 'twice', 'catch', 'loc', 'pre', 'once']))
    if k == 'chain':
        return (k, n, [tree(rng, d - 1) for _ in range(rng.randint(1, 3))])
    if k == 'los':
        return (k, n, tree(rng, d - 1), tree(rng, d - 1), rng.choice([None, None, True, False]))
    if k == 'jop':
        return (k, n, tree(rng, d - 1), tree(rng, d - 1))
    if k == 'cust':
        return (k, n, tree(rng, d - 1), rng.random() < .5)
    return (k, n, tree(rng, d - 1))


def info_of(i):
    return (i.mode, i.context, dict(i.data) if i.data is not None and is_prop(i, 'data') else None, getattr(i, 'field_name', None))


def is_prop(i, n):
    try:
        return getattr(i, n) is not None
    except AttributeError:
        return False


def build(t):
    k = t[0]
    if k == 'int':
        return cs.int_schema()
    if k == 'any':
        return cs.any_schema()
    if k == 'istr':
        return cs.int_schema(strict=True)
    if k == 'omitl':
        return cs.no_info_plain_validator_function(lambda x: act('omit', x))
    n = t[1]
    if k in ('before', 'after', 'plain'):
        _, _, a, info, own = t[:5]
        if info:
            def f(x, i):
                LOG.append((k, n, typed(x), (i.mode, i.context, i.field_name, i.config)))
                return act(a, x)
        else:
            def f(x):
                LOG.append((k, n, typed(x), None))
                return act(a, x)
        kw = {'field_name': own} if own else {}
        if k == 'plain':
            return cs.with_info_plain_validator_function(f, **kw) if info else cs.no_info_plain_validator_function(f)
        s = build(t[5])
        fac = {('before', True): cs.with_info_before_validator_function, ('before', False): cs.no_info_before_validator_function,
               ('after', True): cs.with_info_after_validator_function, ('after', False): cs.no_info_after_validator_function}[k, info]
        return fac(f, s, **kw)
    if k == 'wrap':
        _, _, a, info, own, s, use = t

        def body(x, h, i):
            LOG.append((k, n, typed(x), (i.mode, i.context, i.field_name, i.config) if i is not None else None))
            if use == 'never':
                return act(a, x)
            if use == 'pre':
                return h(act(a, x))
            if use == 'once':
                return act(a, h(x))
            if use == 'loc':
                return act(a, h(x, 'L'))
            if use == 'twice':
                h(x)
                return act(a, h(x))
            try:
                return act(a, h(x))
            except ValidationError as e:
                return ('caught', e.error_count())
        kw = {'field_name': own} if own else {}
        if info:
            return cs.with_info_wrap_validator_function(lambda x, h, i: body(x, h, i), build(s), **kw)
        return cs.no_info_wrap_validator_function(lambda x, h: body(x, h, None), build(s))
    if k == 'nullable':
        return cs.nullable_schema(build(t[2]))
    if k == 'list':
        return cs.list_schema(build(t[2]))
    if k == 'chain':
        return cs.chain_schema([build(x) for x in t[2]])
    if k == 'los':
        return cs.lax_or_strict_schema(lax_schema=build(t[2]), strict_schema=build(t[3]), **({'strict': t[4]} if t[4] is not None else {}))
    if k == 'jop':
        return cs.json_or_python_schema(json_schema=build(t[2]), python_schema=build(t[3]))
    if k == 'cust':
        if t[3]:
            return cs.custom_error_schema(build(t[2]), custom_error_type='mine', custom_error_message='m {x}', custom_error_context={'x': 1})
        return cs.custom_error_schema(build(t[2]), custom_error_type='finite_number')
    raise NotImplementedError(k)


def isint(x, strict, json):
    if type(x) is int:
        return x
    if strict:
        raise Fail('err', [('int_type', ())])
    if type(x) is bool:
        return int(x)
    if isinstance(x, str):
        if re.fullmatch(r'[0-9]+(\.0+)?', x):
            return int(float(x))
        raise Fail('err', [('int_parsing', ())])
    if isinstance(x, float):
        if x == int(x):
            return int(x)
        raise Fail('err', [('int_from_float', ())])
    raise Fail('err', [('int_type', ())])


def ev(t, x, c, log, obj=False):
    """oracle. obj: x is a Python object even in JSON mode (the result of a function)"""
    k = t[0]
    if k == 'any':
        return x
    if k == 'int':
        return isint(x, c.strict, False)
    if k == 'istr':
        return isint(x, c.cstrict if c.cstrict is not None else True, False)
    if k == 'omitl':
        raise Fail('omit')
    n = t[1]
    nm = lambda: c.field or t[4]
    inf = lambda: (c.mode, c.context, nm(), c.config) if t[3] else None
    if k == 'before':
        log.append((k, n, typed(x), inf()))
        return ev(t[5], oact(t[2], x), c, log, True)
    if k == 'after':
        y = ev(t[5], x, c, log, obj)
        log.append((k, n, typed(y), inf()))
        return oact(t[2], y)
    if k == 'plain':
        log.append((k, n, typed(x), inf()))
        return oact(t[2], x)
    if k == 'wrap':
        _, _, a, info, own, s, use = t
        log.append((k, n, typed(x), inf()))
        if use == 'never':
            return oact(a, x)
        if use == 'pre':
            return handle(s, oact(a, x), c, log, True)
        if use == 'once':
            return oact(a, handle(s, x, c, log, True))
        if use == 'loc':
            try:
                y = handle(s, x, c, log, True)
            except Fail as f:
                if f.kind == 'err':
                    raise Fail('err', [(ty, ('L',) + l) for ty, l in f.v])
                raise
            return oact(a, y)
        if use == 'twice':
            handle(s, x, c, log, True)
            return oact(a, handle(s, x, c, log, True))
        try:
            y = handle(s, x, c, log, True)
        except Fail as f:
            if f.kind == 'err':
                return ('caught', len(f.v))
            raise
        if a == 'nested':
            return ('caught', 2)
        return oact(a, y)
    if k == 'nullable':
        return None if x is None else ev(t[2], x, c, log, obj)
    if k == 'list':
        if not (isinstance(x, list) or isinstance(x, tuple) and not c.strict):
            raise Fail('err', [('list_type', ())])
        out, errs = [], []
        for i, y in enumerate(x):
            try:
                out.append(ev(t[2], y, c, log, obj))
            except Fail as f:
                if f.kind == 'err':
                    errs += [(ty, (i,) + l) for ty, l in f.v]
                elif f.kind != 'omit':
                    raise
        if errs:
            raise Fail('err', errs)
        return out
    if k == 'chain':
        for s in t[2]:
            x = ev(s, x, c, log, obj)
            obj = True
        return x
    if k == 'los':
        strict = c.strict if c.cstrict is not None else bool(t[4])
        return ev(t[3] if strict else t[2], x, c, log, obj)
    if k == 'jop':
        return ev(t[3] if c.mode == 'python' else t[2], x, c, log, obj)
    if k == 'cust':
        try:
            return ev(t[2], x, c, log, obj)
        except Fail as f:
            if f.kind == 'err':
                raise Fail('err', [('mine' if t[3] else 'finite_number', ())])
            raise
    raise NotImplementedError(k)


def handle(t, x, c, log, obj):
    """validation through the handler of a wrap function: what is raised in the function"""
    try:
        return ev(t, x, c, log, obj)
    except Fail as f:
        if f.kind in ('omit', 'usedefault'):
            raise Fail('exc', 'SchemaError: Uncaught ' + ('Omit' if f.kind == 'omit' else 'UseDefault'))
        raise


def oracle(t, x, c):
    log = []
    try:
        return 'ok', ev(t, x, c, log), log
    except Fail as f:
        return f.kind, f.v, log


def judge(R, label, got, kind, val, log, code):
    if kind == 'ok':
        ok = got.ok and typed(got.v) == typed(val)
    elif kind == 'err':
        ok = got.kind == 'err' and got.v == val
    elif kind == 'exc':
        ok = got.kind == 'exc' and got.v.startswith(val)
    elif kind == 'omit':
        ok = got.kind == 'exc' and 'Omit' in got.v
    else:
        ok = got.kind == 'exc' and 'UseDefault' in got.v
    R.check(ok, label, code, got=got, want=(kind, val), nt=label)
    R.check(LOG == log, label + ' calls', code, got=list(LOG), want=log)


def main(R):
    rng = R.rng
    R.rules.append('random trees of before/after/plain/wrap (once, twice, never, catching, with location) functions, nullable, chain, lax-or-strict, json-or-python, custom-error and list over leaf schemas; '
                   'functions return or raise any of 14 exception kinds; python and JSON, strict and lax, with context and field name: outcome, error locations and the exact calls compared')
    inputs = [1, 0, '5', 'x', None, True, 2.0, 1.5, [1, '2'], ['x', None, 3], [], [[1]]]
    N = 12000 if not THOROUGH else 400000
    for it in range(N):
        if R.out_of_time():
            break
        t = tree(rng, rng.choice([1, 1, 2, 2, 3, 4]))
        sch = build(t)
        cfg = rng.choice([None, {'title': 'T'}])
        try:
            v = SchemaValidator(sch, cfg)
        except Exception as e:
            R.check(False, f'build {t}', got=repr(e), want='built')
            continue
        for x in rng.sample(inputs, 4):
            for mode in ('python', 'json'):
                strict = rng.choice([None, None, True, False])
                ctxv = rng.choice([None, {'c': 1}])
                c = Ctx(mode, bool(strict), None, ctxv, config=cfg)
                c.cstrict = strict
                kind, val, log = oracle(t, x, c)
                LOG.clear()
                label = f'{mode} strict={strict} context={ctxv} {t} <- {x!r}'
                R.mark(label)
                got = run(v.validate_python, x, strict=strict, context=ctxv) if mode == 'python' else run(v.validate_json, json.dumps(x), strict=strict, context=ctxv)
                judge(R, label, got, kind, val, log, f'# schema tree {t}\n')
        # as a field: location, field name, data; absence when omitted
        if rng.random() < .4:
            fv = SchemaValidator(cs.model_fields_schema({'z': cs.model_field(cs.int_schema()), 'f': cs.model_field(sch)}), cfg)
            x = rng.choice(inputs)
            c = Ctx('python', False, 'f', None, config=cfg)
            c.cstrict = None
            kind, val, log = oracle(t, x, c)
            LOG.clear()
            label = f'field {t} <- {x!r}'
            got = run(fv.validate_python, {'z': 1, 'f': x})
            if kind == 'ok':
                judge(R, label, got, 'ok', ({'z': 1, 'f': val}, None, {'z', 'f'}), log, '')
            elif kind == 'err':
                judge(R, label, got, 'err', [(ty, ('f',) + l) for ty, l in val], log, '')
            elif kind == 'exc':
                judge(R, label, got, kind, val, log, '')
    # the information a function sees in a model: data of the fields before, on validation and on assignment
    seen = []

    def fn(x, i):
        seen.append((x, i.field_name, dict(i.data), i.mode, i.context))
        return x

    def wfn(x, h, i):
        seen.append((x, i.field_name, dict(i.data), i.mode, i.context))
        return h(x)
    for mk in ('before', 'after', 'plain', 'wrap', 'inwrap'):
        def F():
            if mk == 'before':
                return cs.with_info_before_validator_function(fn, cs.int_schema())
            if mk == 'after':
                return cs.with_info_after_validator_function(fn, cs.int_schema())
            if mk == 'plain':
                return cs.with_info_plain_validator_function(fn)
            if mk == 'wrap':
                return cs.with_info_wrap_validator_function(wfn, cs.int_schema())
            return cs.no_info_wrap_validator_function(lambda x, h: h(x), cs.with_info_before_validator_function(fn, cs.int_schema()))
        v = SchemaValidator(cs.model_fields_schema({'a': cs.model_field(cs.int_schema()), 'b': cs.model_field(F()), 'c': cs.model_field(F())}))
        for js in (False, True):
            seen.clear()
            d = {'a': 1, 'b': 2, 'c': 3}
            r = run(v.validate_json, json.dumps(d), context=7) if js else run(v.validate_python, d, context=7)
            m = 'json' if js else 'python'
            R.check(r.ok and seen == [(2, 'b', {'a': 1}, m, 7), (3, 'c', {'a': 1, 'b': 2}, m, 7)], f'info in a model {mk} {m}', got=(r, list(seen)), want='names and data')
        mv = SchemaValidator(cs.model_schema(M, cs.model_fields_schema({'a': cs.model_field(cs.int_schema()), 'b': cs.model_field(F()), 'c': cs.model_field(F())})))
        o = mv.validate_python({'a': 1, 'b': 2, 'c': 3})
        seen.clear()
        r = run(mv.validate_assignment, o, 'b', 9, context=8)
        R.check(r.ok and seen == [(9, 'b', {'a': 1, 'c': 3}, 'python', 8)], f'info on assignment {mk}', got=(r, list(seen)), want='names and data')
    # model level functions on assignment
    for mk in ('before', 'after', 'wrap'):
        calls = []

        def rec(x, *a):
            calls.append(type(x).__name__ + (str(sorted(x.items())) if isinstance(x, dict) else ''))
            return x
        inner_s = cs.model_schema(M, cs.model_fields_schema({'a': cs.model_field(cs.int_schema()), 'b': cs.model_field(cs.int_schema())}))
        if mk == 'before':
            s = cs.no_info_before_validator_function(rec, inner_s)
        elif mk == 'after':
            s = cs.no_info_after_validator_function(rec, inner_s)
        else:
            s = cs.no_info_wrap_validator_function(lambda x, h: (rec(x), h(x))[1], inner_s)
        v = SchemaValidator(s)
        o = v.validate_python({'a': 1, 'b': 2})
        R.check(len(calls) == 1, f'model level {mk}', got=list(calls), want='one call')
        calls.clear()
        r = run(v.validate_assignment, o, 'b', '5')
        R.check(r.ok and o.__dict__ == {'a': 1, 'b': 5} and calls == ['M'], f'model level {mk} on assignment', got=(r, list(calls), o.__dict__), want={'a': 1, 'b': 5})
        calls.clear()
        r = run(v.validate_assignment, o, 'b', 'x')
        R.check(r.kind == 'err' and r.v == [('int_parsing', ('b',))] and o.__dict__ == {'a': 1, 'b': 5}, f'model level {mk} on failing assignment', got=(r, o.__dict__), want='error at b')
    # the alias and mode settings of the call hold inside a wrap function
    inner_s = cs.model_fields_schema({'a': cs.model_field(cs.int_schema(), validation_alias='A')})
    w = SchemaValidator(cs.no_info_wrap_validator_function(lambda x, h: h(x), inner_s))
    p_ = SchemaValidator(inner_s)
    for x in ({'a': 1}, {'A': 1}, {'a': '1'}, {'A': '1', 'a': 2}):
        for kw in ({}, {'by_name': True}, {'by_name': True, 'by_alias': False}, {'by_alias': True}, {'strict': True}, {'strict': True, 'by_name': True}):
            a, b = run(w.validate_python, x, **kw), run(p_.validate_python, x, **kw)
            R.same(f'settings inside wrap {x} {kw}', a, b)
    # strings mode: everything that is not a Python object uses the json schema; functions see the plain string
    sv = SchemaValidator(cs.json_or_python_schema(json_schema=cs.no_info_plain_validator_function(lambda x: ('json', x)), python_schema=cs.no_info_plain_validator_function(lambda x: ('python', x))))
    R.same('json or python in strings mode', run(sv.validate_strings, 'q'), OK(('json', 'q')))
    for mk in ('before', 'after', 'wrap', 'plain'):
        seen2 = []
        fb = {'before': lambda: cs.no_info_before_validator_function(lambda x: (seen2.append(x), x)[1], cs.int_schema()), 'after': lambda: cs.no_info_after_validator_function(lambda x: (seen2.append(x), x)[1], cs.int_schema()),
              'wrap': lambda: cs.no_info_wrap_validator_function(lambda x, h: (seen2.append(x), h(x))[1], cs.int_schema()), 'plain': lambda: cs.no_info_plain_validator_function(lambda x: (seen2.append(x), int(x))[1])}[mk]()
        R.same(f'strings mode {mk}', run(SchemaValidator(fb).validate_strings, '12'), OK(12))
        R.check(seen2 == ([12] if mk == 'after' else ['12']), f'strings mode {mk} sees', got=seen2, want='12')
    # json schema
    jv = SchemaValidator(cs.json_schema(cs.list_schema(cs.int_schema())))
    ja = SchemaValidator(cs.json_schema())
    for x in ('[1, "2"]', b'[1]', '[1,', '"x"', '{"a": NaN}', 5, None, 'nan', '[]', bytearray(b'[3]'), '[1, 2', b'\xff', '[true]'):
        lab = f'json {x!r}'
        txt = bytes(x) if isinstance(x, (bytes, bytearray)) else x
        if not isinstance(txt, (str, bytes)):
            R.same(lab, run(jv.validate_python, x), ERR('json_type'))
            continue
        try:
            val = json.loads(txt)
            bad = False
        except ValueError:
            bad = True
        if txt == 'nan':
            bad = True
        if bad:
            R.check(run(jv.validate_python, x).kind == 'err' and run(jv.validate_python, x).v == [('json_invalid', ())], lab, got=run(jv.validate_python, x), want='json_invalid')
            R.same(lab, run(ja.validate_python, x), ERR('json_invalid'))
        else:
            R.check(run(ja.validate_python, x).ok and typed(run(ja.validate_python, x).v) == typed(val), lab, got=run(ja.validate_python, x), want=val)
            R.same(lab, run(jv.validate_python, x), run(SchemaValidator(cs.list_schema(cs.int_schema())).validate_json, txt))


guard(Recorder('C11'), main)
