"""C25: JSON text and JSON-mode output agree: both are written from the same conversion of the value"""
from contracts.ser import *

CF = SER + 'config::'
INF = SER + 'infer::'
LEAF = ['bytes::BytesSerializer', 'timedelta::TimeDeltaSerializer', 'datetime_etc::DatetimeSerializer', 'datetime_etc::DateSerializer', 'datetime_etc::TimeSerializer', 'uuid::UuidSerializer', 'url::UrlSerializer', 'url::MultiHostUrlSerializer',
        'decimal::DecimalSerializer', 'enum_::EnumSerializer', 'float::FloatSerializer', 'complex::ComplexSerializer', 'string::StrSerializer']
METH = ('to_python', 'json_key', 'serde_serialize')
DUMP = {'roots': ['<' + T + s + ' as *TypeSerializer>::' + m for s in LEAF for m in METH] + ['<' + T + s.rsplit('::', 1)[0] + '::' + s.split('::')[1] + ' as *BuildSerializer>::build' for s in LEAF[:2]] + [INF + 'infer_to_python_known', INF + 'infer_json_key_known', T + 'float::FloatSerializer::new'] + ['*BytesMode::*', '*TimedeltaMode::*', '*serialize_f64', '*FromStr>::from_str', '*FromConfig>::from_config'],
        'stop': ['*infer_to_python', '*infer_serialize', '*infer_json_key', '*CollectWarnings*', '*ObTypeLookup*', '*SchemaDict*', '*BytesMode::*', '*TimedeltaMode::*', '*datetime_to_string', '*date_to_string', '*time_to_string', '*uuid_to_string', '*::__str__', '*complex_to_str', '*to_str_json_key', '*PydanticSerializationUnexpectedValue*', '*::from_config', '*serialize_f64', '*serialize_py_str',
                 '*Extra*::recursion_guard', '*Extra*::key_recursion_guard', '*access_recursion_state', '*RecursionGuard*::new', '*serialize_pairs_python', '*serialize_pairs_json', '*any_dataclass_iter', '*SerializationIterator::new', '*serialize_unknown', '*unknown_type_error', '*build_extra', '*safe_repr', '*key_filter', '*index_filter',
                 '*EitherTimedelta*::to_duration', '*total_seconds', '*EitherTimedelta*::try_from', '*utf8_py_error']}
ASSUMPTIONS = ['serde_json writes valid JSON for what it is given; str(), isoformat-like and URL text conversions are functions of the value']


def comes_from(p, t, src, depth=6):
    """t is built from src, directly or through the results of calls"""
    if mentions(t, src):
        return True
    if not depth:
        return False
    for y in p.st.events:
        if y.ret is not None and y.args:
            try:
                hit = mentions(t, p.V(y.ret).t)
            except Exception:
                continue
            if hit and any(a is not None and comes_from(p, p.V(a).t, src, depth - 1) for a in y.args if not isinstance(a, str)):
                return True
    return False


INFER = {'to_python': 'infer_to_python', 'json_key': 'infer_json_key', 'serde_serialize': 'infer_serialize'}


def infers(p, m):
    return [e for e in p.st.events if e.name.split('::')[-1] in (INFER[m], INFER[m] + '_known')]


class Leaf(Contract):
    """a value of the type is written from its conversion; any other value is inferred after a report"""
    method, conv, mode, plain = 'to_python', (), None, None

    def parts(self, p):
        m = self.method
        ex = {'to_python': 4, 'json_key': 2, 'serde_serialize': 5}[m]
        filt = {'to_python': (2, 3), 'json_key': (), 'serde_serialize': (3, 4)}[m]
        return p.arg(1), p.arg(ex), [p.arg(i) for i in filt]

    def inferred(self, p, r, e, value, filt, ex, skip=0):
        m = self.method
        a = [p.V(x) for x in e.args][skip:]
        want = [value] + ([p.arg(2)] if m == 'serde_serialize' else []) + filt + [ex]
        return AND(len(a) == len(want), *[x.t == y.t for x, y in zip(a, want)], r.eq(p.V(e.ret)))

    def ret(self, p, r):
        m, me = self.method, p.arg(0)
        value, ex, filt = self.parts(p)
        fb = [e for e in p.st.events if e.name.split('::')[-1] in ('on_fallback_py', 'on_fallback_ser')]
        inf = infers(p, m)
        cv = [e for e in p.st.events if e.name.split('::')[-1] in self.conv]
        if fb:
            f = p.V(fb[0].ret)
            p.require('what is not of the type is inferred with the same settings', AND(len(fb) == 1, not cv, any(p.V(a).t.eq(value.t) for a in fb[0].args), f.is_('Ok') == (len(inf) == 1), IMP(f.is_('Err'), r.is_('Err')), *[self.inferred(p, r, e, value, filt, ex) for e in inf]))
            return
        js = ex.f('mode').is_('Json') if m == 'to_python' else z3.BoolVal(True)
        if not cv:
            if p.feasible(js):
                self.unconverted(p, r, value, ex, filt, inf, js)
            return
        self.written(p, r, cv, value, ex, me)

    def unconverted(self, p, r, value, ex, filt, inf, js):
        p.require('a value of the type is written from its conversion', IMP(js, r.is_('Err')))

    def written(self, p, r, cv, value, ex, me):
        m, c = self.method, cv[0]
        res = p.V(c.ret)
        p.require('a value of the type is written from its conversion', AND(len(cv) == 1, OR(*[comes_from(p, p.V(a).t, value.t) for a in c.args])))
        if self.mode:
            p.require('the configured representation is used', AND(*[p.V(x.args[0]).eq(me.f(self.mode)) for x in cv]))
        self.out(p, r, c, res)

    def out(self, p, r, c, res):
        m = self.method
        if m == 'serde_serialize':
            w = [e for e in p.st.events if e.name.split('::')[-1] in ('serialize_str', 'collect_str')]
            if w:
                p.require('the text written is the conversion', AND(len(w) == 1, comes_from(p, p.V(w[0].args[1]).t, res.t), r.eq(p.V(w[0].ret)) if not w[0].name.endswith('collect_str') else True, p.V(w[0].args[0]).t == p.arg(2).t))
            elif any(p.V(a).t.eq(p.arg(2).t) for a in c.args):
                p.require('the text written is the conversion', r.eq(res))
            else:
                p.require('the text written is the conversion', AND(r.is_('Err'), res.is_('Err') if res.has('Err') or True else True))
            return
        isres = 'Result' in p.e.tys(res.ty)
        ok = res.is_('Ok') if isres else z3.BoolVal(True)
        p.require('the output is the conversion', AND(r.is_('Ok') == ok, IMP(r.is_('Ok'), OR(r.eq(res) if isres and str(p.e.tys(res.ty)) == str(p.e.tys(r.ty)) else False, comes_from(p, r.as_('Ok').t, (res.as_('Ok') if isres else res).t)))))


LX = ('what is not of the type is inferred with the same settings', 'a value of the type is written from its conversion')
OUTS = {'to_python': ('the output is the conversion',), 'json_key': ('the output is the conversion',), 'serde_serialize': ('the text written is the conversion',)}
for st, conv, mode in (('bytes::BytesSerializer', ('bytes_to_string', 'serialize_bytes'), 'bytes_mode'), ('timedelta::TimeDeltaSerializer', ('either_delta_to_json', 'timedelta_serialize', 'json_key'), 'timedelta_mode'),
                       ('datetime_etc::DatetimeSerializer', ('datetime_to_string',), None), ('datetime_etc::DateSerializer', ('date_to_string',), None), ('datetime_etc::TimeSerializer', ('time_to_string',), None),
                       ('uuid::UuidSerializer', ('uuid_to_string',), None), ('url::UrlSerializer', ('__str__',), None), ('url::MultiHostUrlSerializer', ('__str__',), None)):
    for m in METH:
        contract('C25', '<' + T + st + ' as *TypeSerializer>::' + m, st.split('::')[1] + ' ' + m, expect=LX + OUTS[m] + (('the configured representation is used',) if mode else ()))(
            type('L', (Leaf,), {'method': m, 'conv': conv, 'mode': mode}))


def last(n):
    return n.split('::')[-1]


# how each kind of value is written: (python / key conversion, JSON conversion, config field, attribute read from the value)
KINDS = {'Bytes': (('bytes_to_string',), ('serialize_bytes',), 'bytes_mode'), 'Bytearray': (('bytes_to_string',), ('serialize_bytes',), 'bytes_mode'),
         'Datetime': (('datetime_to_string',),) * 2 + (None,), 'Date': (('date_to_string',),) * 2 + (None,), 'Time': (('time_to_string',),) * 2 + (None,),
         'Uuid': (('uuid_to_string',),) * 2 + (None,), 'Url': (('__str__',),) * 2 + (None,), 'MultiHostUrl': (('__str__',),) * 2 + (None,), 'Complex': (('complex_to_str',),) * 2 + (None,),
         'Timedelta': (('either_delta_to_json', 'json_key'), ('timedelta_serialize',), 'timedelta_mode'), 'Float': ((), ('serialize_f64',), 'inf_nan_mode'), 'FloatSubclass': ((), ('serialize_f64',), 'inf_nan_mode'),
         'Decimal': (('to_string',), ('to_string',), None), 'Path': (('str',), ('str',), None), 'Pattern': (('str',), ('str',), None)}


class Known(Contract):
    """an inferred leaf is written by the same conversion, with the representation the settings name, in all three outputs"""
    method, kinds = 'to_python', ()
    exi, vi = 4, 1

    def pre(self, p):
        ob = p.arg(0)
        return OR(*[ob.is_(k) for k in self.kinds])

    def configs(self, p):
        """the settings in force: the argument, or what the guard returned with it"""
        out = [p.arg(self.exi)]
        for e in p.st.events:
            if last(e.name) in ('recursion_guard', 'key_recursion_guard'):
                out.append(V(p, Op(p.arg(self.exi).ty, uf('fld:_pydantic_core::recursion_guard::RecursionGuard:RecursionGuard:state', Val, Val)(uf('fld:core::result::Result:Ok:0', Val, Val)(e.ret.t)))))
        return out

    def ret(self, p, r):
        ob, value = p.arg(0), p.arg(self.vi)
        exs = self.configs(p)
        for g in p.st.events:
            if last(g.name) == 'recursion_guard' and p.feasible(p.V(g.ret).is_('Err')) and p.holds(p.V(g.ret).is_('Err')):
                return
        k, here = self.kinds[0], z3.BoolVal(True)
        if self.method == 'to_python':
            here = exs[-1].f('mode').is_('Json')
            if not p.feasible(here):
                return
        names = KINDS[k][1 if self.method == 'serde_serialize' else 0]
        field = KINDS[k][2]
        if k.startswith('Float') and self.method != 'serde_serialize':
            return self.floats(p, r, value, exs, here)
        cv = [e for e in p.st.events if last(e.name) in names and (len(e.args) > 1 or not field)]
        if not cv:
            p.require('an inferred value is written from its conversion', IMP(here, r.is_('Err')))
            return
        c = cv[0]
        p.require('an inferred value is written from its conversion', IMP(here, OR(*[comes_from(p, p.V(a).t, value.t) for a in c.args if not is_z3(a)])))
        if field:
            ms = [p.V(a) for a in c.args]
            p.require('the representation is the configured one', IMP(here, OR(*[m.t == x.f('config').f(field).t for m in ms for x in exs])))
        if self.method == 'serde_serialize':
            w = [e for e in p.st.events if last(e.name) in ('serialize_str', 'collect_str', 'serialize')]
            res = p.V(c.ret)
            if w:
                p.require('the output is the conversion', IMP(here, AND(len(w) == 1, OR(*[comes_from(p, p.V(a).t, res.t) for a in w[0].args if not is_z3(a)]))))
            else:
                p.require('the output is the conversion', IMP(here, OR(r.eq(res) if str(p.e.tys(res.ty)) == str(p.e.tys(r.ty)) else False, r.is_('Err'))))
            return
        p.require('the output is the conversion', IMP(here, OR(r.is_('Err'), comes_from(p, r.t, p.V(c.ret).t))))

    def floats(self, p, r, value, exs, here):
        ev = [e for e in p.st.events if 'extract' in last(e.name)]
        null = OR(*[x.f('config').f('inf_nan_mode').is_('Null') for x in exs])
        if not ev:
            return
        txt = [e for e in p.st.events if last(e.name) in ('to_str_json_key', 'topy', 'into_py_any', 'into_pyobject')]
        none = [e for e in p.st.events if last(e.name) in ('none_json_key', 'None')]
        p.require('a float is written from its value', IMP(here, OR(r.is_('Err'), comes_from(p, r.t, value.t), null)))


GROUPS = {}
for k, how in KINDS.items():
    GROUPS.setdefault((how, k in ('Path', 'Pattern') and k), []).append(k)
for (how, _), ks in GROUPS.items():
    KX = ('an inferred value is written from its conversion', 'the output is the conversion') + (('the representation is the configured one',) if how[2] else ())
    FX = ('a float is written from its value',)
    fl = ks[0] == 'Float'
    contract('C25', INF + 'infer_to_python_known', 'infer_to_python_known ' + ks[0], expect=FX if fl else KX)(type('KP', (Known,), {'kinds': ks}))
    contract('C25', INF + 'infer_json_key_known', 'infer_json_key_known ' + ks[0], expect=FX if fl else KX)(type('KK', (Known,), {'kinds': ks, 'method': 'json_key', 'exi': 2, 'vi': 1}))
    contract('C25', INF + 'infer_serialize_known*', 'infer_serialize_known ' + ks[0], expect=KX)(type('KS', (Known,), {'kinds': ks, 'method': 'serde_serialize', 'exi': 5}))


def named_ev(p, *names):
    return [e for e in p.st.events if last(e.name) in names]


def vals(p, e):
    return [p.V(a) for a in e.args if not isinstance(a, str)]


class BytesM(Contract):
    """bytes become the same text for python output, keys and JSON: UTF-8, URL-safe base64 with padding, or hex"""
    bi, si = 2, None

    def ret(self, p, r):
        mode, b = p.arg(0), p.arg(self.bi)
        u, enc, fold = named_ev(p, 'from_utf8'), named_ev(p, 'encode'), named_ev(p, 'fold')
        w = named_ev(p, 'serialize_str')
        alphabet = [e for e in enc if len(e.args) == 2]
        hexes = fold + [e for e in enc if len(e.args) == 1]
        conv = u + enc + fold
        if len(conv) != 1 or len(w) > 1:
            raise Lost('the conversions of bytes')
        c = conv[0]
        p.require('each representation has its conversion, of all the bytes', AND(mode.is_('Utf8') == (len(u) == 1), mode.is_('Base64') == (len(alphabet) == 1), mode.is_('Hex') == (len(hexes) == 1), OR(*[mentions(v.t, b.t) for v in vals(p, c)])))
        if alphabet:
            p.require('base64 is the URL-safe alphabet', 'URL_SAFE' in str(vals(p, c)[0].t) and 'NO_PAD' not in str(vals(p, c)[0].t))
        res = p.V(c.ret)
        ok = res.is_('Ok') if u else z3.BoolVal(True)
        if self.si is None:
            p.require('the output is the conversion', AND(r.is_('Ok') == ok, IMP(ok, comes_from(p, r.t, res.t))))
        elif w:
            p.require('the output is the conversion', AND(ok, comes_from(p, p.V(w[0].args[1]).t, res.t), p.V(w[0].args[0]).t == p.arg(self.si).t, r.eq(p.V(w[0].ret))))
        else:
            p.require('the output is the conversion', AND(NOT(ok), r.is_('Err')))


BX = ('each representation has its conversion, of all the bytes', 'base64 is the URL-safe alphabet', 'the output is the conversion')
contract('C25', CF + 'BytesMode::bytes_to_string', 'BytesMode::bytes_to_string', expect=BX)(type('M', (BytesM,), {}))
contract('C25', CF + 'BytesMode::serialize_bytes*', 'BytesMode::serialize_bytes', expect=BX)(type('M', (BytesM,), {'bi': 1, 'si': 2}))


class DeltaM(Contract):
    """a timedelta becomes the text of its duration, or its total seconds, in all three outputs"""
    ser = False

    def ret(self, p, r):
        mode, d = p.arg(0), p.arg(2)
        iso, fl = named_ev(p, 'to_duration'), named_ev(p, 'total_seconds')
        w = named_ev(p, 'serialize_str', 'serialize_f64')
        if len(iso) + len(fl) > 1 or len(w) > 1:
            raise Lost('the conversions of a timedelta')
        if not iso + fl:
            p.require('each representation has its conversion', r.is_('Err'))
            return
        c = (iso + fl)[0]
        res = p.V(c.ret)
        p.require('each representation has its conversion', AND(mode.is_('Iso8601') == (len(iso) == 1), OR(*[comes_from(p, v.t, d.t) for v in vals(p, c)])))
        if self.ser and w:
            x = [e for e in named_ev(p, 'extract') if comes_from(p, p.V(e.args[0]).t, res.t)]
            same = p.V(w[0].args[1]).eq(p.V(x[-1].ret).as_('Ok')) if fl and x and last(w[0].name) == 'serialize_f64' else comes_from(p, p.V(w[0].args[1]).t, res.t)
            p.require('the output is the conversion', AND(res.is_('Ok'), (last(w[0].name) == 'serialize_str') == bool(iso), same, p.V(w[0].args[0]).t == p.arg(3).t, r.eq(p.V(w[0].ret))))
        else:
            p.require('the output is the conversion', OR(r.is_('Err'), AND(res.is_('Ok'), not self.ser, comes_from(p, r.t, res.t))))
        if iso and not self.ser:
            p.require('an ISO duration is written whenever it exists', r.is_('Ok') == res.is_('Ok'))
        x = named_ev(p, 'extract')
        p.require('fails only if a conversion fails', IMP(AND(res.is_('Ok'), *[p.V(e.ret).is_('Ok') for e in x]), OR(r.is_('Ok'), bool(w), named_ev(p, 'into_py_any', 'into_pyobject') != [])))


DX = ('each representation has its conversion', 'the output is the conversion', 'fails only if a conversion fails')
for f in ('either_delta_to_json', 'json_key', 'timedelta_serialize*'):
    contract('C25', CF + 'TimedeltaMode::' + f, 'TimedeltaMode::' + f.strip('*'), expect=DX)(type('M', (DeltaM,), {'ser': f[0] == 't'}))


@contract('C25', T + 'float::serialize_f64*', 'serialize_f64', expect=('finite floats are written as they are', 'non-finite floats follow the setting'))
class F64(Contract):
    def ret(self, p, r):
        x, mode = p.arg(0).z, p.arg(2)
        w = named_ev(p, 'serialize_str', 'serialize_f64', 'serialize_none')
        if len(w) != 1:
            raise Lost('one thing is written')
        k, a = last(w[0].name), vals(p, w[0])
        nan, inf = z3.fpIsNaN(x), z3.fpIsInf(x)
        fin = NOT(OR(nan, inf))
        asis = AND(k == 'serialize_f64', a[1].t == p.arg(0).t if k == 'serialize_f64' else False)
        text = {'"NaN"': nan, '"Infinity"': AND(inf, z3.fpIsPositive(x)), '"-Infinity"': AND(inf, z3.fpIsNegative(x))}
        s = str(a[1].t) if k == 'serialize_str' else ''
        good = OR(*[c for t, c in text.items() if s.endswith('str' + t)])
        p.require('finite floats are written as they are', IMP(fin, AND(asis, r.eq(p.V(w[0].ret)))))
        p.require('non-finite floats follow the setting', IMP(NOT(fin), AND(r.eq(p.V(w[0].ret)), IMP(mode.is_('Null'), k == 'serialize_none'), IMP(mode.is_('Constants'), asis), IMP(mode.is_('Strings'), good))))


NAMES = {'BytesMode': ('ser_json_bytes', {'Utf8': 'utf8', 'Base64': 'base64', 'Hex': 'hex'}), 'TimedeltaMode': ('ser_json_timedelta', {'Iso8601': 'iso8601', 'Float': 'float'}),
         'InfNanMode': ('ser_json_inf_nan', {'Null': 'null', 'Constants': 'constants', 'Strings': 'strings'})}


class FromStr(Contract):
    """a representation is chosen by its documented name; any other name is an error"""
    names = {}

    def ret(self, p, r):
        s, S = p.arg(0).t, p.e.str_const
        p.require('each name selects its representation', AND(*[IMP(s == S(n), AND(r.is_('Ok'), r.as_('Ok').is_(v))) for v, n in self.names.items()]))
        p.require('other names are errors', IMP(AND(*[s != S(n) for n in self.names.values()]), r.is_('Err')))


class FromConfig(Contract):
    """the representation is read from its configuration key; the first one is the default"""
    key, names = '', {}

    def ret(self, p, r):
        g, c, S = named_ev(p, 'get_as'), p.arg(0), p.e.str_const
        first = next(iter(self.names))
        if not g:
            p.require('without configuration the default is used', AND(c.is_('None'), r.is_('Ok'), r.as_('Ok').is_(first)))
            return
        x = p.V(g[0].ret)
        p.require('the configured name is read from its key', AND(len(g) == 1, p.V(g[0].args[1]).eq(self.key), IMP(x.is_('Err'), r.is_('Err'))))
        ts = named_ev(p, 'to_str')
        if not ts:
            p.require('without configuration the default is used', IMP(x.is_('Ok'), AND(x.as_('Ok').is_('None'), r.is_('Ok'), r.as_('Ok').is_(first))))
            return
        t = p.V(ts[0].ret)
        n = t.as_('Ok').t
        p.require('the configured name selects the representation', AND(x.is_('Ok'), x.as_('Ok').is_('Some'), comes_from(p, p.V(ts[0].args[0]).t, x.t), IMP(t.is_('Err'), r.is_('Err')),
                  *[IMP(AND(t.is_('Ok'), n == S(w)), AND(r.is_('Ok'), r.as_('Ok').is_(v))) for v, w in self.names.items()], IMP(AND(t.is_('Ok'), *[n != S(w) for w in self.names.values()]), r.is_('Err'))))


for m, (key, names) in NAMES.items():
    contract('C25', '<' + CF + m + ' as *FromStr>::from_str', m + '::from_str', expect=('each name selects its representation', 'other names are errors'))(type('M', (FromStr,), {'names': names}))
    contract('C25', '<' + CF + m + ' as *FromConfig>::from_config', m + '::from_config', expect=('without configuration the default is used', 'the configured name is read from its key', 'the configured name selects the representation'))(
        type('M', (FromConfig,), {'key': key, 'names': names}))


class ModeBuild(Contract):
    """a serializer is built with the representation the configuration names"""
    field, payload = None, None

    def ret(self, p, r):
        f = named_ev(p, 'from_config')
        if len(f) != 1:
            raise Lost('the representation of a serializer')
        x = p.V(f[0].ret)
        p.require('the representation comes from the configuration', AND(p.V(f[0].args[0]).t == p.arg(1).t, r.is_('Ok') == x.is_('Ok'), IMP(r.is_('Ok'), mentions(r.t, x.as_('Ok').t))))


for s in ('bytes::BytesSerializer', 'timedelta::TimeDeltaSerializer'):
    contract('C25', '<' + T + s + ' as *BuildSerializer>::build', s.split('::')[1] + ' build', expect=('the representation comes from the configuration',))(type('M', (ModeBuild,), {}))


@contract('C25', T + 'float::FloatSerializer::new', 'FloatSerializer::new', expect=('the representation comes from the configuration', 'without configuration the default is used'))
class FloatNew(Contract):
    def ret(self, p, r):
        g = named_ev(p, 'get_as')
        m = r.as_('Ok').f('inf_nan_mode')
        if not g:
            p.require('without configuration the default is used', AND(p.arg(1).is_('None'), r.is_('Ok'), m.is_('Null')))
            return
        x = p.V(g[0].ret)
        p.require('the representation comes from the configuration', AND(len(g) == 1, p.V(g[0].args[1]).eq('ser_json_inf_nan'), IMP(x.is_('Err'), r.is_('Err')),
                  IMP(AND(x.is_('Ok'), x.as_('Ok').is_('None')), AND(r.is_('Ok'), m.is_('Null'))), IMP(AND(x.is_('Ok'), x.as_('Ok').is_('Some')), AND(r.is_('Ok'), m.t == x.as_('Ok').as_('Some').t))))


class EnumSer(Contract):
    """an enum member is written as its value, by the serializer of the members where there is one"""
    method = 'to_python'

    def ret(self, p, r):
        m = self.method
        h = Leaf()
        h.method = m
        value, ex, filt = Leaf.parts(h, p)
        me = p.arg(0)
        inst = named_ev(p, 'is_exact_instance')
        fb = named_ev(p, 'on_fallback_py', 'on_fallback_ser')
        inf, own = infers(p, m), named_ev(p, m)
        if len(inst) != 1:
            raise Lost('the class test')
        member = p.V(inst[0].ret).z
        p.require('a member is recognised by the class of the schema', AND(p.V(inst[0].args[0]).t == value.t, mentions(p.V(inst[0].args[1]).t, me.f('class').t)))
        ga = named_ev(p, 'getattr')
        if fb:
            f = p.V(fb[0].ret)
            p.require('what is not a member is inferred after a report', AND(NOT(member), not own, f.is_('Ok') == (len(inf) == 1), IMP(f.is_('Err'), r.is_('Err')), *[Leaf.inferred(h, p, r, e, value, filt, ex) for e in inf]))
            return
        if not ga:
            p.require('in Python mode a member stays as it is', AND(m == 'to_python', member, NOT(ex.f('mode').is_('Json')) if m == 'to_python' else False, r.is_('Ok'), r.as_('Ok').t == value.t))
            return
        g = p.V(ga[0].ret)
        dot = g.as_('Ok')
        p.require('a member is written as its value', AND(member, len(ga) == 1, p.V(ga[0].args[0]).t == value.t, p.V(ga[0].args[1]).eq('value'), g.is_('Ok') == (len(inf) + len(own) == 1), IMP(g.is_('Err'), r.is_('Err'))))
        s = me.f('serializer')
        for e in inf + own:
            a = vals(p, e)
            want = [dot] + ([p.arg(2)] if m == 'serde_serialize' else []) + filt + [ex]
            if e in own:
                want = [s.as_('Some')] + want
            res = p.V(e.ret)
            p.require('the value is written by the serializer of the schema', AND(s.is_('Some') == (e in own), len(a) == len(want), *[comes_from(p, x.t, y.t) for x, y in zip(a, want)], r.is_('Ok') == res.is_('Ok'), IMP(r.is_('Ok'), mentions(r.as_('Ok').t, res.as_('Ok').t)) if m == 'json_key' else r.eq(res)))


for m in METH:
    contract('C25', '<' + T + 'enum_::EnumSerializer as *TypeSerializer>::' + m, 'EnumSerializer ' + m, expect=('a member is recognised by the class of the schema', 'what is not a member is inferred after a report', 'a member is written as its value', 'the value is written by the serializer of the schema'))(
        type('M', (EnumSer,), {'method': m}))


class Plain(Leaf):
    """text and numbers are written from the value itself; any other value is inferred after a report"""

    def ret(self, p, r):
        for g in named_ev(p, 'recursion_guard'):
            if p.holds(p.V(g.ret).is_('Err')):
                return
        fb = named_ev(p, 'on_fallback_py', 'on_fallback_ser')
        if fb:
            return Leaf.ret(self, p, r)
        value = p.arg(1)
        p.require('a value of the type is written from its conversion', OR(r.is_('Err'), comes_from(p, r.t, value.t)))
        for w in named_ev(p, 'serialize_str', 'collect_str', 'serialize_py_str', 'serialize_f64', 'serialize'):
            p.require('a value of the type is written from its conversion', AND(OR(*[comes_from(p, v.t, value.t) for v in vals(p, w)]), OR(*[v.t == p.arg(2).t for v in vals(p, w)])))
            if last(w.name) == 'serialize_f64':
                p.require('the configured representation is used', vals(p, w)[-1].t == p.arg(0).f('inf_nan_mode').t)


for st in ('float::FloatSerializer', 'complex::ComplexSerializer', 'string::StrSerializer', 'decimal::DecimalSerializer'):
    for m in METH:
        contract('C25', '<' + T + st + ' as *TypeSerializer>::' + m, st.split('::')[1] + ' ' + m, expect=LX + (('the configured representation is used',) if (st[0], m[0]) == ('f', 's') else ()))(type('M', (Plain,), {'method': m}))
