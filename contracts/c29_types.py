"""C29: bytes, URL and type-check schemas enforce their declared constraints"""
from contracts.common import *
from contracts.fields import nexts

VAL = ' as _pydantic_core::validators::Validator>::validate'
BLD = ' as _pydantic_core::validators::BuildValidator>::build'
V_ = '_pydantic_core::validators::'
UR = V_ + 'url::'
DUMP = {'stop': ['_pydantic_core::build_tools::*', '*SchemaDict*', '*class_repr', '*check_sub_defaults', '*parse_url', '*parse_multihost_url', '*get_allowed_schemas', '*::deserialize_string', '*EitherBytes*::len', '*expected_repr_name', '*PyMultiHostUrl::__str__', '*PyMultiHostUrl::unicode_string', '*host_to_dict', '*PyMultiHostUrl::new', '*PyUrl::new', '*::from_config']}
ASSUMPTIONS = ['Url parsing, serialization and setters are the url crate\'s; isinstance / issubclass / callable are Python\'s; base64 and hex decoding are the crates\'']

def err(p, r, ok):
    return single_line_error(p, r) if p.feasible(NOT(ok)) else None


class ClassCheck(Contract):
    ask, variant, method = None, None, None

    def ret(self, p, r):
        ok = r.is_('Ok')
        ap = p.ev('*as_python')
        if ap is None:
            raise Lost('the python object')
        obj = p.V(ap.ret)
        et = err(p, r, ok)
        if p.holds(obj.is_('None')):
            p.require('only python objects can pass', AND(NOT(ok), et.is_('NeedsPythonObject') if et is not None else False))
            return
        o = obj.as_('Some')
        qs = [x for x in p.events(PYM + self.ask, PTM + self.ask) if p.holds(AND(p.V(x.args[0]).t == o.t, p.V(x.args[1]).t == p.arg(0).f('class').t))]
        yes = OR(*[AND(p.V(x.ret).is_('Ok'), p.V(x.ret).as_('Ok').z) for x in qs]) if qs else z3.BoolVal(False)
        no = AND(*[AND(p.V(x.ret).is_('Ok'), NOT(p.V(x.ret).as_('Ok').z)) for x in qs])
        p.require('accepted => the check of Python holds', IMP(ok, yes))
        p.require('accepted => the object itself is returned', IMP(ok, r.as_('Ok').t == o.t))
        if et is not None:
            p.require('rejected => the check of Python fails', AND(et.is_(self.variant), no, bool(qs) or self.ask == 'is_subclass'))
            p.require('the error names the class', et.as_(self.variant, 'class').eq(p.arg(0).f('class_repr')))
        else:
            p.require('an exception of Python is passed on', IMP(NOT(ok), AND(r.as_('Err').is_('InternalErr'), OR(*[p.V(x.ret).is_('Err') for x in qs]) if qs else False)))


PYM = 'pyo3::types::any::PyAnyMethods::'
PTM = 'pyo3::types::typeobject::PyTypeMethods::'
EXC = ('accepted => the check of Python holds', 'accepted => the object itself is returned', 'rejected => the check of Python fails', 'the error names the class', 'only python objects can pass')


@contract('C29', '<' + V_ + 'is_instance::IsInstanceValidator' + VAL, 'isinstance', models=STATE_MODELS, expect=EXC)
class IsInst(ClassCheck):
    ask, variant = 'is_instance', 'IsInstanceOf'


@contract('C29', '<' + V_ + 'is_subclass::IsSubclassValidator' + VAL, 'issubclass', models=STATE_MODELS, expect=EXC)
class IsSub(ClassCheck):
    ask, variant = 'is_subclass', 'IsSubclassOf'


@contract('C29', '<' + V_ + 'callable::CallableValidator' + VAL, 'callable', models=STATE_MODELS, expect=('accepted => callable', 'rejected => not callable', 'accepted => the object itself is returned'))
class Call(Contract):
    def ret(self, p, r):
        ok = r.is_('Ok')
        ap = p.ev('*as_python')
        if ap is None:
            raise Lost('the python object')
        obj = p.V(ap.ret)
        qs = [p.V(x.ret).z for x in p.events(PYM + 'is_callable') if p.holds(AND(obj.is_('Some'), p.V(x.args[0]).t == obj.as_('Some').t))]
        yes = AND(obj.is_('Some'), OR(*qs) if qs else False)
        p.require('accepted => callable', IMP(ok, yes))
        p.require('accepted => the object itself is returned', IMP(ok, r.as_('Ok').t == obj.as_('Some').t))
        et = err(p, r, ok)
        if p.feasible(NOT(ok)):
            p.require('rejected => not callable', IMP(NOT(ok), AND(NOT(yes), OR(obj.is_('None'), bool(qs)), et.is_('CallableType') if et is not None else False)))


for n, f in (('isinstance', 'is_instance::IsInstanceValidator'), ('issubclass', 'is_subclass::IsSubclassValidator')):
    @contract('C29', '<' + V_ + f + BLD, n + ' build', expect=('the class is that of the schema',))
    class CB(Contract):
        def ret(self, p, r):
            if not p.feasible(r.is_('Ok')):
                return
            v = r.as_('Ok')
            sv = v.as_('IsInstance') if p.holds(v.is_('IsInstance')) else v.as_('IsSubclass')
            g = [x for x in p.events('*get_as_req') if p.holds(AND(p.V(x.args[0]).eq(p.arg(0)), p.V(x.args[1]).eq('cls')))]
            p.require('the class is that of the schema', AND(len(g) == 1, *[sv.f('class').t == p.V(x.ret).as_('Ok').t for x in g]))


# ---- bytes
class BytesV(Contract):
    limits = False

    def ret(self, p, r):
        me, ok = p.arg(0), r.is_('Ok')
        ev = p.ev('*Input::validate_bytes')
        if ev is None:
            raise Lost('validate_bytes')
        p.require('strict flag', p.V(ev.args[1]).eq(p.V(strict_or(p, p.arg(3), me.f('strict')))))
        p.require('the configured encoding is used', p.V(ev.args[2]).t == me.f('bytes_mode').t)
        res = p.V(ev.ret)
        if p.holds(res.is_('Err')):
            p.require('a conversion error is propagated', AND(NOT(ok), r.as_('Err').eq(res.as_('Err'))))
            return
        b = res.as_('Ok').f(0)
        p.require('accepted => the bytes are returned', IMP(ok, r.as_('Ok').t == uf('topy', Val, Val)(b.t)))
        if self.limits:
            ls = [p.V(x.ret) for x in p.events('*EitherBytes*::len') if p.holds(p.V(x.args[0]).t == b.t)]
            if not ls:
                raise Lost('the length')
            n = ls[0].as_('Ok').z
            for k, f in (('min_length', lambda m: n >= m), ('max_length', lambda m: n <= m)):
                p.require(f'accepted => {k} holds', IMP(AND(ok, me.f(k).is_('Some')), AND(ls[0].is_('Ok'), f(me.f(k).as_('Some').z))))
            et = err(p, r, ok)
            if et is not None:
                for k, v, f in (('min_length', 'BytesTooShort', lambda m: n < m), ('max_length', 'BytesTooLong', lambda m: n > m)):
                    if p.feasible(et.is_(v)):
                        p.require('a length error means the limit is violated and reports it', IMP(et.is_(v), AND(me.f(k).is_('Some'), f(me.f(k).as_('Some').z), et.as_(v, k).z == me.f(k).as_('Some').z)))


contract('C29', '<' + V_ + 'bytes::BytesValidator' + VAL, 'bytes', models=STATE_MODELS, expect=('strict flag', 'the configured encoding is used', 'accepted => the bytes are returned'))(type('B1', (BytesV,), {}))
contract('C29', '<' + V_ + 'bytes::BytesConstrainedValidator' + VAL, 'constrained bytes', models=STATE_MODELS, expect=('strict flag', 'the configured encoding is used', 'accepted => the bytes are returned', 'accepted => min_length holds', 'accepted => max_length holds', 'a length error means the limit is violated and reports it'))(type('B2', (BytesV,), {'limits': True}))


@contract('C29', V_ + 'bytes::BytesConstrainedValidator::build', 'constrained bytes build', expect=('limits come from the schema', 'the encoding comes from the config'))
class BB(Contract):
    var = 'ConstrainedBytes'
    keys = ('min_length', 'max_length')

    def ret(self, p, r):
        if not p.feasible(r.is_('Ok')):
            return
        if not p.holds(r.as_('Ok').is_(self.var)):
            b = p.ev('*BytesConstrainedValidator::build')
            p.require('limits are checked when there are any', AND(b is not None, *([r.eq(p.V(b.ret)), p.V(b.args[0]).eq(p.arg(0)), opt_eq(p.V(b.args[1]), p.arg(1))] if b is not None else [])))
            return
        sv = r.as_('Ok').as_(self.var)
        for k in self.keys:
            cand = [x for x in p.events('*get_as') if p.holds(AND(p.V(x.args[1]).eq(k), p.V(x.args[0]).eq(p.arg(0))))]
            p.require('limits come from the schema', OR(*[opt_eq(sv.f(k), p.V(x.ret).as_('Ok')) for x in cand]) if cand else False)
        if not self.keys:
            for k in ('min_length', 'max_length'):
                cand = [x for x in p.events('*get_item') if p.holds(AND(p.V(x.args[1]).eq(k), p.V(x.args[0]).eq(p.arg(0))))]
                p.require('without limits nothing is limited', OR(*[p.V(x.ret).as_('Ok').is_('None') for x in cand]) if cand else False)
        fc = [x for x in p.events('*from_config') if p.holds(opt_eq(p.V(x.args[0]), p.arg(1)))]
        p.require('the encoding comes from the config', OR(*[sv.f('bytes_mode').t == p.V(x.ret).as_('Ok').t for x in fc]) if fc else False)
        s = [x for x in p.events('*is_strict') if p.holds(AND(p.V(x.args[0]).eq(p.arg(0)), p.V(x.args[1]).eq(p.arg(1))))]
        p.require('strict is schema, else config', OR(*[sv.f('strict').eq(p.V(x.ret).as_('Ok')) for x in s]) if s else False)


@contract('C29', '<' + V_ + 'bytes::BytesValidator' + BLD, 'bytes build', stop=('*BytesConstrainedValidator::build',), expect=('limits are checked when there are any', 'without limits nothing is limited', 'the encoding comes from the config'))
class BB2(BB):
    var, keys = 'Bytes', ()


@contract('C29', V_ + 'config::ValBytesMode::deserialize_string', 'deserialize_string', stop=(), expect=('UTF-8 text stands for its bytes', 'base64 text is decoded, in the URL-safe or the standard alphabet', 'hex text is decoded', 'undecodable text is an error'))
class Deser(Contract):
    def ret(self, p, r):
        m, s, ok = p.arg(0).f('ser'), p.arg(1), r.is_('Ok')
        dec = p.events('*decode')
        if p.holds(m.is_('Utf8')):
            p.require('UTF-8 text stands for its bytes', AND(ok, not dec, mentions(r.as_('Ok').t, s.t)))
            return
        if p.holds(m.is_('Hex')):
            p.require('hex text is decoded', AND(len(dec) == 1, *[AND(x.name.startswith('hex::'), mentions(p.V(x.args[0]).t, s.t)) for x in dec]))
        else:
            p.require('base64 text is decoded, in the URL-safe or the standard alphabet', AND(m.is_('Base64'), len(dec) in (1, 2), *[AND('ase64' in x.name or 'ngine' in x.name, mentions(p.V(x.args[1]).t, s.t)) for x in dec]))
            d0 = p.V(dec[0].ret)
            e0 = d0.as_('Err')
            other = AND(d0.is_('Err'), e0.is_('InvalidByte'), OR(e0.as_('InvalidByte', 1).z == ord('/'), e0.as_('InvalidByte', 1).z == ord('+')))
            p.require('base64 text is decoded, in the URL-safe or the standard alphabet', AND(other == (len(dec) == 2), len({str(p.V(x.args[0]).t) for x in dec}) == len(dec), 'URL_SAFE' in str(p.V(dec[0].args[0]).t)))
        last = p.V(dec[-1].ret)
        p.require('the decoded bytes are the result', AND(ok == last.is_('Ok'), IMP(ok, mentions(r.as_('Ok').t, last.as_('Ok').t))))
        if p.feasible(NOT(ok)):
            p.require('undecodable text is an error', IMP(NOT(ok), r.as_('Err').is_('BytesInvalidEncoding')))


# ---- URLs
class UrlVal(Contract):
    def ret(self, p, r):
        me, ok = p.arg(0), r.is_('Ok')
        g = p.ev('*UrlValidator::get_url')
        if g is None:
            raise Lost('the URL')
        p.require('strict flag', AND(p.V(g.args[1]).t == p.arg(2).t, p.V(g.args[2]).eq(p.V(strict_or(p, p.arg(3), me.f('strict'))))))
        G = p.V(g.ret)
        if p.holds(G.is_('Err')):
            p.require('what is no URL is rejected', AND(NOT(ok), r.as_('Err').eq(G.as_('Err'))))
            return
        u = G.as_('Ok')
        al = me.f('allowed_schemes')
        ct = []
        for x in p.events('*contains'):
            sc = [y for y in p.events('*Url::scheme') if p.holds(p.V(x.args[1]).t == p.V(y.ret).t) and self.of(p, p.V(y.args[0]).t, u.t)]
            if sc and p.holds(AND(al.is_('Some'), p.V(x.args[0]).t == al.as_('Some').f(0).t)):
                ct.append(p.V(x.ret).z)
        allowed = OR(al.is_('None'), OR(*ct) if ct else False)
        ds = p.events('*check_sub_defaults')
        et = err(p, r, ok)
        if not ds:
            p.require('a scheme error means the scheme is not allowed', AND(NOT(ok), NOT(allowed), bool(ct), et.is_('UrlScheme'), et.as_('UrlScheme', 'expected_schemes').eq(al.as_('Some').f(1))) if et is not None else False)
            return
        d = ds[0]
        p.require('accepted => the scheme is allowed', IMP(ok, allowed))
        p.require('host requirement and defaults are those declared', AND(len(ds) == 1, p.V(d.args[0]).t == u.t, p.V(d.args[1]).eq(me.f('host_required')), opt_eq(p.V(d.args[2]), me.f('default_host')), opt_eq(p.V(d.args[3]), me.f('default_port')), opt_eq(p.V(d.args[4]), me.f('default_path'))))
        R_ = p.V(d.ret)
        if p.holds(R_.is_('Err')):
            p.require('a missing host is rejected', AND(NOT(ok), et.eq(R_.as_('Err')) if et is not None else False))
        else:
            now = p.V(d.raw[0])
            p.require('the URL with its defaults is the result', AND(R_.is_('Ok'), IMP(ok, r.as_('Ok').t == uf('topy', Val, Val)(now.t))))

    def of(self, p, t, u):
        """the url of u: of its python object, or itself"""
        if mentions(t, u):
            return True
        for y in p.st.events:
            if y.ret is not None and y.args and mentions(t, p.V(y.ret).t) and y.name.split('::')[-1] in ('get', 'lib_url', 'url') and mentions(p.V(y.args[0]).t, u):
                return True
        return False


UX = ('strict flag', 'what is no URL is rejected', 'accepted => the scheme is allowed', 'a scheme error means the scheme is not allowed', 'host requirement and defaults are those declared', 'a missing host is rejected', 'the URL with its defaults is the result')
contract('C29', '<' + UR + 'UrlValidator' + VAL, 'Url::validate', models=STATE_MODELS, stop=('*UrlValidator::get_url',), expect=UX)(type('U1', (UrlVal,), {}))
contract('C29', '<' + UR + 'MultiHostUrlValidator' + VAL, 'MultiHostUrl::validate', models=STATE_MODELS, stop=('*UrlValidator::get_url',), expect=UX)(type('U2', (UrlVal,), {}))


class GetUrl(Contract):
    parse, multi = '*url::parse_url', False

    def ret(self, p, r):
        me, ok = p.arg(0), r.is_('Ok')
        s = p.ev('*Input::validate_str')
        if s is None:
            raise Lost('the text')
        p.require('strict flag', AND(p.V(s.args[0]).t == p.arg(1).t, p.V(s.args[1]).eq(p.arg(2))))
        S = p.V(s.ret)
        mx = me.f('max_length')
        M = mx.as_('Some').z
        ps = p.events(self.parse)
        et = err(p, r, ok)
        strs = [y for y in p.events('*PyMultiHostUrl::__str__', '*Url::as_str')]
        if p.holds(S.is_('Ok')):
            texts = [p.V(ps[0].args[0])] if ps else None
            if ps:
                p.require('the text is parsed', AND(len(ps) == 1, mentions(p.V(ps[0].args[0]).t, S.t)))
        else:
            texts = [p.V(y.ret) for y in strs] or None
        if texts is not None:
            n = texts[0].len()
            fits = OR(mx.is_('None'), n <= M)
            p.require('accepted => max_length holds', IMP(ok, fits))
            if et is not None and p.feasible(et.is_('UrlTooLong')):
                p.require('a length error means too long and reports the limit', IMP(et.is_('UrlTooLong'), AND(NOT(fits), et.as_('UrlTooLong', 'max_length').z == M)))
        elif et is not None and p.feasible(et.is_('UrlTooLong')):
            p.require('a length error means there is a limit', IMP(et.is_('UrlTooLong'), AND(mx.is_('Some'), et.as_('UrlTooLong', 'max_length').z == M)))
        else:
            kinds = [p.V(x.ret) for x in p.events('*as_python')]
            if p.holds(S.is_('Err')):
                p.require('without a limit every URL is taken', IMP(ok, mx.is_('None')))
        if ps:
            x = ps[0]
            p.require('text is parsed in the mode asked for', AND(p.V(x.args[2]).eq(p.arg(2)), *([OR(*[p.V(x.args[0]).t == p.V(y.ret).t for y in strs])] if strs else [mentions(p.V(x.args[0]).t, S.t)])))
            R_ = p.V(x.ret)
            p.require('the parsed URL is the result', AND(ok == R_.is_('Ok'), IMP(ok, AND(r.as_('Ok').is_('Rust'), r.as_('Ok').as_('Rust').t == R_.as_('Ok').t)), IMP(NOT(ok), r.as_('Err').eq(R_.as_('Err')))))
        elif p.feasible(ok):
            src = [p.V(x.ret) for x in p.events('*as_python')]
            if strs:
                whole = all(y.name.endswith('__str__') for y in strs)
                p.require('the length measured is that of the whole text', IMP(AND(ok, r.as_('Ok').is_('Py')), whole == self.multi))
            p.require('a URL object is taken as it is', IMP(ok, OR(*[mentions(self.taken(p, r), a.t) for a in src]) if src else False))

    def taken(self, p, r):
        t = r.as_('Ok').t
        for y in p.st.events:
            if y.ret is not None and y.args and mentions(t, p.V(y.ret).t):
                t = z3.Function('seen', Val, Val, Val)(t, p.V(y.args[0]).t)
        for y in p.st.events:
            if y.ret is not None and y.args and mentions(t, p.V(y.ret).t):
                t = z3.Function('seen', Val, Val, Val)(t, p.V(y.args[0]).t)
        return t


GX = ('strict flag', 'the text is parsed', 'accepted => max_length holds', 'a length error means too long and reports the limit', 'text is parsed in the mode asked for', 'the parsed URL is the result', 'a URL object is taken as it is')
contract('C29', UR + 'UrlValidator::get_url', 'Url::get_url', expect=GX[:3] + GX[4:])(type('G1', (GetUrl,), {}))
contract('C29', UR + 'MultiHostUrlValidator::get_url', 'MultiHostUrl::get_url', expect=GX[:3] + GX[4:])(type('G2', (GetUrl,), {'parse': '*parse_multihost_url', 'multi': True}))


URLS = [(('*CopyFromPyUrl::url', '*Url::has_host', '*Url::port', '*Url::path'), lambda c: c.pure(log=True))]


@contract('C29', UR + 'check_sub_defaults', 'check_sub_defaults', stop=(), models=URLS,
          expect=('a URL without host only passes when none is required', 'the default host is set where there is none', 'the default port is set where there is none', 'the default path is set where there is none', 'rejected => the host is missing or a default does not apply'))
class Sub(Contract):
    def ret(self, p, r):
        ok = r.is_('Ok')
        req, dh, dp, dpa = p.arg(1).z, p.arg(2), p.arg(3), p.arg(4)
        hh = p.events('*Url::has_host')
        if not hh:
            raise Lost('has_host')
        has = p.V(hh[0].ret).z
        sh, sp, sa = p.events('*Url::set_host'), p.events('*Url::set_port'), p.events('*Url::set_path')
        set_h = OR(*[p.V(x.ret).is_('Ok') for x in sh]) if sh else False
        p.require('a URL without host only passes when none is required', IMP(ok, OR(has, AND(dh.is_('Some'), set_h), AND(dh.is_('None'), NOT(req)))))
        p.require('the default host is set where there is none', AND(len(sh) <= 1, *[AND(NOT(has), dh.is_('Some'), p.V(x.args[1]).is_('Some'), p.V(x.args[1]).as_('Some').t == dh.as_('Some').t) for x in sh]))
        po, pa = p.events('*Url::port'), p.events('*Url::path')
        pa = [x for x in pa if p.V(x.ret).t.eq(p.V(pa[-1].ret).t)]
        p.require('the default port is set where there is none', AND(len(sp) <= 1, IMP(AND(ok, dp.is_('Some')), AND(len(po) >= 1, *[p.V(x.ret).is_('None') == bool(sp) for x in po])),
                  *[AND(dp.is_('Some'), len(po) >= 1, *[p.V(y.ret).is_('None') for y in po], p.V(x.args[1]).is_('Some'), p.V(x.args[1]).as_('Some').z == dp.as_('Some').z, IMP(ok, p.V(x.ret).is_('Ok'))) for x in sp]))
        empty = [OR(p.V(x.ret).len() == 0, p.V(x.ret).eq('/')) for x in pa]
        p.require('the default path is set where there is none', AND(len(sa) <= 1, IMP(AND(ok, dpa.is_('Some')), AND(len(pa) >= 1, *[c == bool(sa) for c in empty])),
                  *[AND(dpa.is_('Some'), len(pa) >= 1, *empty, p.V(x.args[1]).t == dpa.as_('Some').t) for x in sa]))
        fail = [p.V(x.ret).is_('Err') for x in sh + sp]
        p.require('rejected => the host is missing or a default does not apply', IMP(NOT(ok), OR(AND(NOT(has), dh.is_('None'), req), *fail)))
        if p.feasible(NOT(ok)):
            p.require('the rejection is a parsing error', IMP(NOT(ok), r.as_('Err').is_('UrlParsing')))


@contract('C29', UR + 'parse_url', 'parse_url', stop=(), expect=('an empty text is no URL', 'lax mode takes what the URL library takes', 'strict mode takes what the URL library takes without a violation', 'a syntax error means a violation was reported'))
class Parse(Contract):
    def ret(self, p, r):
        ok = r.is_('Ok')
        et = err(p, r, ok)
        ps = p.events('*parse')
        empty = p.arg(0).len() == 0
        if not ps:
            p.require('an empty text is no URL', AND(empty, NOT(ok), et.is_('UrlParsing') if et is not None else False))
            return
        x = ps[0]
        p.require('the text is parsed', AND(NOT(empty), len(ps) == 1, mentions(p.V(x.args[-1]).t, p.arg(0).t)))
        R_ = p.V(x.ret)
        if p.holds(NOT(p.arg(2).z)):
            p.require('lax mode takes what the URL library takes', AND(len(x.args) == 1, ok == R_.is_('Ok'), IMP(ok, r.as_('Ok').t == R_.as_('Ok').t), IMP(NOT(ok), et.is_('UrlParsing') if et is not None else False)))
            return
        cb = p.ev('*syntax_violation_callback')
        vi = p.ev('*into_inner')
        p.require('strict mode asks for violations', AND(p.arg(2).z, cb is not None, *([p.V(cb.args[1]).is_('Some'), p.V(x.args[0]).t == p.V(cb.ret).t] if cb is not None else [])))
        if p.holds(R_.is_('Err')):
            p.require('strict mode takes what the URL library takes without a violation', AND(NOT(ok), et.is_('UrlParsing') if et is not None else False))
            return
        if vi is None:
            raise Lost('the violations')
        v = p.V(vi.ret)
        p.require('strict mode takes what the URL library takes without a violation', AND(ok == AND(R_.is_('Ok'), v.is_('None')), IMP(ok, r.as_('Ok').t == R_.as_('Ok').t)))
        if et is not None:
            p.require('a syntax error means a violation was reported', AND(et.is_('UrlSyntaxViolation'), v.is_('Some')))


@contract('C29', UR + 'get_allowed_schemas', 'get_allowed_schemas', stop=(), expect=('every listed scheme is allowed', 'without a list every scheme is allowed'))
class Allowed(Contract):
    def src(self, p):
        g = [x for x in p.events('*get_as') if p.holds(AND(p.V(x.args[1]).eq('allowed_schemes'), p.V(x.args[0]).eq(p.arg(0))))]
        if len(g) != 1:
            raise Lost('the list of schemes')
        return p.V(g[0].ret)

    def iter(self, p, L):
        s = self.src(p).as_('Ok').as_('Some')
        evs = p.iter_events()
        nx = nexts(evs)
        if len(nx) != 1:
            raise Lost('the scheme of this round')
        it = p.V(nx[0].ret).as_('Some')
        ex = [y for y in evs if y.name.endswith('::extract') and p.holds(p.V(y.args[0]).t == it.t)]
        ins = [y for y in evs if y.name.endswith('::insert')]
        p.require('every listed scheme is allowed', AND(from_start(p, L, s), len(ex) == 1, len(ins) == 1, *[AND(p.V(x.ret).is_('Ok'), p.V(y.args[1]).t == p.V(x.ret).as_('Ok').t) for x in ex for y in ins]))

    def ret(self, p, r):
        s = self.src(p)
        ok = r.is_('Ok')
        if p.holds(s.is_('Err')):
            p.require('a wrong list is an error', NOT(ok))
            return
        o = s.as_('Ok')
        al = r.as_('Ok').f(0)
        if p.holds(o.is_('None')):
            p.require('without a list every scheme is allowed', AND(ok, al.is_('None')))
            return
        ls = loops(p)
        if not ls:
            p.require('an empty list is an error', NOT(ok))
            return
        nx = nexts(p.st.events[ls[0][1] + 1:])
        done = p.V(nx[0].ret).is_('None') if nx else False
        sets = [v.head for v in loop_vars(p, ls[0][0], 'HashSet')]
        p.require('every listed scheme is allowed', IMP(ok, AND(done, al.is_('Some'), len(sets) == 1, *[al.as_('Some').f(0).t == v.t for v in sets])))
        p.require('a wrong scheme is an error', IMP(NOT(ok), NOT(done)))


for n in ('UrlValidator', 'MultiHostUrlValidator'):
    @contract('C29', '<' + UR + n + BLD, n + ' build', expect=('every setting comes from its schema key', 'the allowed schemes are those of the schema', 'strict is schema, else config'))
    class UB(Contract):
        def ret(self, p, r):
            if not p.feasible(r.is_('Ok')):
                return
            v = r.as_('Ok')
            sv = v.as_('Url') if p.holds(v.is_('Url')) else v.as_('MultiHostUrl')
            for k in ('max_length', 'default_host', 'default_port', 'default_path', 'host_required'):
                cand = [p.V(x.ret).as_('Ok') for x in p.events('*get_as') if p.holds(AND(p.V(x.args[1]).eq(k), p.V(x.args[0]).eq(p.arg(0))))]
                if k == 'host_required':
                    c = OR(*[sv.f(k).z == z3.If(x.is_('Some'), x.as_('Some').z, False) for x in cand]) if cand else False
                else:
                    c = OR(*[opt_eq(sv.f(k), x) for x in cand]) if cand else False
                p.require('every setting comes from its schema key', c, k)
            a = [p.V(x.ret).as_('Ok') for x in p.events('*get_allowed_schemas') if p.holds(p.V(x.args[0]).eq(p.arg(0)))]
            p.require('the allowed schemes are those of the schema', OR(*[sv.f('allowed_schemes').t == x.f(0).t for x in a]) if a else False)
            s = [x for x in p.events('*is_strict') if p.holds(AND(p.V(x.args[0]).eq(p.arg(0)), p.V(x.args[1]).eq(p.arg(1))))]
            p.require('strict is schema, else config', OR(*[sv.f('strict').eq(p.V(x.ret).as_('Ok')) for x in s]) if s else False)


class UrlMut(Contract):
    """a default is set on a copy: the URL object given keeps its value, and the copy is the whole of it"""

    def ret(self, p, r):
        a, n = p.arg(0), p.arg_now(0)
        g = p.events('*::get')
        p.require('a URL object is not modified, its copy is', n.is_('Rust'))
        if p.holds(a.is_('Rust')):
            p.require('the URL itself is modified', n.as_('Rust').t == a.as_('Rust').t)
        elif not g:
            raise Lost('the URL of the object')
        else:
            p.require('the copy is the whole URL', OR(*[self.same(p, n.as_('Rust'), p.V(x.ret)) for x in g]))

    def same(self, p, n, o):
        return n.t == o.t


UMX = ('a URL object is not modified, its copy is', 'the URL itself is modified', 'the copy is the whole URL')
contract('C29', '<' + UR + 'EitherMultiHostUrl<*> as *CopyFromPyUrl>::url_mut', 'MultiHostUrl::url_mut', expect=UMX)(type('M1', (UrlMut,), {}))


class UrlMut1(UrlMut):
    def same(self, p, n, o):
        return n.t == o.f('lib_url').t


contract('C29', '<' + UR + 'EitherUrl<*> as *CopyFromPyUrl>::url_mut', 'Url::url_mut', expect=UMX)(type('M2', (UrlMut1,), {}))


class UrlCmp(Contract):
    """URL objects compare as their URLs (multi-host ones as their texts), in each of the six comparisons"""

    def ret(self, p, r):
        op, ok = p.arg(2), r.is_('Ok')
        a, b = self.texts(p)
        lt, gt, eq = uf('ord.lt', Val, Val, z3.BoolSort())(a, b), uf('ord.lt', Val, Val, z3.BoolSort())(b, a), a == b
        want = {'Lt': lt, 'Le': OR(lt, eq), 'Eq': eq, 'Ne': NOT(eq), 'Gt': gt, 'Ge': OR(gt, eq)}
        p.require('each comparison is that of the URLs', AND(ok, *[IMP(op.is_(k), r.as_('Ok').z == w) for k, w in want.items()]))

    def texts(self, p):
        return p.arg(0).f('lib_url').t, p.arg(1).f('lib_url').t


class TextCmp(UrlCmp):
    def texts(self, p):
        out = []
        for i in (0, 1):
            x = [y for y in p.events('*unicode_string') if p.holds(p.V(y.args[0]).t == p.arg(i).t)]
            if not x:
                raise Lost('the texts compared')
            out.append(p.V(x[0].ret).t)
        return out


contract('C29', '_pydantic_core::url::PyUrl::__richcmp__', 'Url::__richcmp__', expect=('each comparison is that of the URLs',))(type('Q1', (UrlCmp,), {}))
contract('C29', '_pydantic_core::url::PyMultiHostUrl::__richcmp__', 'MultiHostUrl::__richcmp__', stop=('*unicode_string',), expect=('each comparison is that of the URLs',))(type('Q2', (TextCmp,), {}))


@contract('C29', '_pydantic_core::url::PyMultiHostUrl::hosts', 'MultiHostUrl::hosts', expect=('each further host is listed once, in order', 'the main host comes last', 'without hosts the list is empty', 'fails only if a host has no parts'))
class Hosts(Contract):
    def split(self, evs):
        return [x for x in evs if x.name.endswith('host_to_dict')], [x for x in evs if x.name.endswith('::push')], [x for x in evs if x.name == '<next>']

    def iter(self, p, L):
        h, pu, nx = self.split(p.iter_events())
        good = len(h) == 1 and len(pu) == 1 and len(nx) == 1
        p.require('each further host is listed once, in order', AND(good, *[AND(p.V(h[0].args[1]).t == p.V(nx[0].ret).as_('Some').t, p.V(h[0].ret).is_('Ok'), p.V(pu[0].args[1]).t == p.V(h[0].ret).as_('Ok').t, p.V(nx[0].args[0]).t == p.arg(0).f('extra_urls').as_('Some').t) for _ in [0] if good]))

    def ret(self, p, r):
        me, ok = p.arg(0), r.is_('Ok')
        h, pu, nx = self.split(p.st.events)
        u = me.f('ref_url', 'lib_url').t
        main = [x for x in h if p.holds(p.V(x.args[1]).t == u)]
        p.require('fails only if a host has no parts', IMP(NOT(ok), OR(*[p.V(x.ret).is_('Err') for x in h]) if h else False))
        if not p.feasible(ok):
            return
        ex = me.f('extra_urls')
        hh = p.events('*Url::has_host')
        if p.holds(ex.is_('Some')):
            last = p.st.events[-1] if p.st.events else None
            p.require('the main host comes last', AND(len(main) == 1, bool(pu), *([p.V(pu[-1].args[1]).t == p.V(main[0].ret).as_('Ok').t, last is pu[-1]] if pu and main else [])))
        elif hh:
            has = p.V(hh[0].ret).z
            n = r.as_('Ok').len()
            p.require('without hosts the list is empty', AND(p.V(hh[0].args[0]).t == u, n == z3.If(has, 1, 0), has == (len(main) == 1)))
        else:
            raise Lost('has_host')
