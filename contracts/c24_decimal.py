"""C24: decimal and UUID constraints are exact"""
from contracts.common import *
from contracts.fields import nexts
from mirv.models import m_rev

VAL = ' as _pydantic_core::validators::Validator>::validate'
BLD = ' as _pydantic_core::validators::BuildValidator>::build'
DV, UV = '_pydantic_core::validators::decimal::', '_pydantic_core::validators::uuid::'
DUMP = {'stop': ['*extract_decimal_digits_info', '_pydantic_core::build_tools::*', '*SchemaDict*', '*validate_as_decimal', '*create_decimal', '*get_decimal_type', '*get_uuid_type', '*create_py_uuid', '*::get_uuid']}
ASSUMPTIONS = ['Decimal\'s own is_finite, is_nan, as_tuple, comparison and remainder operations are Python\'s (remainder and comparison are exact, or raise)',
               'Uuid::parse_str / from_slice, get_version_num and get_variant of the uuid crate are the RFC 9562 operations']
BOUNDS = (('le', 'LessThanEqual'), ('lt', 'LessThan'), ('ge', 'GreaterThanEqual'), ('gt', 'GreaterThan'))
TOPY = uf('topy', Val, Val)
PY = 'pyo3::types::any::PyAnyMethods::'




@contract('C24', '<' + DV + 'DecimalValidator' + VAL, 'Decimal::validate', models=STATE_MODELS,
          expect=tuple(f'accepted => {k} holds' for k, _ in BOUNDS) + tuple(f'a {v} error means {k} is violated and reports it' for k, v in BOUNDS)
          + ('accepted => finite unless allowed', 'accepted => at most max_digits digits', 'accepted => at most decimal_places places', 'accepted => at most max_digits - decimal_places whole digits', 'accepted => multiple_of holds',
             'accepted => the decimal itself is returned', 'strict flag', 'a digits error means the limit is violated and reports it'))
class Dec(Contract):
    def answer(self, p, recv, name):
        """(asked, yes) of a nullary method of the decimal that gives a bool"""
        asked, yes = False, False
        for ev in p.events(PY + 'call_method0'):
            if not p.holds(AND(p.V(ev.args[0]).t == recv.t, p.V(ev.args[1]).eq(name))):
                continue
            for x in p.events(PY + 'extract'):
                if p.holds(AND(p.V(ev.ret).is_('Ok'), p.V(x.args[0]).t == p.V(ev.ret).as_('Ok').t)):
                    r = p.V(x.ret)
                    asked, yes = OR(asked, r.is_('Ok')), OR(yes, AND(r.is_('Ok'), r.as_('Ok').z))
        return asked, yes

    def cmp(self, p, recv, op, other):
        """(answered, yes) of the comparison recv op other"""
        asked, yes = False, False
        for ev in p.events(PY + op):
            if p.holds(AND(p.V(ev.args[0]).t == recv.t, p.V(ev.args[1]).t == other.t)):
                r = p.V(ev.ret)
                asked, yes = OR(asked, r.is_('Ok')), OR(yes, AND(r.is_('Ok'), r.as_('Ok').z))
        return asked, yes

    def ret(self, p, r):
        me = p.arg(0)
        ev = p.ev('*Input::validate_decimal')
        if ev is None:
            raise Lost('validate_decimal')
        p.require('strict flag', p.V(ev.args[1]).eq(p.V(strict_or(p, p.arg(3), me.f('strict')))))
        res = p.V(ev.ret)
        ok = r.is_('Ok')
        if p.holds(res.is_('Err')):
            p.require('conversion error is propagated', AND(NOT(ok), r.as_('Err').eq(res.as_('Err'))))
            return
        d = res.as_('Ok').f(0)
        _, fin = self.answer(p, d, 'is_finite')
        _, nan = self.answer(p, d, 'is_nan')
        info = {}
        for x in p.events('*extract_decimal_digits_info'):
            if not p.holds(p.V(x.args[0]).t == d.t):
                raise Lost('digits of another value')
            n = p.V(x.args[1])
            info[True if p.holds(n.z) else False] = p.V(x.ret)
        md, dp = me.f('max_digits'), me.f('decimal_places')
        MD, DP = md.as_('Some').z, dp.as_('Some').z
        cd = me.f('check_digits').z
        have = AND(*[info[k].is_('Ok') for k in (True, False)]) if len(info) == 2 else z3.BoolVal(False)

        def over(what):
            """the limit is exceeded, in the spelling and in the normalized form"""
            out = []
            for k in (True, False):
                dec, dig = info[k].as_('Ok').f(0).z, info[k].as_('Ok').f(1).z
                mw = z3.If(MD >= DP, MD - DP, 0)
                wh = z3.If(dig >= dec, dig - dec, 0)
                out.append({'digits': dig > MD, 'places': dec > DP, 'whole': wh > mw}[what])
            return AND({'digits': md.is_('Some'), 'places': dp.is_('Some'), 'whole': AND(md.is_('Some'), dp.is_('Some'))}[what], *out)
        mo = me.f('multiple_of')
        mult_asked, mult = False, False
        for x in p.events(PY + 'rem', '*ops::arith::Rem::rem'):
            if p.holds(AND(p.V(x.args[0]).t == d.t, p.V(x.args[1]).t == mo.as_('Some').t, p.V(x.ret).is_('Ok'))):
                z = [y for y in p.events(PY + 'eq') if p.holds(AND(p.V(y.args[0]).t == p.V(x.ret).as_('Ok').t, p.V(y.args[1]).t == TOPY(p.e.term(p.st, z3.IntVal(0)))))]
                for y in z:
                    q = p.V(y.ret)

                    mult_asked, mult = OR(mult_asked, q.is_('Ok')), OR(mult, AND(q.is_('Ok'), q.as_('Ok').z))
        if p.feasible(ok):
            p.require('accepted => the decimal itself is returned', IMP(ok, r.as_('Ok').t == d.t))
            p.require('accepted => finite unless allowed', IMP(ok, OR(AND(me.f('allow_inf_nan').z, NOT(cd)), fin)))
            un = IMP(ok, OR(NOT(cd), AND(True, *[info[k].is_('Ok') for k in info])))
            if len(info) == 2 and p.feasible(have):
                for w, t in (('digits', 'accepted => at most max_digits digits'), ('places', 'accepted => at most decimal_places places'), ('whole', 'accepted => at most max_digits - decimal_places whole digits')):
                    p.require(t, IMP(AND(ok, cd, have), NOT(over(w))))
            else:
                p.require('digits are judged where limits are set', IMP(AND(ok, cd), OR(*[info[k].is_('Err') for k in info]) if info else False))
            p.require('accepted => multiple_of holds', IMP(AND(ok, mo.is_('Some')), mult))
            for k, _ in BOUNDS:
                b = me.f(k)
                p.require(f'accepted => {k} holds', IMP(AND(ok, b.is_('Some')), self.cmp(p, d, k, b.as_('Some'))[1]))
        if not p.feasible(NOT(ok)):
            return
        et = single_line_error(p, r)
        if et is None:
            p.require('an exception of Python is passed on', AND(NOT(ok), r.as_('Err').is_('InternalErr')))
            return
        p.require('finite_number means not finite', IMP(et.is_('FiniteNumber'), AND(NOT(fin), self.answer(p, d, 'is_finite')[0])))
        for var, w, fld, lim in (('DecimalMaxDigits', 'digits', 'max_digits', MD), ('DecimalMaxPlaces', 'places', 'decimal_places', DP), ('DecimalWholeDigits', 'whole', 'whole_digits', z3.If(MD >= DP, MD - DP, 0))):
            if p.feasible(et.is_(var)):
                p.require('a digits error means the limit is violated and reports it', IMP(et.is_(var), AND(have, over(w), et.as_(var, fld).z == lim)) if len(info) == 2 else False, var)
        if p.feasible(et.is_('MultipleOf')):
            p.require('a MultipleOf error means it is no multiple', IMP(et.is_('MultipleOf'), AND(mo.is_('Some'), mult_asked, NOT(mult))))
        for k, var in BOUNDS:
            if p.feasible(et.is_(var)):
                b = me.f(k)
                asked, yes = self.cmp(p, d, k, b.as_('Some'))
                ts = [x for x in p.events('*ToString::to_string') if p.holds(p.V(x.args[0]).t == b.as_('Some').t)]
                rep = OR(*[AND(et.as_(var, k).is_('String'), et.as_(var, k).as_('String').eq(p.V(x.ret))) for x in ts]) if ts else False
                p.require(f'a {var} error means {k} is violated and reports it', IMP(et.is_(var), AND(b.is_('Some'), OR(nan, AND(asked, NOT(yes))), rep)))
        p.require('every rejection is one of the declared reasons', et.is_('FiniteNumber', 'DecimalMaxDigits', 'DecimalMaxPlaces', 'DecimalWholeDigits', 'MultipleOf', *[v for _, v in BOUNDS]))


@contract('C24', DV + 'extract_decimal_digits_info', 'extract_decimal_digits_info', stop=(),
          expect=('the places are those of the exponent', 'the digits are those written out', 'a zero at the end is no digit of the value', 'the digits are visited from the last one', 'the first digit that counts ends the search'))
class Digits(Contract):
    shared_models = [(('core::iter::traits::iterator::Iterator::rev',), m_rev)]

    def parts(self, p):
        """the digits and the exponent of the decimal"""
        d = p.arg(0)
        at = [x for x in p.events(PY + 'call_method0') if p.holds(AND(p.V(x.args[0]).t == d.t, p.V(x.args[1]).eq('as_tuple')))]
        if len(at) != 1:
            raise Lost('as_tuple of the decimal')
        if not p.holds(p.V(at[0].ret).is_('Ok')):
            return None
        ex = [x for x in p.events(PY + 'extract') if p.holds(p.V(x.args[0]).t == p.V(at[0].ret).as_('Ok').t)]
        if len(ex) != 1:
            raise Lost('the parts of the decimal')
        if not p.holds(p.V(ex[0].ret).is_('Ok')):
            return None
        t = p.V(ex[0].ret).as_('Ok')
        e = [x for x in p.events(PY + 'extract') if p.holds(p.V(x.args[0]).t == t.f(2).t)]
        if len(e) != 1:
            raise Lost('the exponent of the decimal')
        if not p.holds(p.V(e[0].ret).is_('Ok')):
            return None
        return t.f(1), p.V(e[0].ret).as_('Ok').z

    def vars(self, p, L, digits, exp):
        n = digits.len()
        vs = [v for v in loop_vars(p, L, '^(u64|i64|usize|u32|i32)$')]
        ds = [v for v in vs if p.holds(v.entry.z == n)]
        es = [v for v in vs if p.holds(v.entry.z == exp)]
        if len(ds) != 1 or len(es) != 1:
            raise Lost('the counters of the loop')
        return ds[0], es[0]

    def item(self, p, evs):
        nx = nexts(evs)
        if len(nx) != 1:
            raise Lost('the digit of this round')
        x = p.V(nx[0].ret)
        if p.holds(x.is_('None')):
            return None, None
        ex = [y for y in evs if y.name.endswith('PyAnyMethods::extract') and p.holds(p.V(y.args[0]).t == x.as_('Some').t)]
        if len(ex) != 1:
            raise Lost('the value of the digit')
        return x.as_('Some'), p.V(ex[0].ret)

    def iter(self, p, L):
        pt = self.parts(p)
        if pt is None:
            raise Lost('the parts of the decimal')
        p.require('the digits are visited from the last one', from_start(p, L, V(p, Op(pt[0].v.ty, uf('rev', Val, Val)(pt[0].t)))))
        d, e = self.vars(p, L, *pt)
        it, v = self.item(p, p.iter_events())
        p.require('a zero at the end is no digit of the value', AND(v is not None, *([v.is_('Ok'), v.as_('Ok').z == 0, d.cur.z == d.head.z - 1, e.cur.z == e.head.z + 1] if v is not None else [])))

    def ret(self, p, r):
        pt = self.parts(p)
        ok = r.is_('Ok')
        if pt is None:
            p.require('a decimal that cannot be read is no success', NOT(ok))
            return
        n, e = pt[0].len(), pt[1]
        norm = p.arg(1).z
        ls = loops(p)
        zero = z3.BoolVal(False)
        if ls:
            p.require('trailing zeros only count in the spelling', norm)
            d_, e_ = self.vars(p, ls[0][0], *pt)
            it, v = self.item(p, p.st.events[ls[0][1] + 1:])
            if v is not None:
                if p.holds(v.is_('Err')):
                    p.require('a decimal that cannot be read is no success', NOT(ok))
                    return
                p.require('the first digit that counts ends the search', v.as_('Ok').z != 0)
            n, e = d_.head.z, e_.head.z
            zero = n == 0
        else:
            p.require('trailing zeros only count in the spelling', NOT(norm))
        dec, dig = r.as_('Ok').f(0).z, r.as_('Ok').f(1).z
        p.require('readable digits are counted', ok)
        wd = z3.If(zero, z3.IntVal(0), z3.If(e >= 0, z3.IntVal(0), -e))
        wn = z3.If(zero, z3.IntVal(0), z3.If(e >= 0, n + e, z3.If(n >= -e, n, -e)))
        p.require('the places are those of the exponent', IMP(ok, dec == wd))
        p.require('the digits are those written out', IMP(ok, dig == wn))


@contract('C24', '<' + DV + 'DecimalValidator' + BLD, 'Decimal::build',
          expect=tuple(f'{k} comes from the schema key {k}' for k in ('le', 'lt', 'ge', 'gt', 'multiple_of', 'max_digits', 'decimal_places')) + ('digits are checked when a limit is set', 'allow_inf_nan is schema, else config, else false'))
class DBuild(Contract):
    def ret(self, p, r):
        if not p.feasible(r.is_('Ok')):
            return
        sv = r.as_('Ok').as_('Decimal')
        for k in ('le', 'lt', 'ge', 'gt', 'multiple_of'):
            cand = [x for x in p.events('*validate_as_decimal') if p.holds(AND(p.V(x.args[1]).eq(p.arg(0)), p.V(x.args[2]).eq(k)))]
            p.require(f'{k} comes from the schema key {k}', OR(*[opt_eq(sv.f(k), p.V(x.ret).as_('Ok')) for x in cand]) if cand else False)
        for k in ('max_digits', 'decimal_places'):
            cand = [x for x in p.events('*get_as') if p.holds(AND(p.V(x.args[1]).eq(k), p.V(x.args[0]).eq(p.arg(0))))]
            p.require(f'{k} comes from the schema key {k}', OR(*[opt_eq(sv.f(k), p.V(x.ret).as_('Ok')) for x in cand]) if cand else False)
        p.require('digits are checked when a limit is set', IMP(OR(sv.f('max_digits').is_('Some'), sv.f('decimal_places').is_('Some')), sv.f('check_digits').z))
        cand = [p.V(x.ret).as_('Ok') for x in p.events('*schema_or_config_same') if p.holds(AND(p.V(x.args[2]).eq('allow_inf_nan'), p.V(x.args[0]).eq(p.arg(0)), p.V(x.args[1]).eq(p.arg(1))))]
        p.require('allow_inf_nan is schema, else config, else false', OR(*[sv.f('allow_inf_nan').z == z3.If(x.is_('Some'), x.as_('Some').z, False) for x in cand]) if cand else False)
        s = [x for x in p.events('*is_strict') if p.holds(AND(p.V(x.args[0]).eq(p.arg(0)), p.V(x.args[1]).eq(p.arg(1))))]
        p.require('strict is schema, else config', OR(*[sv.f('strict').eq(p.V(x.ret).as_('Ok')) for x in s]) if s else False)


@contract('C24', DV + 'validate_as_decimal', 'validate_as_decimal', stop=('*validate_decimal',), expect=('a bound is what the schema entry converts to',))
class VAD(Contract):
    def ret(self, p, r):
        if p.holds(r.is_('Err')):
            p.require('a bound that is no decimal is an error of the schema', True)
            return
        g = [x for x in p.events('*get_item') if p.holds(p.V(x.args[1]).t == p.arg(2).t)]
        if len(g) != 1:
            raise Lost('the schema entry')
        o = p.V(g[0].ret).as_('Ok')
        v = r.as_('Ok')
        cr = [p.V(x.ret) for x in p.events('*validate_decimal') if p.holds(AND(p.V(x.args[0]).t == o.as_('Some').t, NOT(p.V(x.args[1]).z)))]
        p.require('a bound is what the schema entry converts to',
                  AND(p.V(g[0].ret).is_('Ok'), v.is_('Some') == o.is_('Some'), IMP(v.is_('Some'), OR(*[AND(c.is_('Ok'), v.as_('Some').t == c.as_('Ok').f(0).t) for c in cr]) if cr else False)))


def m_ver(c):
    """Uuid::get_version_num: the version nibble of the UUID"""
    r = VN(c, view(c, 0))
    c.event(r)
    return r


def m_get_uuid(c):
    """UuidValidator::get_uuid gives a UUID of the declared version number or an error (contract get_uuid)"""
    r = c.fresh('get_uuid')
    c.event(r)
    p = P(c.e, c.st, [], None)
    v, me = V(p, r, c.dty), view(c, 0)
    ver = me.f('version')
    c.e.fact(c.st, z3.Implies(z3.And(v.is_('Ok'), ver.is_('Some')), VN(c, v.as_('Ok')) == ver.as_('Some').z))
    return r


def VN(c, u):
    return uf('uuid.version', Val, z3.IntSort())(u.t)


UM = STATE_MODELS + [(('*get_version_num',), m_ver)]


@contract('C24', '<' + UV + 'UuidValidator' + VAL, 'Uuid::validate', models=UM,
          expect=('an instance is returned as it is', 'an instance has the declared version', 'text of the declared version and variant', 'the UUID of the text is returned', 'strict mode takes instances only from Python', 'a version error means another version and reports it'))
class UVal(Contract):
    def ret(self, p, r):
        me = p.arg(0)
        ok = r.is_('Ok')
        ct = p.ev('*get_uuid_type')
        if ct is None:
            raise Lost('the class')
        if p.holds(p.V(ct.ret).is_('Err')):
            p.require('an exception of Python is passed on', NOT(ok))
            return
        cls = p.V(ct.ret).as_('Ok')
        ap = p.ev('*as_python')
        if ap is None:
            raise Lost('the python object')
        obj = p.V(ap.ret)
        yes = [p.V(x.ret) for x in p.events(PY + 'is_instance') if p.holds(AND(obj.is_('Some'), p.V(x.args[0]).t == obj.as_('Some').t, p.V(x.args[1]).t == cls.t))]
        inst = AND(obj.is_('Some'), OR(*[AND(y.is_('Ok'), y.as_('Ok').z) for y in yes]) if yes else False)
        ver = me.f('version')
        V_ = ver.as_('Some').z
        strict = AND(strict_or(p, p.arg(3), me.f('strict')), p.arg(3).f('extra', 'input_type').is_('Python'))
        et = single_line_error(p, r) if p.feasible(NOT(ok)) else None
        gu = p.ev('*UuidValidator::get_uuid')
        if p.holds(inst):
            got = None
            for x in p.events(PY + 'getattr'):
                if p.holds(AND(p.V(x.args[0]).t == obj.as_('Some').t, p.V(x.args[1]).eq('version'), p.V(x.ret).is_('Ok'))):
                    for y in p.events(PY + 'extract'):
                        if p.holds(p.V(y.args[0]).t == p.V(x.ret).as_('Ok').t):
                            got = p.V(y.ret)
            match = AND(got.is_('Ok'), got.as_('Ok').is_('Some'), got.as_('Ok').as_('Some').z == V_) if got is not None else z3.BoolVal(False)
            p.require('an instance is returned as it is', IMP(ok, r.as_('Ok').t == obj.as_('Some').t))
            p.require('an instance has the declared version', IMP(AND(ok, ver.is_('Some')), match))
            if et is not None:
                p.require('a version error means another version and reports it', AND(et.is_('UuidVersion'), ver.is_('Some'), NOT(match), got.is_('Ok') if got is not None else False, et.as_('UuidVersion', 'expected_version').z == V_))
            else:
                p.require('an exception of Python is passed on', IMP(NOT(ok), r.as_('Err').is_('InternalErr')))
            return
        p.require('the object is asked for its class', OR(obj.is_('None'), bool(yes)))
        if gu is None:
            p.require('strict mode takes instances only from Python', AND(strict, NOT(ok), et.is_('IsInstanceOf') if et is not None else False))
            return
        p.require('strict mode takes instances only from Python', NOT(strict))
        p.require('the input is read as text or bytes', AND(p.V(gu.args[1]).t == p.arg(2).t))
        g = p.V(gu.ret)
        if p.holds(g.is_('Err')):
            p.require('a UUID that cannot be read is rejected', AND(NOT(ok), r.as_('Err').eq(g.as_('Err'))))
            return
        u = g.as_('Ok')
        var = [p.V(x.ret) for x in p.events('*Uuid::get_variant') if p.holds(p.V(x.args[0]).t == u.t)]
        good = AND(VN(p, u) == V_, OR(*[x.is_('RFC4122') for x in var]) if var else False)
        cr = p.ev('*create_py_uuid')
        if p.feasible(ok):
            p.require('text of the declared version and variant', IMP(AND(ok, ver.is_('Some')), good))
            p.require('the UUID of the text is returned', IMP(ok, AND(p.V(cr.args[1]).t == cls.t, p.V(cr.args[2]).t == u.t, r.eq(p.V(cr.ret))) if cr is not None else False))
        if cr is None and p.feasible(NOT(ok)):
            bad = OR(VN(p, u) != V_, *[NOT(x.is_('RFC4122')) for x in var])
            p.require('a version error means another version and reports it', AND(et.is_('UuidVersion'), ver.is_('Some'), bad, et.as_('UuidVersion', 'expected_version').z == V_) if et is not None else False)


@contract('C24', UV + 'UuidValidator::get_uuid', 'Uuid::get_uuid', models=UM, stop=(),
          expect=('text is read by the grammar of UUIDs', 'bytes are read as text, else as the 16 bytes', 'the version is the declared one', 'a version error means another version and reports it', 'what cannot be parsed is a parsing error', 'other input is a type error'))
class GetU(Contract):
    def ret(self, p, r):
        ver = p.arg(0).f('version')
        ok = r.is_('Ok')
        s, b = p.ev('*Input::validate_str'), p.ev('*Input::validate_bytes')
        if s is None:
            raise Lost('text')
        p.require('text is read by the grammar of UUIDs', AND(p.V(s.args[0]).t == p.arg(1).t, p.V(s.args[1]).z))
        ps = p.events('*Uuid::parse_str', '*parse_str')
        fs = p.events('*Uuid::from_slice', '*from_slice')
        S = p.V(s.ret)
        et = single_line_error(p, r) if p.feasible(NOT(ok)) else None
        if p.holds(S.is_('Ok')):
            if not ps:
                p.require('a text that cannot be read is an exception', NOT(ok))
                return
            p.require('text is read by the grammar of UUIDs', AND(len(ps) == 1, not fs, b is None, mentions(p.V(ps[0].args[0]).t, S.t)))
            parsed = p.V(ps[0].ret)
        else:
            p.require('text comes first', S.is_('Err'))
            if b is None:
                raise Lost('bytes')
            B = p.V(b.ret)
            p.require('bytes are read as text, else as the 16 bytes', AND(p.V(b.args[0]).t == p.arg(1).t, p.V(b.args[1]).z))
            if p.holds(B.is_('Err')):
                p.require('other input is a type error', AND(NOT(ok), et.is_('UuidType') if et is not None else False))
                return
            ut = p.events('*from_utf8')
            p.require('bytes are read as text, else as the 16 bytes', AND(len(ut) == 1, *[mentions(p.V(x.args[0]).t, B.t) for x in ut]))
            U = p.V(ut[0].ret)
            p.require('bytes are read as text, else as the 16 bytes', AND(len(ps) <= 1, IMP(U.is_('Ok'), len(ps) == 1), *[AND(U.is_('Ok'), mentions(p.V(x.args[0]).t, U.t)) for x in ps]))
            if ps and p.holds(p.V(ps[0].ret).is_('Ok')):
                parsed = p.V(ps[0].ret)
                p.require('bytes are read as text, else as the 16 bytes', len(fs) == 0)
            else:
                p.require('bytes are read as text, else as the 16 bytes', AND(len(fs) == 1, *[mentions(p.V(x.args[0]).t, B.t) for x in fs]))
                parsed = p.V(fs[0].ret)
        if p.holds(parsed.is_('Err')):
            p.require('what cannot be parsed is a parsing error', AND(NOT(ok), et.is_('UuidParsing') if et is not None else False))
            return
        u = parsed.as_('Ok')
        p.require('the UUID read is the result', IMP(ok, AND(parsed.is_('Ok'), r.as_('Ok').t == u.t)))
        p.require('the version is the declared one', IMP(AND(ok, ver.is_('Some')), VN(p, u) == ver.as_('Some').z))
        if p.feasible(NOT(ok)):
            p.require('a version error means another version and reports it', IMP(NOT(ok), AND(et.is_('UuidVersion'), ver.is_('Some'), VN(p, u) != ver.as_('Some').z, et.as_('UuidVersion', 'expected_version').z == ver.as_('Some').z) if et is not None else False))


@contract('C24', UV + 'UuidValidator::create_py_uuid', 'Uuid::create_py_uuid', stop=('*force_setattr', '*create_class'), expect=('the object holds the 128 bits',))
class CreateU(Contract):
    def ret(self, p, r):
        if not p.feasible(r.is_('Ok')):
            return
        cc = p.ev('*create_class')
        n = [x for x in p.events('*Uuid::as_u128') if p.holds(p.V(x.args[0]).t == p.arg(2).t)]
        sa = [x for x in p.events('*force_setattr') if p.holds(p.V(x.args[2]).eq('int'))]
        if cc is None or len(n) != 1:
            raise Lost('the object')
        p.require('the object holds the 128 bits', AND(p.V(cc.args[0]).t == p.arg(1).t, r.as_('Ok').t == p.V(cc.ret).as_('Ok').t, len(sa) == 1, *[AND(p.V(x.args[1]).t == r.as_('Ok').t, p.V(x.args[3]).eq(p.V(n[0].ret))) for x in sa]))


@contract('C24', '<' + UV + 'UuidValidator' + BLD, 'Uuid::build', expect=('the version is the declared one', 'strict is schema, else config'))
class UBuild(Contract):
    def ret(self, p, r):
        if not p.feasible(r.is_('Ok')):
            return
        sv = r.as_('Ok').as_('Uuid')
        g = [x for x in p.events('*get_as') if p.holds(AND(p.V(x.args[1]).eq('version'), p.V(x.args[0]).eq(p.arg(0))))]
        if len(g) != 1:
            raise Lost('version')
        v = p.V(g[0].ret).as_('Ok')
        p.require('the version is the declared one', AND(sv.f('version').is_('Some') == v.is_('Some'), IMP(v.is_('Some'), sv.f('version').as_('Some').z == v.as_('Some').z)))
        s = [x for x in p.events('*is_strict') if p.holds(AND(p.V(x.args[0]).eq(p.arg(0)), p.V(x.args[1]).eq(p.arg(1))))]
        p.require('strict is schema, else config', OR(*[sv.f('strict').eq(p.V(x.ret).as_('Ok')) for x in s]) if s else False)


@contract('C24', DV + 'create_decimal', 'create_decimal', stop=('*handle_decimal_new_error',), expect=('the decimal is what Decimal(value) gives',))
class CreateD(Contract):
    def ret(self, p, r):
        c = p.ev(PY + 'call1')
        if c is None:
            raise Lost('the call')
        gt = p.ev('*get_decimal_type')
        p.require('the decimal is what Decimal(value) gives', AND(p.V(c.args[0]).t == p.V(gt.ret).t if gt is not None else False, mentions(p.V(c.args[1]).t, p.arg(0).t), IMP(r.is_('Ok'), AND(p.V(c.ret).is_('Ok'), r.as_('Ok').t == p.V(c.ret).as_('Ok').t)), IMP(r.is_('Err'), p.V(c.ret).is_('Err'))))


IP = '_pydantic_core::input::input_python::*Input*::validate_decimal'
IJ = '_pydantic_core::input::input_json::*Input*for jiter*JsonValue*::validate_decimal'


@contract('C24', IP, 'python validate_decimal', expect=('a decimal is taken as it is', 'other values are converted by Decimal(value), floats by their text', 'strict mode takes decimals only'))
class PyDec(Contract):
    def yes(self, p, *names):
        """types the input is an instance of, by the calls that said so"""
        out = []
        for x in p.events(*names):
            r = p.V(x.ret)
            if p.holds(p.V(x.args[0]).t == p.arg(0).t):
                out.append((x, r.z if is_z3(r.v) and z3.is_bool(r.v) else AND(r.is_('Ok'), r.as_('Ok').z)))
        return out

    def ret(self, p, r):
        x, ok, strict = p.arg(0), r.is_('Ok'), p.arg(1).z
        exact = OR(*[c for _, c in self.yes(p, '*is_exact_instance')], False)
        sub = OR(*[c for _, c in self.yes(p, PY + 'is_instance')], False)
        cr = p.events('*create_decimal')
        if not cr:
            p.require('a decimal is taken as it is', IMP(ok, AND(exact, r.as_('Ok').f(0).t == x.t)))
            et = single_line_error(p, r) if p.feasible(NOT(ok)) else None
            if et is not None:
                p.require('what is no number is rejected', AND(NOT(exact), NOT(sub), et.is_('IsInstanceOf') == strict, IMP(NOT(strict), et.is_('DecimalType'))))
            return
        c = cr[0]
        p.require('other values are converted by Decimal(value), floats by their text', AND(len(cr) == 1, NOT(exact)))
        text = [y for y in p.events(PY + 'str') if p.holds(AND(p.V(y.args[0]).t == x.t, p.V(y.ret).is_('Ok'), p.V(c.args[0]).t == p.V(y.ret).as_('Ok').t))]
        p.require('other values are converted by Decimal(value), floats by their text', OR(p.V(c.args[0]).t == x.t, bool(text)))
        p.require('strict mode takes decimals only', IMP(strict, sub))
        p.require('the converted value is the result', AND(IMP(ok, AND(p.V(c.ret).is_('Ok'), r.as_('Ok').f(0).t == p.V(c.ret).as_('Ok').t)), IMP(NOT(ok), r.as_('Err').eq(p.V(c.ret).as_('Err')))))


@contract('C24', IJ, 'JSON validate_decimal', expect=('text and integers are converted by Decimal(value), floats by their text', 'what is no number is rejected'))
class JsDec(Contract):
    def ret(self, p, r):
        x, ok = p.arg(0), r.is_('Ok')
        cr = p.events('*create_decimal')
        num = x.is_('Float', 'Str', 'Int', 'BigInt')
        if not cr:
            et = single_line_error(p, r)
            p.require('what is no number is rejected', AND(NOT(ok), OR(AND(NOT(num), et.is_('DecimalType')), False)) if et is not None else AND(NOT(ok), num))
            return
        c = cr[0]
        f = [y for y in p.events('*ToString::to_string') if p.holds(p.V(y.args[0]).t == x.as_('Float').t)]
        txt = OR(*[mentions(p.V(c.args[0]).t, p.V(y.ret).t) for y in f]) if f else False
        ps = [y for y in p.events('*PyString::new') if p.holds(p.V(y.ret).t == p.V(c.args[0]).t)]
        if ps and f:
            txt = OR(txt, *[mentions(p.V(y.args[1]).t, p.V(f[0].ret).t) for y in ps])
        p.require('text and integers are converted by Decimal(value), floats by their text', AND(len(cr) == 1, num, IMP(x.is_('Float'), txt), IMP(NOT(x.is_('Float')), mentions(p.V(c.args[0]).t, x.t))))
        p.require('the converted value is the result', AND(IMP(ok, AND(p.V(c.ret).is_('Ok'), r.as_('Ok').f(0).t == p.V(c.ret).as_('Ok').t)), IMP(NOT(ok), r.as_('Err').eq(p.V(c.ret).as_('Err')))))
