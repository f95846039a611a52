"""C18: numeric and boolean coercion never changes a value"""
from contracts.common import *

INP = '_pydantic_core::input::'
SH = INP + 'shared::'
RE = INP + 'return_enums::'
DUMP = {'roots': [SH + '*', RE + 'EitherInt*', '*Input*for*::validate_bool', '*Input*for*::validate_int', '*Input*for*::validate_float', '*StringMapping*Input*>::validate_bool', '*StringMapping*Input*>::validate_int', '*StringMapping*Input*>::validate_float', '*create_decimal', '*maybe_as_string', '*maybe_as_enum', '_pydantic_core::tools::extract_i*'], 'stop': ['*ValError::new']}
ASSUMPTIONS = ['NumberInt::try_from (jiter) and str::parse::<f64> read the decimal spelling of a number exactly (nearest float) or fail',
               'clean_int_str, strip_leading_zeros and strip_underscores are outside the verifier (string contents); they are covered by the exhaustive bounded stand-in only',
               'Decimal.is_finite / as_integer_ratio, int.__index__ and float.__float__ are those of Python; the remainder of a finite f64 by 1 is zero exactly for integral values; `as i64` of an integral f64 inside the i64 range is exact']
HELP = ('*str_as_*', '*float_as_int', '*int_as_bool', '*decimal_as_int', '*maybe_as_*', '*upcast', '*::as_bool', '*extract_i64', '*validate_decimal', '*py_string_str')
FALSE, TRUE = ('f', 'n', 'no', 'off', 'false'), ('t', 'y', 'on', 'yes', 'true')


def is_word(p, s, w):
    return uf('val.bool', Val, z3.BoolSort())(uf('pure:core::str::<impl str>::eq_ignore_ascii_case', Val, Val, Val)(s.t, p.e.str_const(w)))


@contract('C18', SH + 'str_as_bool', 'str_as_bool', expect=('false is one of the documented words', 'true is one of the documented words', 'other text is no boolean'))
class StrAsBool(Contract):
    def ret(self, p, r):
        s = p.arg(1)
        f = OR(s.eq('0'), *[is_word(p, s, w) for w in FALSE])
        t = OR(s.eq('1'), *[is_word(p, s, w) for w in TRUE])
        ok, v = ok_of(r)
        p.require('false is one of the documented words', IMP(AND(ok, NOT(v.z)), f))
        p.require('true is one of the documented words', IMP(AND(ok, v.z), t))
        p.require('other text is no boolean', IMP(NOT(ok), NOT(OR(f, t))))


@contract('C18', SH + 'int_as_bool', 'int_as_bool', expect=('only 0 and 1 are booleans',))
class IntAsBool(Contract):
    def ret(self, p, r):
        i = p.arg(1).z
        ok, v = ok_of(r)
        p.require('only 0 and 1 are booleans', AND(ok == OR(i == 0, i == 1), IMP(ok, v.z == (i == 1))))


@contract('C18', RE + "EitherInt::<'py>::as_bool", 'EitherInt::as_bool', no_panic=True, expect=('only 0 and 1 are booleans',))
class AsBool(Contract):
    def ret(self, p, r):
        a = p.arg(0)
        some, v = r.is_('Some'), r.as_('Some')
        for k in ('I64', 'U64'):
            i = a.as_(k).z
            p.require('only 0 and 1 are booleans', IMP(a.is_(k), AND(some == OR(i == 0, i == 1), IMP(some, v.z == (i == 1)))))
        b = big(a.as_('BigInt').v)
        p.require('only 0 and 1 are booleans', IMP(a.is_('BigInt'), AND(some == OR(b == 0, b == 1), IMP(some, v.z == (b == 1)))))
        ev = p.ev('*extract')
        if ev is not None:
            x = p.V(ev.ret)
            i = x.as_('Ok').z
            p.require('only 0 and 1 are booleans', IMP(a.is_('Py'), AND(p.V(ev.args[0]).eq(a.as_('Py')), some == AND(x.is_('Ok'), OR(i == 0, i == 1)), IMP(some, v.z == (i == 1)))))
        else:
            p.require('a python int is read', NOT(a.is_('Py')))


@contract('C18', RE + "EitherInt::<'py>::into_i64", 'EitherInt::into_i64', no_panic=True, expect=('the value is unchanged or rejected',))
class IntoI64(Contract):
    def ret(self, p, r):
        a = p.arg(0)
        ok, v = ok_of(r)
        val = z3.If(a.is_('I64'), a.as_('I64').z, z3.If(a.is_('U64'), a.as_('U64').z, big(a.as_('BigInt').v)))
        fits = AND(val >= -2 ** 63, val < 2 ** 63)
        p.require('the value is unchanged or rejected', IMP(NOT(a.is_('Py')), IMP(ok, v.z == val)))
        p.require('only values beyond 64 bits are rejected', IMP(NOT(a.is_('Py')), IMP(NOT(ok), NOT(fits))))
        ev = p.ev('*extract')
        if ev is not None and p.feasible(a.is_('Py')):
            x = p.V(ev.ret)
            p.require('the value is unchanged or rejected', IMP(a.is_('Py'), AND(p.V(ev.args[0]).eq(a.as_('Py')), ok == x.is_('Ok'), IMP(ok, v.eq(x.as_('Ok'))))))


@contract('C18', RE + "EitherInt::<'py>::upcast", 'EitherInt::upcast', stop=('*extract_i64',), expect=('an int subclass becomes an int of the same value',))
class Upcast(Contract):
    def ret(self, p, r):
        evs = p.events('*extract_i64', '*extract')
        ok, v = ok_of(r)
        if not p.feasible(ok):
            p.require('only a failed extraction is an error', len(evs) == 2)
            return
        good = []
        for ev in evs:
            x = p.V(ev.ret)
            w = x.as_('Some') if ev.name.endswith('extract_i64') else x.as_('Ok')
            good.append(AND(p.V(ev.args[0]).eq(p.arg(0)), v.as_('I64').eq(w), v.is_('I64')) if ev.name.endswith('extract_i64') else AND(p.V(ev.args[0]).eq(p.arg(0)), v.is_('BigInt'), v.as_('BigInt').eq(w), x.is_('Ok')))
        p.require('an int subclass becomes an int of the same value', OR(*good))


@contract('C18', SH + 'float_as_int', 'float_as_int', no_panic=True, expect=('accepted => integral and in range', 'accepted => the value is unchanged', 'rejected => not representable'))
class FloatAsInt(Contract):
    def ret(self, p, r):
        x = p.arg(1).z
        ok, v = ok_of(r)
        fin = NOT(OR(z3.fpIsNaN(x), z3.fpIsInf(x)))
        integral = z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), x), x)
        lo, hi = z3.FPVal(-2.0 ** 63, F64), z3.FPVal(2.0 ** 63, F64)
        rng = AND(z3.fpGEQ(x, lo), z3.fpLT(x, hi))
        p.require('accepted => integral and in range', IMP(ok, AND(fin, integral, rng)))
        if p.feasible(ok):
            p.require('accepted => the value is unchanged', IMP(ok, AND(v.is_('I64'), v.as_('I64').z == uf('f2i:64:True', F64, z3.IntSort())(x))))
        p.require('rejected => not representable', IMP(NOT(ok), NOT(AND(fin, integral, z3.fpGT(x, lo), z3.fpLT(x, hi)))))


@contract('C18', SH + 'decimal_as_int', 'decimal_as_int', expect=('accepted => finite with denominator one', 'accepted => the numerator is returned', 'rejected => not an integer'))
class DecimalAsInt(Contract):
    def ret(self, p, r):
        ok, v = ok_of(r)
        calls = p.events('*call_method0')
        ex = p.events('*extract')
        byname = {n: ev for ev in calls for n in ('is_finite', 'as_integer_ratio') if p.holds(p.V(ev.args[1]).eq(n)) and p.holds(p.V(ev.args[0]).eq(p.arg(1)))}
        if not p.feasible(ok):
            xs = [p.V(e.ret) for e in calls + ex]
            if any(p.holds(x.is_('Err')) for x in xs[:-1] if x.kind == 'enum') or (xs and p.holds(xs[-1].is_('Err'))):
                return
            if 'is_finite' not in byname:
                raise Lost('is_finite')
            if 'as_integer_ratio' not in byname:
                f = [e for e in ex if p.holds(p.V(e.args[0]).eq(p.V(byname['is_finite'].ret).as_('Ok')))]
                if len(f) != 1:
                    raise Lost('the answer of is_finite')
                x = p.V(f[0].ret)
                p.require('rejected => not an integer', OR(x.is_('Err'), NOT(x.as_('Ok').z)))
            return
        if set(byname) != {'is_finite', 'as_integer_ratio'}:
            raise Lost('is_finite and as_integer_ratio')
        f = [e for e in ex if p.holds(p.V(e.args[0]).eq(p.V(byname['is_finite'].ret).as_('Ok')))]
        q = [e for e in ex if p.holds(p.V(e.args[0]).eq(p.V(byname['as_integer_ratio'].ret).as_('Ok')))]
        if len(f) != 1 or len(q) != 1:
            raise Lost('the answers')
        pair = p.V(q[0].ret).as_('Ok')
        d = [e for e in ex if p.holds(p.V(e.args[0]).eq(pair.f(1)))]
        if len(d) != 1:
            raise Lost('the denominator')
        dn = p.V(d[0].ret)
        p.require('accepted => finite with denominator one', IMP(ok, AND(p.V(f[0].ret).is_('Ok'), p.V(f[0].ret).as_('Ok').z, dn.is_('Ok'), dn.as_('Ok').z == 1)))
        p.require('accepted => the numerator is returned', IMP(ok, AND(v.is_('Py'), v.as_('Py').eq(pair.f(0)))))


def parsed(p, t):
    """NumberInt::try_from of a text"""
    return uf('pure:<jiter::number_decoder::NumberInt as core::convert::TryFrom<&[u8]>>::try_from', Val, Val)(t)


def from_number(p, v, t):
    """v is the integer spelled by the text t"""
    x = parsed(p, t)
    ok = uf('fld:core::result::Result:Ok:0', Val, Val)(x)
    d = uf('discr', Val, z3.IntSort())
    return AND(d(x) == 0, OR(AND(v.is_('I64'), v.as_('I64').z == uf('val.int', Val, z3.IntSort())(uf('fld:jiter::number_decoder::NumberInt:Int:0', Val, Val)(ok)), d(ok) == 0),
                             AND(v.is_('BigInt'), v.as_('BigInt').t == uf('fld:jiter::number_decoder::NumberInt:BigInt:0', Val, Val)(ok), d(ok) == 1)))


@contract('C18', SH + 'str_as_int', 'str_as_int', stop=('*clean_int_str',), expect=('the int is the one the text or its cleaned form spells', 'rejected => neither form spells an int'))
class StrAsInt(Contract):
    def ret(self, p, r):
        ok, v = ok_of(r)
        s = p.arg(1)
        cl = p.events('*clean_int_str')
        if any(not p.holds(p.V(e.args[0]).eq(s)) for e in cl):
            raise Lost('the cleaned text')
        d = uf('discr', Val, z3.IntSort())
        forms = [s.t] + [p.V(e.ret).as_('Some').t for e in cl]
        cow = [uf('fld:alloc::borrow::Cow:' + k + ':0', Val, Val)(f) for f in forms[1:] for k in ('Borrowed', 'Owned')]
        if p.feasible(ok):
            p.require('the int is the one the text or its cleaned form spells', IMP(ok, OR(*[from_number(p, v, t) for t in forms + cow])))
        if not p.feasible(NOT(ok)):
            return
        p.require('rejected => neither form spells an int', IMP(NOT(ok), AND(d(parsed(p, s.t)) == 1)))


def parsef(t):
    return uf('pure:core::str::<impl str>::parse::<f64>', Val, Val)(t)


@contract('C18', SH + 'str_as_float', 'str_as_float', stop=('*strip_underscores',), expect=('the float is the one the text or its cleaned form spells',))
class StrAsFloat(Contract):
    def ret(self, p, r):
        ok, v = ok_of(r)
        s = p.arg(1)
        tr = uf('pure:core::str::<impl str>::trim', Val, Val)
        cl = p.events('*strip_underscores')
        forms = [s.t, tr(s.t)]
        for e in cl:
            if not (p.holds(p.V(e.args[0]).eq(s)) or p.holds(p.V(e.args[0]).t == tr(s.t))):
                raise Lost('the cleaned text')
            forms.append(p.V(e.ret).as_('Some').t)
        val = uf('val.f64', Val, F64)
        okf = uf('fld:core::result::Result:Ok:0', Val, Val)
        d = uf('discr', Val, z3.IntSort())
        if p.feasible(ok):
            x = v.as_('F64')
            p.require('the float is the one the text or its cleaned form spells', IMP(ok, AND(v.is_('F64'), OR(*[AND(d(parsef(t)) == 0, z3.Or(x.z == val(okf(parsef(t))), x.t == okf(parsef(t)))) for t in forms]))))
        p.require('rejected => the text spells no float', IMP(NOT(ok), d(parsef(tr(s.t))) == 1))


# ---------------------------------------------------------------- the conversions of the inputs
class Conv(Contract):
    """the value is a conversion of the input (or the input itself), and in strict mode it is not one that changes its type"""
    K = None

    def ret(self, p, r):
        ok = r.is_('Ok')
        if not p.feasible(ok):
            return
        m = r.as_('Ok')
        v = m.f(0)
        x = p.arg(0)
        opts = self.direct(p, x, v)
        for ev in p.st.events:
            n = ev.name.split('::')[-1]
            if not hasattr(self, 'c_' + n):
                continue
            g = getattr(self, 'c_' + n)(p, x, v, ev)
            if g is not None:
                opts.append(g)
        p.require('the value is the converted input', IMP(ok, OR(*opts) if opts else z3.BoolVal(False)))

    def direct(self, p, x, v):
        return []

    # results of the helpers, applied to the input itself
    def same(self, p, x, v, ev, i=0):
        rv = p.V(ev.ret)
        return AND(p.V(ev.args[i]).eq(x), rv.is_('Ok'), rv.as_('Ok').eq(v))

    def text_of(self, p, x, a):
        """a is the text of the input"""
        o = []
        for ev in p.events('*maybe_as_string'):
            if p.holds(p.V(ev.args[0]).eq(x)):
                rv = p.V(ev.ret)
                o.append(AND(rv.is_('Ok'), rv.as_('Ok').is_('Some'), rv.as_('Ok').as_('Some').eq(a)))
        for ev in p.events('*py_string_str'):
            rv = p.V(ev.ret)
            o.append(AND(rv.is_('Ok'), rv.as_('Ok').eq(a), x.is_('String'), p.V(ev.args[0]).eq(x.as_('String'))))
        if self.K == 'json':
            o.append(AND(x.is_('Str'), x.as_('Str').eq(a)))
        if self.K == 'json str':
            o.append(x.eq(a))
        return OR(*o)

    def c_str_as_int(self, p, x, v, ev):
        return AND(self.same(p, x, v, ev), self.text_of(p, x, p.V(ev.args[1])))

    c_str_as_float = c_str_as_bool = c_str_as_int

    def c_decimal_as_int(self, p, x, v, ev):
        dec = [e for e in p.events('*validate_decimal') if p.holds(p.V(e.args[0]).eq(x))]
        if not dec:
            return None
        return AND(self.same(p, x, v, ev), OR(*[AND(p.V(e.ret).is_('Ok'), p.V(e.ret).as_('Ok').f(0).eq(p.V(ev.args[1])), p.V(e.args[1]).z) for e in dec]))

    def float_in(self, p, x, a):
        """a is the float of the input"""
        o = [AND(p.V(e.ret).is_('Ok'), p.V(e.ret).as_('Ok').eq(a)) for e in p.events('*extract') if p.holds(p.V(e.args[0]).eq(x))]
        if self.K == 'json':
            o.append(AND(x.is_('Float'), x.as_('Float').eq(a)))
        return OR(*o)

    def c_float_as_int(self, p, x, v, ev):
        return AND(self.same(p, x, v, ev), self.float_in(p, x, p.V(ev.args[1])))

    def c_upcast(self, p, x, v, ev):
        src = OR(p.V(ev.args[0]).eq(x), *[AND(p.V(e.ret).is_('Some'), p.V(e.ret).as_('Some').eq(p.V(ev.args[0]))) for e in p.events('*maybe_as_enum')])
        rv = p.V(ev.ret)
        return AND(src, rv.is_('Ok'), rv.as_('Ok').eq(v))


class Bool(Conv):
    def direct(self, p, x, v):
        o = []
        if self.K == 'json':
            o.append(AND(x.is_('Bool'), x.as_('Bool').eq(v)))
        for ev in p.events('*is_true'):
            o.append(AND(p.V(ev.args[0]).eq(x), p.V(ev.ret).eq(v)))
        return o

    def c_int_as_bool(self, p, x, v, ev):
        a = p.V(ev.args[1])
        o = [AND(p.V(e.ret).is_('Some'), p.V(e.ret).as_('Some').eq(a)) for e in p.events('*extract_i64') if p.holds(p.V(e.args[0]).eq(x))]
        if self.K == 'json':
            o.append(AND(x.is_('Int'), x.as_('Int').eq(a)))
        return AND(self.same(p, x, v, ev), OR(*o))

    c_float_as_int = c_decimal_as_int = lambda self, p, x, v, ev: None

    def c_as_bool(self, p, x, v, ev):
        rv = p.V(ev.ret)
        o = []
        for e in p.events('*float_as_int'):
            er = p.V(e.ret)
            o.append(AND(p.V(e.args[0]).eq(x), er.is_('Ok'), er.as_('Ok').eq(p.V(ev.args[0])), self.float_in(p, x, p.V(e.args[1])), self.not_decimal(p, x)))
        for e in p.events('*decimal_as_int'):
            g = Conv.c_decimal_as_int(self, p, x, p.V(ev.args[0]), e)
            if g is not None:
                o.append(g)
        return AND(rv.is_('Some'), rv.as_('Some').eq(v), OR(*o))

    def not_decimal(self, p, x):
        """a decimal is not read through a float"""
        if self.K == 'json':
            return z3.BoolVal(True)
        return OR(*[p.V(e.ret).is_('Err') for e in p.events('*validate_decimal') if p.holds(p.V(e.args[0]).eq(x))])


class IntC(Conv):
    def direct(self, p, x, v):
        o = []
        for ev in p.events('*is_exact_instance_of'):
            if p.holds(p.V(ev.ret).z):
                o.append(AND(v.is_('Py'), v.as_('Py').eq(x), p.V(ev.args[0]).eq(x)))
        if self.K == 'json':
            o += [AND(x.is_('Int'), v.is_('I64'), v.as_('I64').eq(x.as_('Int'))), AND(x.is_('BigInt'), v.is_('BigInt'), v.as_('BigInt').eq(x.as_('BigInt'))),
                  AND(x.is_('Bool'), v.is_('I64'), v.as_('I64').z == z3.If(x.as_('Bool').z, 1, 0))]
        return o


class FloatC(Conv):
    def direct(self, p, x, v):
        o = []
        if self.K == 'json':
            f = v.as_('F64')
            o += [AND(x.is_('Float'), v.is_('F64'), f.eq(x.as_('Float'))), AND(x.is_('Int'), v.is_('F64'), f.z == uf('i2f', z3.IntSort(), F64)(x.as_('Int').z)),
                  AND(x.is_('Bool'), v.is_('F64'), f.z == z3.If(x.as_('Bool').z, z3.FPVal(1.0, F64), z3.FPVal(0.0, F64)))]
            for ev in p.events('*to_f64'):
                rv = p.V(ev.ret)
                o.append(AND(x.is_('BigInt'), p.V(ev.args[0]).eq(x.as_('BigInt')), rv.is_('Some'), v.is_('F64'), f.eq(rv.as_('Some')), NOT(z3.fpIsInf(f.z))))
        elif self.K == 'python':
            o.append(AND(v.is_('Py'), v.as_('Py').t == x.t))
            for ev in p.events('*extract'):
                rv = p.V(ev.ret)
                o.append(AND(p.V(ev.args[0]).eq(x), rv.is_('Ok'), v.is_('F64'), v.as_('F64').eq(rv.as_('Ok'))))
        return o


PY, JS, ST = INP + 'input_python::*Input*::', INP + 'input_json::*Input*for jiter*JsonValue*::', '<' + INP + 'input_string::StringMapping<* as *Input*>::'
for nm, P in (('python', PY), ('json', JS), ('json str', INP + 'input_json::*Input*for str*::'), ('strings', ST)):
    for n, B in (('validate_bool', Bool), ('validate_int', IntC), ('validate_float', FloatC)):
        contract('C18', P + n, nm + ' ' + n, stop=HELP, expect=('the value is the converted input',))(type('X' + n, (B,), {'K': nm}))
