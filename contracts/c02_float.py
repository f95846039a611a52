"""C02: float validation honours every declared bound and the finite-number setting, for every f64."""
from contracts.common import *

DUMP = {'stop': ['_pydantic_core::build_tools::*', '*SchemaDict*::get_as', '*SchemaDict*::get_as_req']}
ASSUMPTIONS = ['Input::validate_float returns an arbitrary ValResult (its conversions are C18)',
               'the f64 held by a python float object is what PyFloat::value / extract return; into_py_any of an EitherFloat is that value as a python float']
KEYS = [('multiple_of', 'MultipleOf'), ('le', 'LessThanEqual'), ('lt', 'LessThan'), ('ge', 'GreaterThanEqual'), ('gt', 'GreaterThan')]
FV = '_pydantic_core::validators::float::'
CV = f'<{FV}ConstrainedFloatValidator as _pydantic_core::validators::'


def finite(x):
    return NOT(OR(z3.fpIsNaN(x), z3.fpIsInf(x)))


def sat(s, key, x):
    b = s.f(key)
    m = b.as_('Some').z
    if key == 'multiple_of':
        r = FP.round(FP.div(x, m))
        d = z3.fpAbs(FP.sub(x, FP.mul(r, m)))
        c = NOT(z3.fpGT(d, z3.FPVal(1e-9, F64)))
    else:
        c = {'le': z3.fpLEQ, 'lt': z3.fpLT, 'ge': z3.fpGEQ, 'gt': z3.fpGT}[key](x, m)
    return OR(b.is_('None'), c)


class Common(Contract):
    keys = ()

    def ret(self, p, r):
        s = p.arg(0)
        ev = p.ev('*Input::validate_float')
        p.require('strict flag', p.V(ev.args[1]).eq(p.V(strict_or(p, p.arg(3), s.f('strict')))))
        res = p.V(ev.ret)
        ok, v = ok_of(r)
        if p.holds(res.is_('Err')):
            p.require('conversion error is propagated', AND(NOT(ok), r.as_('Err').eq(res.as_('Err'))))
            return
        ef = res.as_('Ok').f(0)
        x = float_of(p, ef)
        fin = OR(s.f('allow_inf_nan').z, finite(x))
        allsat = AND(fin, *[sat(s, k, x) for k in self.keys])
        if p.feasible(ok):
            p.require('accepted => finite unless allow_inf_nan', IMP(ok, fin))
            for k in self.keys:
                p.require(f'accepted => {k} holds', IMP(ok, sat(s, k, x)), abstract=k == 'multiple_of')
            p.require('accepted => the converted value is returned unchanged', IMP(ok, v.t == uf('topy', Val, Val)(ef.t)))
        if p.feasible(NOT(ok)):
            et = single_line_error(p, r)
            p.require('rejection is a line error', et is not None)
            if et is None:
                return
            if p.feasible(et.is_('FiniteNumber')):
                p.require('finite_number error => not finite and not allowed', IMP(et.is_('FiniteNumber'), NOT(fin)))
            for k, var in KEYS:
                if k in self.keys and p.feasible(et.is_(var)):
                    b = s.f(k)
                    p.require(f'a {var} error means {k} is violated and reports the bound',
                              IMP(et.is_(var), AND(NOT(sat(s, k, x)), b.is_('Some'), num_f(et.as_(var, k)) == b.as_('Some').z)), abstract=k == 'multiple_of')
            known = ['FiniteNumber'] + [v for k, v in KEYS if k in self.keys]
            p.require('every rejection is one of the declared reasons', et.is_(*known))


def num_f(c):
    return c.as_('Float').z


def float_of(p, ef):
    """the f64 of an EitherFloat view (contract of EitherFloat::as_f64)"""
    return z3.If(ef.is_('F64'), ef.as_('F64').z, uf('pyfloat', Val, F64)(ef.as_('Py').t))


def m_as_f64(c):
    """EitherFloat::as_f64 is the f64 or the python float's value (contract discharged in C02)"""
    return float_of(None, view(c, 0))


def m_value(c):
    """PyFloat::value: the f64 held by a python float"""
    return uf('pyfloat', Val, F64)(view(c, 0).t)


AS = "*EitherFloat::<'*>::as_f64"
FM = [((AS,), m_as_f64)]


@contract('C02', "_pydantic_core::input::return_enums::EitherFloat::<'_>::as_f64", 'EitherFloat::as_f64', no_panic=True, expect=('value is preserved',),
          models=[(('pyo3::types::float::PyFloatMethods::value',), m_value)])
class AsF(Contract):
    def ret(self, p, r):
        p.require('value is preserved', r.z == float_of(p, p.arg(0)))


@contract('C02', CV + 'Validator>::validate', 'ConstrainedFloat::validate', no_panic=True, models=STATE_MODELS + FM, opts={'fp_uf': True},
          expect=tuple(f'accepted => {k} holds' for k, _ in KEYS) + ('accepted => finite unless allow_inf_nan', 'strict flag', 'every rejection is one of the declared reasons'))
class Con(Common):
    keys = tuple(k for k, _ in KEYS)


@contract('C02', f'<{FV}FloatValidator as _pydantic_core::validators::Validator>::validate', 'Float::validate', no_panic=True, models=STATE_MODELS + FM, opts={'fp_uf': True},
          expect=('accepted => finite unless allow_inf_nan', 'strict flag', 'every rejection is one of the declared reasons'))
class Plain(Common):
    keys = ()


@contract('C02', CV + 'BuildValidator>::build', 'ConstrainedFloat::build', expect=tuple(f'{k} comes from the schema key {k}' for k, _ in KEYS) + ('allow_inf_nan is schema, else config, else true',))
class Build(Contract):
    def ret(self, p, r):
        if not p.feasible(r.is_('Ok')):
            return
        sv = r.as_('Ok').as_('ConstrainedFloat')
        for k, _ in KEYS:
            cand = [e for e in p.events('*get_as') if p.holds(p.V(e.args[1]).eq(k))]
            p.require(f'{k} comes from the schema key {k}', OR(*[AND(p.V(e.args[0]).eq(p.arg(0)), opt_eq(sv.f(k), p.V(e.ret).as_('Ok'))) for e in cand]) if cand else False)
        inf_nan(p, sv)


def inf_nan(p, sv):
    cand = [e for e in p.events('*schema_or_config_same') if p.holds(AND(p.V(e.args[2]).eq('allow_inf_nan'), p.V(e.args[0]).eq(p.arg(0)), p.V(e.args[1]).eq(p.arg(1))))]
    o = [p.V(e.ret).as_('Ok') for e in cand]
    p.require('allow_inf_nan is schema, else config, else true', OR(*[sv.f('allow_inf_nan').z == z3.If(x.is_('Some'), x.as_('Some').z, True) for x in o]) if o else False)


@contract('C02', f'<{FV}FloatBuilder as _pydantic_core::validators::BuildValidator>::build', 'Float::build', stop=[f'{CV}BuildValidator>::build'],
          expect=('constraints present => constrained validator', 'allow_inf_nan is schema, else config, else true'))
class FBuild(Contract):
    def ret(self, p, r):
        con = p.ev('*ConstrainedFloatValidator as *build', '*build')
        if con is not None and 'Constrained' in (con.res or con.name):
            p.require('constraints present => constrained validator', AND(r.eq(p.V(con.ret)), p.V(con.args[0]).eq(p.arg(0)), opt_eq(p.V(con.args[1]), p.arg(1))))
            return
        if p.feasible(r.is_('Ok')):
            inf_nan(p, r.as_('Ok').as_('Float'))
            for k, _ in KEYS:
                c = [e for e in p.events('*get_item') if p.holds(p.V(e.args[1]).eq(k))]
                p.require('no bound key => unconstrained', OR(*[AND(p.V(e.ret).is_('Ok'), p.V(e.ret).as_('Ok').is_('None')) for e in c]) if c else False, k)
