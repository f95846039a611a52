"""C01: integer validation honours every declared bound, exactly, for integers of any size."""
from contracts.common import *

DUMP = {'stop': ['_pydantic_core::validators::int::validate_as_int', '_pydantic_core::build_tools::is_strict']}
ASSUMPTIONS = ['Input::validate_int returns an arbitrary ValResult (its conversions are C18); a schema value which is not an int is outside C01']
VI = '<_pydantic_core::validators::int::ConstrainedIntValidator as _pydantic_core::validators::Validator>::validate'
KEYS = [('multiple_of', 'MultipleOf'), ('le', 'LessThanEqual'), ('lt', 'LessThan'), ('ge', 'GreaterThanEqual'), ('gt', 'GreaterThan')]


@contract('C01', '<_pydantic_core::input::return_enums::Int as core::cmp::PartialOrd>::partial_cmp', 'Int::partial_cmp', no_panic=True,
          expect=('order is the mathematical order',))
class Cmp(Contract):
    def ret(self, p, r):
        a, b = num(p.arg(0)), num(p.arg(1))
        o = r.as_('Some')
        p.require('order is the mathematical order', AND(r.is_('Some'), o.is_('Less') == (a < b), o.is_('Equal') == (a == b), o.is_('Greater') == (a > b)))


@contract('C01', '<_pydantic_core::input::return_enums::Int as core::cmp::PartialEq>::eq', 'Int::eq', no_panic=True, expect=('equality is mathematical',))
class Eq(Contract):
    def ret(self, p, r):
        p.require('equality is mathematical', r.z == (num(p.arg(0)) == num(p.arg(1))))


@contract('C01', '<&_pydantic_core::input::return_enums::Int as core::ops::arith::Rem>::rem', 'Int::rem', no_panic=True,
          expect=('remainder is the mathematical remainder',),
          models=[INT_MODELS[0]])
class RemC(Contract):
    def ret(self, p, r):
        a, b = num(p.arg(0)), num(p.arg(1))
        p.require('remainder is the mathematical remainder', num(r) == z3.If(b == 0, a, trem(a, z3.If(b == 0, z3.IntVal(1), b))))


@contract('C01', "_pydantic_core::input::return_enums::EitherInt::<'py>::as_int", 'EitherInt::as_int', no_panic=True, expect=('value is preserved',))
class AsInt(Contract):
    def ret(self, p, r):
        a = p.arg(0)
        ok, v = ok_of(r)
        val = z3.If(a.is_('I64'), a.as_('I64').z, z3.If(a.is_('U64'), a.as_('U64').z, big(a.as_('BigInt').v)))
        p.require('value is preserved', IMP(NOT(a.is_('Py')), AND(ok, num(v) == val)))
        ev = p.ev('*extract')
        if ev is not None:
            x = p.V(ev.ret)
            p.require('a python int is extracted as Int', AND(ok == x.is_('Ok'), IMP(ok, num(v) == num(x.as_('Ok')))))


@contract('C01', VI, 'ConstrainedInt::validate', no_panic=True, models=INT_MODELS + STATE_MODELS + [(('*EitherInt::<*>::as_int',), as_int_contract)],
          expect=('accepted => every bound holds', 'accepted => the converted value is returned unchanged', 'rejected => a bound is violated',
                  'conversion error is propagated', 'strict flag'))
class Validate(Contract):
    def ret(self, p, r):
        s = p.arg(0)
        ev = p.ev('*Input::validate_int')
        p.require('strict flag', p.V(ev.args[1]).eq(p.V(strict_or(p, p.arg(3), s.f('strict')))))
        res = p.V(ev.ret)
        ai = p.ev('*as_int')
        ok, v = ok_of(r)
        if ai is None:
            p.require('conversion error is propagated', AND(res.is_('Err'), NOT(ok), IMP(NOT(ok), r.as_('Err').eq(res.as_('Err')))))
            return
        air = p.V(ai.ret)
        p.require('the converted value is what is constrained', p.V(ai.args[0]).eq(res.as_('Ok').f(0)))
        n = num(air.as_('Ok'))

        def sat(key):
            b = s.f(key)
            m = num(b.as_('Some'))
            c = {'multiple_of': z3.If(m == 0, n == 0, trem(n, z3.If(m == 0, z3.IntVal(1), m)) == 0), 'le': n <= m, 'lt': n < m, 'ge': n >= m, 'gt': n > m}[key]
            return z3.Or(b.is_('None'), c)
        allsat = z3.And([sat(k) for k, _ in KEYS])
        if p.feasible(ok):
            p.require('accepted => every bound holds', IMP(ok, AND(air.is_('Ok'), allsat)))
            p.require('accepted => the converted value is returned unchanged', IMP(ok, v.t == uf('topy', Val, Val)(p.V(res.as_('Ok').f(0)).t)))
        if p.feasible(NOT(ok)):
            if p.holds(air.is_('Err')):
                p.require('conversion error is propagated', r.as_('Err').eq(air.as_('Err')))
                return
            p.require('rejected => a bound is violated', IMP(NOT(ok), NOT(allsat)))
            et = single_line_error(p, r)
            p.require('rejection is a line error', et is not None)
            if et is not None:
                for key, var in KEYS:
                    if p.feasible(et.is_(var)):
                        b = s.f(key)
                        c = et.as_(var, key)
                        p.require(f'a {var} error means {key} is violated and reports the bound', IMP(et.is_(var), AND(NOT(sat(key)), b.is_('Some'), num_number(c) == num(b.as_('Some')))))


def num_number(c):
    """errors::types::Number view -> integer value"""
    return z3.If(c.is_('Int'), c.as_('Int').z, big(c.as_('BigInt').v))


@contract('C01', '_pydantic_core::validators::int::ConstrainedIntValidator::build', 'ConstrainedInt::build', expect=tuple(f'{k} comes from the schema key {k}' for k, _ in KEYS))
class Build(Contract):
    def ret(self, p, r):
        if not p.feasible(r.is_('Ok')):
            return
        sv = r.as_('Ok').as_('ConstrainedInt')
        evs = p.events('*validate_as_int')
        for k, _ in KEYS:
            cand = [e for e in evs if p.holds(p.V(e.args[1]).eq(k))]
            p.require(f'{k} comes from the schema key {k}', OR(*[AND(p.V(e.args[0]).eq(p.arg(0)), opt_eq(sv.f(k), p.V(e.ret).as_('Ok'))) for e in cand]) if cand else False)


@contract('C01', '<_pydantic_core::validators::int::IntValidator as _pydantic_core::validators::BuildValidator>::build', 'Int::build',
          stop=['_pydantic_core::validators::int::ConstrainedIntValidator::build'], expect=('no bound key => unconstrained', ))
class IntBuild(Contract):
    def ret(self, p, r):
        con = p.ev('*ConstrainedIntValidator::build')
        gets = p.events('*get_item')
        if con is not None:
            p.require('constrained validator is built from the same schema', AND(r.eq(p.V(con.ret)), p.V(con.args[0]).eq(p.arg(0)), p.V(con.args[1]).eq(p.arg(1))))
            return
        if p.feasible(r.is_('Ok')):
            for k, _ in KEYS:
                c = [e for e in gets if p.holds(p.V(e.args[1]).eq(k))]
                p.require('no bound key => unconstrained', OR(*[AND(p.V(e.ret).is_('Ok'), p.V(e.ret).as_('Ok').is_('None')) for e in c]) if c else False, k)


@contract('C01', '<_pydantic_core::validators::int::IntValidator as _pydantic_core::validators::Validator>::validate', 'Int::validate', no_panic=True,
          expect=('accepted => the converted value is returned unchanged', 'strict flag'))
class Plain(Contract):
    def ret(self, p, r):
        ev = p.ev('*Input::validate_int')
        p.require('strict flag', p.V(ev.args[1]).eq(p.V(strict_or(p, p.arg(3), p.arg(0).f('strict')))))
        res = p.V(ev.ret)
        ok, v = ok_of(r)
        p.require('accepted => the converted value is returned unchanged', AND(ok == res.is_('Ok'), IMP(ok, v.t == uf('topy', Val, Val)(p.V(res.as_('Ok').f(0)).t))))
        p.require('conversion error is propagated', IMP(NOT(ok), r.as_('Err').eq(res.as_('Err'))))
