"""C10: defaults are used exactly where the input gives no value, fresh each time"""
from contracts.common import *

DUMP = {'stop': ['*with_outer_location', '*SchemaDict*', '_pydantic_core::build_tools::*', '*py_err_string*', '*DefaultType::default_value', '*DefaultType::new', '*build_validator', '*get_deepcopy']}
ASSUMPTIONS = ['copy.deepcopy returns an independent copy', 'the inner validator is arbitrary']
WD = '_pydantic_core::validators::with_default::'
W = '<' + WD + 'WithDefaultValidator as _pydantic_core::validators::Validator>::'


def is_validate(ev):
    return ev.name.endswith('Validator::validate')


def m_default_value(c):
    """WithDefaultValidator::default_value: a declared default is a value or an error (clause 'a declared default is a value' below)"""
    me = view(c, 0)
    if not me.has('default'):
        return NotImplemented
    r = c.opaque()
    rv = V(P(c.e, c.st, [], None), r, c.dty)
    c.e.fact(c.st, IMP(AND(rv.is_('Ok'), NOT(me.f('default').is_('None'))), rv.as_('Ok').is_('Some')))
    return r


def m_stored(c):
    """DefaultType::default_value: a declared default is a value or an error (contract below)"""
    me = view(c, 0)
    r = c.opaque()
    rv = V(P(c.e, c.st, [], None), r, c.dty)
    c.e.fact(c.st, IMP(rv.is_('Ok'), rv.as_('Ok').is_('None') == me.is_('None')))
    return r


@contract('C10', W + 'validate', 'validate', models=STATE_MODELS + [(('_pydantic_core::validators::Validator::default_value',), m_default_value)], stop=('*WithDefaultValidator*::default_value',), no_panic=True,
          expect=('a given value is validated once with the inner schema', 'a valid value is returned unchanged', 'the default is used on failure only if the schema says so', 'an absent value gets the default', 'omit mode omits', 'a failure is raised otherwise'))
class Validate(Contract):
    def ret(self, p, r):
        me = p.arg(0)
        va = [ev for ev in p.st.events if is_validate(ev)]
        dv = p.events('*::default_value')
        und = [ev for ev in p.st.events if ev.name.endswith('::is')]
        p.require('the default is fetched at most once', len(dv) <= 1)
        for d in dv:
            p.require('the default is the one of this schema', p.V(d.args[0]).eq(me))
        oe = me.f('on_error')
        d = p.V(dv[0].ret) if dv else None
        hasd = NOT(me.f('default').is_('None'))
        if not va:
            p.require('an absent value gets the default', AND(len(und) >= 1, p.V(und[-1].ret).z if und else False, len(dv) == 1, hasd))
            if dv:
                p.require('the default is the result', AND(IMP(r.is_('Ok'), AND(d.is_('Ok'), d.as_('Ok').is_('Some'), r.as_('Ok').eq(d.as_('Ok').as_('Some')))), IMP(d.is_('Err'), AND(r.is_('Err'), r.as_('Err').eq(d.as_('Err'))))))
            return
        p.require('a given value is validated once with the inner schema', AND(len(va) == 1, p.V(va[0].args[0]).eq(me.f('validator')), p.V(va[0].args[2]).t == p.arg(2).t))
        if und:
            p.require('an absent value gets the default', IMP(hasd, NOT(p.V(und[-1].ret).z)))
        res = p.V(va[0].ret)
        e = res.as_('Err')
        if p.feasible(res.is_('Ok')):
            p.require('a valid value is returned unchanged', IMP(res.is_('Ok'), AND(r.is_('Ok'), r.as_('Ok').eq(res.as_('Ok')), len(dv) == 0)))
        ud = AND(res.is_('Err'), e.is_('UseDefault'))
        use = AND(res.is_('Err'), OR(e.is_('UseDefault'), oe.is_('Default')))
        if p.feasible(res.is_('Err')):
            p.require('the default is used on failure only if the schema says so', IMP(res.is_('Err'), use == (len(dv) == 1)))
            if dv:
                p.require('the default replaces the failure', IMP(use, z3.If(d.is_('Err'), AND(r.is_('Err'), r.as_('Err').eq(d.as_('Err'))),
                          z3.If(d.as_('Ok').is_('Some'), AND(r.is_('Ok'), r.as_('Ok').eq(d.as_('Ok').as_('Some'))), AND(r.is_('Err'), r.as_('Err').eq(e))))))
            om = AND(res.is_('Err'), NOT(use), oe.is_('Omit'))
            if p.feasible(om):
                p.require('omit mode omits', IMP(om, AND(r.is_('Err'), r.as_('Err').is_('Omit'))))
            ra = AND(res.is_('Err'), NOT(use), oe.is_('Raise'))
            if p.feasible(ra):
                p.require('a failure is raised otherwise', IMP(ra, AND(r.is_('Err'), r.as_('Err').eq(e))))


@contract('C10', W + 'default_value', 'default_value', models=STATE_MODELS + [((WD + 'DefaultType::default_value',), m_stored)], stop=('*WithDefaultValidator*::validate',),
          expect=('without default there is none', 'an unhashable default is copied', 'the default is validated exactly when asked', 'an unvalidated default is returned as it is', 'a failing default is an error, located if a location is given'))
class DefaultValue(Contract):
    def ret(self, p, r):
        me = p.arg(0)
        dt = p.events('*DefaultType::default_value')
        if len(dt) != 1:
            raise Lost('the stored default')
        d = p.V(dt[0].ret)
        p.require('a declared default is a value', IMP(AND(r.is_('Ok'), NOT(me.f('default').is_('None'))), r.as_('Ok').is_('Some')))
        data = p.arg(3).f('extra', 'data')
        dd = p.V(dt[0].args[2])
        p.require('the factory sees the validated data', AND(p.V(dt[0].args[0]).eq(me.f('default')), dd.is_('Some') == data.is_('Some'), IMP(data.is_('Some'), dd.as_('Some').t == data.as_('Some').t)))
        va = [ev for ev in p.st.events if is_validate(ev)]
        ca = p.events('*call1')
        if p.holds(d.is_('Err')):
            p.require('an exception of the factory is raised', AND(r.is_('Err'), len(va) == 0, len(ca) == 0))
            return
        if p.holds(d.as_('Ok').is_('None')):
            p.require('without default there is none', AND(r.is_('Ok'), r.as_('Ok').is_('None'), len(va) == 0))
            return
        stored = d.as_('Ok').as_('Some')
        cp = me.f('copy_default').z
        p.require('an unhashable default is copied', AND(cp == (len(ca) == 1), len(ca) <= 1))
        if ca:
            cr = p.V(ca[0].ret)
            val = cr.as_('Ok')
            if p.holds(cr.is_('Err')):
                p.require('a failing copy is raised', AND(r.is_('Err'), len(va) == 0))
                return
        else:
            val = stored
        vd = me.f('validate_default').z
        p.require('the default is validated exactly when asked', AND(vd == (len(va) == 1), len(va) <= 1))
        if not va:
            p.require('an unvalidated default is returned as it is', AND(r.is_('Ok'), r.as_('Ok').is_('Some'), r.as_('Ok').as_('Some').t == val.t))
            return
        res = p.V(va[0].ret)
        p.require('the default is validated exactly when asked', AND(p.V(va[0].args[2]).t == val.t))
        p.require('an invalid default is not replaced by itself', p.V(va[0].args[0]).eq(me.f('validator')))
        if p.feasible(res.is_('Ok')):
            p.require('a valid default is returned', IMP(res.is_('Ok'), AND(r.is_('Ok'), r.as_('Ok').is_('Some'), r.as_('Ok').as_('Some').eq(res.as_('Ok')))))
        if p.feasible(res.is_('Err')):
            wl = p.events('*with_outer_location')
            loc = p.arg(2)
            e = res.as_('Err')
            om = AND(me.f('on_error').is_('Omit'), NOT(e.is_('UseDefault')))
            inner = p.V(wl[0].args[0]) if wl else r.as_('Err')
            p.require('a failing default is omitted in omit mode, and the same error otherwise', IMP(res.is_('Err'), z3.If(om, inner.is_('Omit'), inner.eq(e))))
            p.require('a failing default is an error, located if a location is given', IMP(res.is_('Err'), AND(r.is_('Err'), loc.is_('Some') == (len(wl) == 1), r.as_('Err').eq(p.V(wl[0].ret)) if wl else True)))


@contract('C10', WD + 'DefaultType::default_value', 'DefaultType::default_value', expect=('the stored default is returned', 'the factory is called once'))
class Stored(Contract):
    def ret(self, p, r):
        me = p.arg(0)
        calls = p.events('*call0', '*call1')
        if p.feasible(me.is_('Default')):
            p.require('the stored default is returned', IMP(me.is_('Default'), AND(len(calls) == 0, r.is_('Ok'), r.as_('Ok').is_('Some'), r.as_('Ok').as_('Some').t == me.as_('Default').t)))
        if p.feasible(me.is_('None')):
            p.require('no default is none', IMP(me.is_('None'), AND(len(calls) == 0, r.is_('Ok'), r.as_('Ok').is_('None'))))
        if p.holds(me.is_('DefaultFactory')):
            ok = len(calls) == 1
            p.require('the factory is called once', ok)
            if not ok:
                return
            c = calls[0]
            res = p.V(c.ret)
            td = me.as_('DefaultFactory', 1).z
            p.require('the factory is called once', AND(p.V(c.args[0]).t == me.as_('DefaultFactory', 0).t, td == c.name.endswith('call1')))
            p.require('the result of the factory is the default', z3.If(res.is_('Ok'), AND(r.is_('Ok'), r.as_('Ok').is_('Some'), r.as_('Ok').as_('Some').eq(res.as_('Ok'))), r.is_('Err')))


@contract('C10', WD + 'WithDefaultValidator::has_default', 'has_default')
class Has(Contract):
    def ret(self, p, r):
        p.require('there is a default exactly when one is declared', r.z == NOT(p.arg(0).f('default').is_('None')))


@contract('C10', WD + 'WithDefaultValidator::omit_on_error', 'omit_on_error')
class Om(Contract):
    def ret(self, p, r):
        p.require('omit mode is the declared one', r.z == p.arg(0).f('on_error').is_('Omit'))


@contract('C10', '<' + WD + 'WithDefaultValidator as _pydantic_core::validators::BuildValidator>::build', 'build',
          expect=('the default is copied exactly when it is unhashable', 'validate_default comes from the schema or the configuration'))
class Build(Contract):
    def ret(self, p, r):
        if not p.holds(r.is_('Ok')):
            return
        x = r.as_('Ok')
        if not isinstance(x.v, Agg):
            raise Lost('the built validator')
        w = x.as_('WithDefault')
        df = p.events('*DefaultType::new')
        h = [ev for ev in p.st.events if ev.name.endswith('::hash')]
        if len(df) != 1:
            raise Lost('the default')
        d = p.V(df[0].ret).as_('Ok')
        p.require('the default is the declared one', w.f('default').eq(d))
        isd = d.is_('Default')
        if p.feasible(isd):
            p.require('the default is copied exactly when it is unhashable', IMP(isd, AND(len(h) == 1, *([w.f('copy_default').z == p.V(h[0].ret).is_('Err'), p.V(h[0].args[0]).t == d.as_('Default').t] if h else []))))
        from_schema_or_config(p, 'validate_default comes from the schema or the configuration', w.f('validate_default'), 'validate_default', 'validate_default', False)
        p.require('falling back to the default needs one', IMP(w.f('on_error').is_('Default'), NOT(d.is_('None'))))
