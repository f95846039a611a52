"""C23: literal and enum membership is exact"""
from contracts.common import *

DUMP = {'stop': ['*SchemaDict*', '_pydantic_core::build_tools::*', '*py_err_string*', '*LiteralLookup*::validate', '*LiteralLookup*::validate_int', '*LiteralLookup*::validate_str', '*LiteralLookup*::validate_float',
                 '*Input*::validate_bool', '*Input*::exact_int', '*Input*::exact_str', '*Input*::validate_str', '*Input*::validate_int', '*Input*::validate_float', '*EitherInt*::into_i64', '*EitherString*::as_cow',
                 '*EitherFloat*::as_f64', '*EnumValidateValue::validate_value', '*safe_repr']}
ASSUMPTIONS = ['a HashMap or Python dict returns under a key the value stored last under an equal key, and nothing otherwise', 'Input::exact_int/exact_str/validate_* decide the type of the input (C18, C09)']
LI = '_pydantic_core::validators::literal::'
EN = '_pydantic_core::validators::enum_::'


def got(p, *pats):
    """lookups by key, as (event, Option view)"""
    out = []
    for ev in p.events(*pats):
        out.append(ev)
    return out


@contract('C23', '<' + LI + 'LiteralValidator as _pydantic_core::validators::Validator>::validate', 'LiteralValidator::validate',
          expect=('a listed value is returned as listed', 'anything else is a literal error naming the expected values'))
class Literal(Contract):
    def ret(self, p, r):
        lk = p.events('*LiteralLookup*::validate')
        if len(lk) != 1:
            raise Lost('one lookup')
        me = p.arg(0)
        l = p.V(lk[0].ret)
        p.require('the input is looked up in the listed values', AND(p.V(lk[0].args[0]).eq(me.f('lookup')), p.V(lk[0].args[2]).t == p.arg(2).t))
        hit = AND(l.is_('Ok'), l.as_('Ok').is_('Some'))
        miss = AND(l.is_('Ok'), l.as_('Ok').is_('None'))
        if p.feasible(hit):
            p.require('a listed value is returned as listed', IMP(hit, AND(r.is_('Ok'), r.as_('Ok').t == l.as_('Ok').as_('Some').f(1).t)))
        if p.holds(miss):
            et = single_line_error(p, r)
            if et is None:
                p.require('anything else is an error', r.is_('Err'))
                raise Lost('the literal error')
            p.require('anything else is a literal error naming the expected values', AND(et.is_('LiteralError'), et.as_('LiteralError', 'expected').eq(me.f('expected_repr'))))
        if p.feasible(l.is_('Err')):
            p.require('an error of the lookup is raised', IMP(l.is_('Err'), AND(r.is_('Err'), r.as_('Err').eq(l.as_('Err')))))


def keys(p, self_, inp):
    """the key of every lookup is the input, converted to the type of the table"""
    for g in p.events('*HashMap*::get'):
        tab = p.V(g.args[0]).t
        i = p.st.events.index(g)
        conv = [ev for ev in p.st.events[:i] if ev.name.endswith(('::into_i64', '::as_cow', '::extract'))]
        if not conv:
            p.require('the key looked up is the input', False)
            continue
        k, c = p.V(g.args[1]), p.V(conv[-1].ret).as_('Ok')
        isint = p.holds(tab == self_.f('expected_int').as_('Some').t)
        p.require('the key looked up is the input', AND(p.V(conv[-1].ret).is_('Ok'), k.z == c.z if isint else k.t == c.t))
        src = p.V(conv[-1].args[0])
        ins = [ev for ev in p.st.events[:i] if ev.name.endswith(('::exact_int', '::exact_str', '::validate_str', '::validate_int')) and p.holds(p.V(ev.args[0]).t == inp.t)]
        if not ins:
            p.require('the key looked up is the input', False)
            continue
        x = p.V(ins[-1].ret).as_('Ok')
        val = x if ins[-1].name.endswith(('exact_int', 'exact_str')) else x.f(0)
        if conv[-1].name.endswith('extract'):
            p.require('the key looked up is the input', src.t == uf('topy', Val, Val)(val.t))
        else:
            p.require('the key looked up is the input', src.eq(val))


def found_value(p, self_, g, value):
    """value is the listed value with the id found by lookup g"""
    v = p.V(g.ret)
    if g.name.endswith('get_item'):
        ex = [ev for ev in p.events('*::extract') if p.holds(p.V(ev.args[0]).t == v.as_('Ok').as_('Some').t)]
        if len(ex) != 1:
            raise Lost('the id found')
        i = p.V(ex[0].ret).as_('Ok').z
    else:
        i = v.as_('Some').z
    p.require('the value returned is the one listed under the id found', value.t == uf('elem', Val, z3.IntSort(), Val)(self_.f('values').t, i))


@contract('C23', LI + 'LiteralLookup::<T>::validate_int', 'LiteralLookup::validate_int', expect=('only an int can match',))
class LInt(Contract):
    def ret(self, p, r):
        vi = p.events('*::validate_int')
        if len(vi) != 1:
            raise Lost('one conversion')
        v = p.V(vi[0].ret)
        p.require('the input is converted in the strictness in effect', AND(p.V(vi[0].args[0]).t == p.arg(2).t, p.V(vi[0].args[1]).z == p.arg(3).z))
        p.require('only an int can match', IMP(AND(r.is_('Ok'), r.as_('Ok').is_('Some')), v.is_('Ok')))
        keys(p, p.arg(0), p.arg(2))
        gets = p.events('*HashMap*::get', '*PyDictMethods::get_item')
        if p.holds(AND(r.is_('Ok'), r.as_('Ok').is_('Some'))):
            p.require('a match is a value found by one of the lookups', len(gets) >= 1)
            if gets:
                found_value(p, p.arg(0), gets[-1], r.as_('Ok').as_('Some'))
        p.require('no error for an input that is not an int', IMP(v.is_('Err'), AND(r.is_('Ok'), r.as_('Ok').is_('None'))))


@contract('C23', LI + 'LiteralLookup::<T>::validate_str', 'LiteralLookup::validate_str', expect=('only a string can match',))
class LStr(Contract):
    def ret(self, p, r):
        vi = p.events('*::validate_str')
        if not vi:
            p.require('without listed strings nothing matches', AND(p.arg(0).f('expected_str').is_('None'), r.is_('Ok'), r.as_('Ok').is_('None')))
            return
        v = p.V(vi[0].ret)
        p.require('the input is converted in the strictness in effect', AND(len(vi) == 1, p.V(vi[0].args[0]).t == p.arg(1).t, p.V(vi[0].args[1]).z == p.arg(2).z, NOT(p.V(vi[0].args[2]).z)))
        keys(p, p.arg(0), p.arg(1))
        gets = p.events('*HashMap*::get')
        if p.holds(AND(r.is_('Ok'), r.as_('Ok').is_('Some'))):
            p.require('a match is a value found by one of the lookups', len(gets) >= 1)
            if gets:
                found_value(p, p.arg(0), gets[-1], r.as_('Ok').as_('Some'))
        p.require('only a string can match', IMP(AND(r.is_('Ok'), r.as_('Ok').is_('Some')), v.is_('Ok')))


@contract('C23', LI + 'LiteralLookup::<T>::validate', 'LiteralLookup::validate',
          expect=('a match is a value found by one of the lookups', 'nothing matches only if no lookup finds the input', 'a bool input matches the listed bool first'))
class LValidate(Contract):
    opts = {'budget': 100}
    stop = (lambda f: 'LiteralLookup' in f['path'] and 'closure' in f['path'] and 'OnceCell' in repr(f),)

    def ret(self, p, r):
        me = p.arg(0)
        hit = AND(r.is_('Ok'), r.as_('Ok').is_('Some'))
        keys(p, me, p.arg(2))
        vb = p.events('*::validate_bool')
        eb = me.f('expected_bool')
        gets = p.events('*HashMap*::get', '*AHashMap*::get', '*PyDictMethods::get_item')
        ei = p.events('*::exact_int')
        p.require('a bool is only compared strictly', AND(*[p.V(ev.args[1]).z for ev in vb]) if vb else True)
        if vb:
            b = p.V(vb[0].ret)
            bv = b.as_('Ok').f(0)
            lst = eb.as_('Some')
            t, f_ = lst.f('true_id'), lst.f('false_id')
            isb = AND(eb.is_('Some'), b.is_('Ok'))
            m = AND(isb, z3.If(bv.z, t.is_('Some'), f_.is_('Some')))
            if p.feasible(m):
                p.require('a bool input matches the listed bool first', IMP(m, AND(hit, len(gets) == 0)))
                return
        if p.holds(hit):
            g = gets[-1] if gets else None
            if g is None:
                ks = p.events('*::eq')
                if not ks and not loops(p):
                    p.require('a match is a value found by one of the lookups', False)
                else:
                    p.require('a match is a value found by one of the lookups', True)
                return
            v = p.V(g.ret)
            found = AND(v.is_('Ok'), v.as_('Ok').is_('Some')) if has_variant(p, v, 'Ok') else v.is_('Some')
            if loops(p):
                found = True
            p.require('a match is a value found by one of the lookups', found)
            if not loops(p) or p.st.events.index(g) > loops(p)[-1][1] + 1:
                found_value(p, me, g, r.as_('Ok').as_('Some').f(1))
            p.require('the input itself is returned with the match', r.as_('Ok').as_('Some').f(0).t == p.arg(2).t)
        elif p.holds(AND(r.is_('Ok'), r.as_('Ok').is_('None'))):
            conds = []
            for g in gets:
                v = p.V(g.ret)
                conds.append(NOT(AND(v.is_('Ok'), v.as_('Ok').is_('Some'))) if has_variant(p, v, 'Ok') else v.is_('None'))
            p.require('nothing matches only if no lookup finds the input', AND(*conds) if conds else True)
            # every kind of listed value was consulted
            for fld in ('expected_py_dict', 'expected_py_primitives'):
                n = sum(1 for g in gets if g.name.endswith('get_item'))
            want = z3.If(me.f('expected_py_dict').is_('Some'), 1, 0) + z3.If(me.f('expected_py_primitives').is_('Some'), 1, 0)
            p.require('every Python lookup table is consulted before giving up', want <= sum(1 for g in gets if g.name.endswith('get_item')))
        elif p.holds(r.is_('Err')):
            bad = [ev for ev in p.st.events if (ev.name.endswith(('to_object', 'as_cow')) or 'closure' in ev.name or 'closure' in (ev.res or '')) and p.holds(p.V(ev.ret).is_('Err'))]
            p.require('only a failing conversion of the input is an error', bool(bad))


def has_variant(p, v, n):
    return any(x['n'] == n for x in p.e.types[v.ty]['v'])


@contract('C23', '<' + EN + 'EnumValidator<T> as _pydantic_core::validators::Validator>::validate', 'EnumValidator::validate', models=STATE_MODELS,
          expect=('a member is returned as it is', 'strict python input that is no member is rejected', 'a value found is its member', 'the missing hook is only called when nothing matches', 'the error names all expected values'))
class Enum(Contract):
    opts = {'budget': 100}

    def ret(self, p, r):
        me = p.arg(0)
        ex = p.events('*is_exact_instance')
        vv = p.events('*validate_value')
        strict = strict_or(p, p.arg(3), me.f('strict'))
        it = p.arg(3).f('extra', 'input_type')
        isp = it.is_('Python')
        calls = p.events('*call1')
        if not vv:
            if p.holds(r.is_('Ok')):
                p.require('a member is returned as it is', AND(len(ex) == 1, p.V(ex[0].ret).z if ex else False, r.as_('Ok').t == p.V(ex[0].args[0]).t if ex else False))
            else:
                p.require('strict python input that is no member is rejected', AND(strict, isp, r.is_('Err'), len(calls) == 0))
            return
        p.require('strict python input that is no member is rejected', NOT(AND(strict, isp)))
        v = p.V(vv[0].ret)
        p.require('the lookup uses the strictness in effect', AND(len(vv) == 1, p.V(vv[0].args[1]).t == p.arg(2).t, p.V(vv[0].args[2]).eq(me.f('lookup')), p.V(vv[0].args[3]).z == strict))
        hit = AND(v.is_('Ok'), v.as_('Ok').is_('Some'))
        if p.feasible(hit):
            p.require('a value found is its member', IMP(hit, AND(r.is_('Ok'), r.as_('Ok').eq(v.as_('Ok').as_('Some')), len(calls) == 0)))
        if p.holds(v.is_('Err')):
            p.require('an error of the lookup is raised', AND(r.is_('Err'), r.as_('Err').eq(v.as_('Err')), len(calls) == 0))
        if p.holds(AND(v.is_('Ok'), v.as_('Ok').is_('None'))):
            ms = me.f('missing')
            cls = [c for c in calls if p.holds(p.V(c.args[0]).t == me.f('class').t)]
            hook = [c for c in calls if c not in cls]
            if hook:
                p.require('the missing hook is only called when nothing matches', AND(len(hook) == 1, ms.is_('Some'), p.V(hook[0].args[0]).t == ms.as_('Some').t, *[p.V(c.ret).is_('Err') for c in cls]))
            if p.holds(r.is_('Ok')):
                last = calls[-1] if calls else None
                p.require('an accepted value comes from the class or the hook', AND(last is not None, r.as_('Ok').t == p.V(last.ret).as_('Ok').t if last else False))
                if hook:
                    ii = p.events('*is_instance')
                    p.require('the hook must return a member', AND(len(ii) >= 1, p.V(ii[-1].ret).as_('Ok').z if ii else False))
            elif not hook:
                p.require('without a result the hook is called if there is one', OR(ms.is_('None'), *[z3.BoolVal(True) for ev in p.events('*to_object') if p.holds(p.V(ev.ret).is_('Err'))]))
                et = single_line_error(p, r)
                if et is not None:
                    p.require('the error names all expected values', AND(et.is_('Enum'), et.as_('Enum', 'expected').eq(me.f('expected_repr'))))
