"""C08: tagged unions dispatch on the discriminator only"""
from contracts.common import *

DUMP = {'stop': ['*with_outer_location', '*SchemaDict*', '_pydantic_core::build_tools::*', '*py_err_string*', '*CustomError*', '*LiteralLookup*::validate', '*find_call_validator', '*tag_not_found', '*validate_model_fields',
                 '*ValidatedDict*::get_item']}
ASSUMPTIONS = ['LiteralLookup::validate returns the (tag, validator) registered under the tag (contract in C23)', 'ValidatedDict::get_item resolves the lookup path (contracts in C13)',
               'the member validator is arbitrary']
TU = '_pydantic_core::validators::union::TaggedUnionValidator'


def is_validate(ev):
    return ev.name.endswith('Validator::validate')


@contract('C08', TU + '::find_call_validator', 'find_call_validator', models=STATE_MODELS,
          expect=('a registered tag selects its member and no other', 'the tag is put in front of the member\'s errors', 'an unknown tag is reported with the tag and the expected ones', 'an unknown tag reports the custom error if declared'))
class Find(Contract):
    def ret(self, p, r):
        lk = p.events('*LiteralLookup*::validate')
        va = [ev for ev in p.st.events if is_validate(ev)]
        if len(lk) != 1:
            raise Lost('one lookup of the tag')
        me = p.arg(0)
        l = p.V(lk[0].ret)
        p.require('the tag is looked up in the registered members', AND(p.V(lk[0].args[0]).eq(me.f('lookup')), p.V(lk[0].args[2]).t == p.arg(2).t))
        found = AND(l.is_('Ok'), l.as_('Ok').is_('Some'))
        pair = l.as_('Ok').as_('Some')
        if p.feasible(found):
            p.require('a registered tag selects its member and no other', IMP(found, AND(len(va) == 1, *([p.V(va[0].args[0]).eq(pair.f(1)), p.V(va[0].args[2]).t == p.arg(3).t] if va else []))))
            if len(va) == 1:
                res = p.V(va[0].ret)
                p.require('the member decides', IMP(found, r.is_('Ok') == res.is_('Ok')))
                p.require('a valid result is the member\'s', IMP(AND(found, res.is_('Ok')), r.as_('Ok').eq(res.as_('Ok'))))
                wl = p.events('*with_outer_location')
                if p.feasible(AND(found, res.is_('Err'))):
                    p.require('the tag is put in front of the member\'s errors', IMP(AND(found, res.is_('Err')), AND(len(wl) == 1, *([p.V(wl[0].args[0]).eq(res.as_('Err')), p.V(wl[0].args[1]).t == pair.f(0).t, r.as_('Err').eq(p.V(wl[0].ret))] if wl else []))))
        if p.feasible(NOT(found)):
            p.require('no member is tried for an unknown tag', IMP(NOT(found), AND(len(va) == 0, r.is_('Err'))))
            cu = me.f('custom_error')
            ce = p.events('*as_val_error')
            if p.feasible(AND(NOT(found), cu.is_('Some'))):
                p.require('an unknown tag reports the custom error if declared', IMP(AND(NOT(found), cu.is_('Some')), AND(len(ce) == 1, *([p.V(ce[0].args[0]).eq(cu.as_('Some')), r.as_('Err').eq(p.V(ce[0].ret))] if ce else []))))
            if p.holds(AND(NOT(found), cu.is_('None'))):
                et = single_line_error(p, r)
                if et is None:
                    raise Lost('the error of an unknown tag')
                ts = p.events('*to_string')
                p.require('an unknown tag is reported with the tag and the expected ones', AND(et.is_('UnionTagInvalid'), et.as_('UnionTagInvalid', 'discriminator').eq(me.f('discriminator_repr')),
                          et.as_('UnionTagInvalid', 'expected_tags').eq(me.f('tags_repr')), p.V(ts[-1].args[0]).t == p.arg(2).t if ts else False))


@contract('C08', TU + '::tag_not_found', 'tag_not_found', expect=('a missing tag is reported as such', 'a missing tag reports the custom error if declared'))
class NotFound(Contract):
    def ret(self, p, r):
        me = p.arg(0)
        cu = me.f('custom_error')
        ce = p.events('*as_val_error')
        if p.holds(cu.is_('Some')):
            p.require('a missing tag reports the custom error if declared', AND(len(ce) == 1, *([p.V(ce[0].args[0]).eq(cu.as_('Some')), r.eq(p.V(ce[0].ret))] if ce else [])))
            return
        v = r.as_('LineErrors')
        if not isinstance(v.v, VecV) or len(v.v.items) != 1 or v.v.base is not None:
            raise Lost('one line error')
        et = p.V(v.v.items[0]).f('error_type')
        p.require('a missing tag is reported as such', AND(cu.is_('None'), et.is_('UnionTagNotFound'), et.as_('UnionTagNotFound', 'discriminator').eq(me.f('discriminator_repr'))))


@contract('C08', '<' + TU + ' as _pydantic_core::validators::Validator>::validate', 'validate', models=STATE_MODELS,
          expect=('the discriminator decides', 'a missing discriminator is reported as missing', 'the function is called once with the input', 'the tag comes from the discriminator field'))
class Validate(Contract):
    def ret(self, p, r):
        me = p.arg(0)
        d = me.f('discriminator')
        fc, nf = p.events('*find_call_validator'), p.events('*tag_not_found')
        va = [ev for ev in p.st.events if is_validate(ev)]
        p.require('the discriminator decides', len(va) == 0 and len(fc) + len(nf) <= 1)
        if fc:
            c = fc[0]
            p.require('the result is that of the selected member', AND(r.eq(p.V(c.ret)), p.V(c.args[0]).eq(me), p.V(c.args[3]).t == p.arg(2).t))
        if p.holds(d.is_('LookupKey')):
            gi = p.events('*get_item')
            vm = p.events('*validate_model_fields')
            if len(vm) != 1 or len(gi) > 1:
                raise Lost('reading of the discriminator')
            fa = p.arg(3).f('extra', 'from_attributes')
            p.require('the input is read in the mode and strictness in effect', AND(p.V(vm[0].args[0]).t == p.arg(2).t, p.V(vm[0].args[1]).z == strict_or(p, p.arg(3), p.V(z3.BoolVal(False))),
                      p.V(vm[0].args[2]).z == z3.If(fa.is_('Some'), fa.as_('Some').z, me.f('from_attributes').z)))
            m = p.V(vm[0].ret)
            if not gi:
                p.require('an unreadable input is its own error', AND(m.is_('Err'), r.is_('Err'), r.as_('Err').eq(m.as_('Err'))))
                return
            g = p.V(gi[0].ret)
            p.require('the tag comes from the discriminator field', AND(m.is_('Ok'), p.V(gi[0].args[1]).eq(d.as_('LookupKey'))))
            if p.holds(g.is_('Err')):
                p.require('an error raised by reading is raised', AND(r.is_('Err'), len(fc) + len(nf) == 0))
            elif p.holds(g.as_('Ok').is_('None')):
                p.require('a missing discriminator is reported as missing', AND(len(nf) == 1, r.is_('Err'), r.as_('Err').eq(p.V(nf[0].ret)) if nf else False))
            elif fc:
                to = p.events('*to_object')
                p.require('the tag comes from the discriminator field', AND(len(to) >= 1, p.V(fc[0].args[2]).t == p.V(to[-1].ret).as_('Ok').t if to else False))
            return
        fn = p.events('*call1')
        if not fn:
            p.require('no result without the function', r.is_('Err'))
            return
        p.require('the function is called once with the input', AND(len(fn) == 1, p.V(fn[0].args[0]).eq(d.as_('Function'))))
        t = p.V(fn[0].ret)
        if p.holds(t.is_('Err')):
            p.require('an exception of the function is raised', AND(r.is_('Err'), len(fc) + len(nf) == 0))
            return
        isn = p.events('*is_none')
        if isn:
            none = p.V(isn[-1].ret).z
            p.require('None from the function is reported as a missing tag', IMP(none, AND(len(nf) == 1, len(fc) == 0)))
            p.require('any other value is the tag', IMP(NOT(none), AND(len(fc) == 1, p.V(fc[0].args[2]).t == t.as_('Ok').t if fc else False)))
