"""C12: model fields: exact names, required, extra and set-tracking semantics"""
from contracts.common import *
from contracts.fields import *

DUMP = {'stop': ['*with_outer_location', '*SchemaDict*', '_pydantic_core::build_tools::*', '*py_err_string*', '*build_validator', '*LookupKeyCollection::new', '*LookupKeyCollection::select', '*LookupKey::from_py', '*LookupKey::from_string', '*LookupKey::error', '*apply_error_loc', '*::validate_model_fields',
                 '*ValidatedDict*::get_item', '*with_type', '*ValLineError::new_with_loc', '*validate_by_alias_or', '*validate_by_name_or', '*::first_key']}
ASSUMPTIONS = ['the field validators are arbitrary: any result, any effect on the state', 'ValidatedDict::get_item resolves a lookup key (contracts in C13)', 'an input mapping is iterated in order, each entry once']
MF = '_pydantic_core::validators::model_fields::'
LK = '_pydantic_core::lookup_key::'


EXP = ('each field is looked up once', 'the names in effect select the lookup key', 'a given field is validated exactly once', 'a valid field is stored under its name', 'a given field is reported as set', 'an absent field takes its default',
       'the default is stored under the name', 'a missing field is reported', 'errors of a field are located under the path used', 'the number of set fields is counted')


@contract('C12', '<' + MF + 'ModelFieldsValidator as _pydantic_core::validators::Validator>::validate', 'validate', models=STATE_MODELS, opts={'budget': 300},
          expect=EXP + ('a found key counts as used', 'all errors are reported', 'the set fields are those recorded', 'unused keys are examined exactly when extras matter'))
class Validate(Fields):
    def used(self, p, L):
        eb = p.arg(0).f('extra_behavior')
        ga = p.events('*is_py_get_attr')
        return AND(NOT(eb.is_('Ignore')), NOT(p.V(ga[0].ret).z) if ga else False)

    def ret(self, p, r):
        ls = loops(p)
        me = p.arg(0)
        vm = p.events('*validate_model_fields')
        if len(vm) != 1:
            raise Lost('reading of the input')
        fa = p.arg(3).f('extra', 'from_attributes')
        p.require('the input is read in the mode and strictness in effect', AND(p.V(vm[0].args[0]).t == p.arg(2).t, p.V(vm[0].args[1]).z == strict_or(p, p.arg(3), me.f('strict')),
                  p.V(vm[0].args[2]).z == z3.If(fa.is_('Some'), fa.as_('Some').z, me.f('from_attributes').z)))
        if not ls:
            p.require('an unreadable input is an error', AND(p.V(vm[0].ret).is_('Err'), r.is_('Err')))
            return
        L, i = ls[0]
        evs = p.st.events[i + 1:]
        nx = nexts(evs)
        if not (nx and p.holds(p.V(nx[0].ret).is_('None'))):
            p.require('an early return is an error', r.is_('Err'))
            va = [ev for ev in evs if is_validate(ev)]
            if va and not named(evs, '::set_item'):
                p.require('other errors end the validation', r.as_('Err').eq(p.V(va[0].ret).as_('Err')))
            return
        it = p.events('*ValidatedDict::iterate')
        p.require('unused keys are examined exactly when extras matter', self.used(p, L) == (len(it) == 1))
        if it:
            s = p.V(it[0].args[1])
            fs = self.fs(p, L)
            for f in ('extra_behavior',):
                p.require('extras are handled as declared', s.f(f).eq(me.f(f)))
            for f in ('extras_validator', 'extras_keys_validator'):
                p.require('extras are handled as declared', AND(s.f(f).is_('Some') == me.f(f).is_('Some'), IMP(me.f(f).is_('Some'), s.f(f).as_('Some').eq(me.f(f).as_('Some').unbox()))))
            if not p.holds(r.is_('Ok')):
                return
        ers = one_vec(p, L, 'ValLineError', 'error vector')
        ok = r.is_('Ok')
        sets = p.events('*PySet::new')
        cnt = [v for v in loop_vars(p, L, '^usize$')]
        if p.holds(ok):
            af = p.events('*add_fields_set')
            p.require('the number of set fields is counted', AND(len(af) == 1, len(cnt) == 1, p.V(af[0].args[1]).eq(cnt[0].head) if af and cnt else False))
            if not it:
                n = p.e.seq_len(p.st, ers.head)
                p.require('success requires that there is no error', n == 0)
                p.require('the set fields are those recorded', AND(len(sets) == 1, p.V(sets[0].args[1]).t == self.fs(p, L).head_term if sets else False))
        elif not it and not sets:
            n = p.e.seq_len(p.st, ers.head)
            p.require('all errors are reported', AND(r.is_('Err'), n != 0, r.as_('Err').is_('LineErrors'), r.as_('Err').as_('LineErrors').t == ers.head_term))


@contract('C12', '*validators::model_fields::*ValidateToModelExtra*ConsumeIterator*::consume_iterator', 'extras: consume_iterator', models=STATE_MODELS, opts={'budget': 200},
          expect=('a used key is no extra', 'a forbidden extra is one error at its key', 'an allowed extra is kept as it is without an extras schema', 'an allowed extra is validated once', 'a kept extra is reported as set', 'errors of an extra are located under its key'))
class ModelExtras(Extras):
    pass


@contract('C12', LK + 'LookupKeyCollection::select', 'LookupKeyCollection::select')
class Select(Contract):
    def ret(self, p, r):
        me, a, n = p.arg(0), p.arg(1).z, p.arg(2).z
        ba, bn, ban = me.f('by_alias'), me.f('by_name'), me.f('by_alias_then_name')
        ok, x = ok_of(r)
        p.require('at least one of alias and name is needed', ok == z3.Or(a, n))
        p.require('alias only uses the alias', IMP(AND(a, NOT(n), ba.is_('Some')), x.eq(ba.as_('Some'))))
        p.require('alias and name use both', IMP(AND(a, n, ban.is_('Some')), x.eq(ban.as_('Some'))))
        p.require('without alias the name is used', IMP(OR(AND(a, NOT(n), ba.is_('None')), AND(a, n, ban.is_('None'))), x.eq(bn)))
        p.require('name only uses the name', IMP(AND(NOT(a), n), x.eq(bn)))


@contract('C12', LK + 'LookupKeyCollection::new', 'LookupKeyCollection::new', expect=('the name is looked up by name', 'the alias is looked up by alias', 'without alias there is only the name'))
class New(Contract):
    def ret(self, p, r):
        fs, fp = p.events('*LookupKey::from_string'), p.events('*LookupKey::from_py')
        if not p.holds(r.is_('Ok')):
            p.require('only an invalid alias is an error', any(p.holds(p.V(ev.ret).is_('Err')) for ev in fp))
            return
        x = r.as_('Ok')
        al, nm = p.arg(1), p.arg(2)
        p.require('the name is looked up by name', AND(len(fs) >= 1, p.V(fs[0].args[1]).eq(nm), x.f('by_name').eq(p.V(fs[0].ret))))
        if p.holds(al.is_('None')):
            p.require('without alias there is only the name', AND(x.f('by_alias').is_('None'), x.f('by_alias_then_name').is_('None')))
            return
        def made(fld, alt):
            o = [AND(p.V(ev.args[1]).t == al.as_('Some').t, (p.V(ev.args[2]).is_('None') if not alt else AND(p.V(ev.args[2]).is_('Some'), p.V(ev.args[2]).as_('Some').eq(nm))), fld.as_('Some').eq(p.V(ev.ret).as_('Ok'))) for ev in fp]
            return AND(fld.is_('Some'), OR(*o) if o else False)
        p.require('the alias is looked up by alias', made(x.f('by_alias'), False))
        p.require('with both allowed the alias comes first, then the name', made(x.f('by_alias_then_name'), True))
