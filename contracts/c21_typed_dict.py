"""C21: typed dicts contain exactly the declared and permitted keys"""
from contracts.common import *
from contracts.fields import *

DUMP = {'stop': ['*with_outer_location', '*SchemaDict*', '_pydantic_core::build_tools::*', '*py_err_string*', '*build_validator', '*LookupKeyCollection::new', '*LookupKeyCollection::select', '*LookupKey::error', '*apply_error_loc', '*::validate_dict',
                 '*ValidatedDict*::get_item', '*with_type', '*ValLineError::new_with_loc', '*validate_by_alias_or', '*validate_by_name_or', '*::first_key']}
ASSUMPTIONS = ['the field validators are arbitrary: any result, any effect on the state', 'ValidatedDict::get_item resolves a lookup key (contracts in C13)', 'an input mapping is iterated in order, each entry once']
TD = '_pydantic_core::validators::typed_dict::'


@contract('C21', '<' + TD + 'TypedDictValidator as _pydantic_core::validators::Validator>::validate', 'validate', models=STATE_MODELS, opts={'budget': 300},
          expect=('each field is looked up once', 'a given field is validated exactly once', 'a valid field is stored under its name', 'an absent field takes its default', 'the default is stored under the name', 'a missing field is reported',
                  'errors of a field are located under the path used', 'errors are only dropped for the last partial key of an optional field', 'the result is the built dict', 'all errors are reported'))
class Validate(Fields):
    typed_dict = True

    def used(self, p, L):
        eb = p.arg(0).f('extra_behavior')
        ga = p.events('*is_py_get_attr')
        return AND(NOT(eb.is_('Ignore')), NOT(p.V(ga[0].ret).z) if ga else False)

    def ret(self, p, r):
        ls = loops(p)
        me = p.arg(0)
        vm = p.events('*validate_dict')
        if len(vm) != 1:
            raise Lost('reading of the input')
        p.require('the input is read with the strictness in effect', AND(p.V(vm[0].args[0]).t == p.arg(2).t, p.V(vm[0].args[1]).z == strict_or(p, p.arg(3), me.f('strict'))))
        if not ls:
            p.require('an unreadable input is an error', AND(p.V(vm[0].ret).is_('Err'), r.is_('Err')))
            return
        L, i = ls[0]
        evs = p.st.events[i + 1:]
        nx = nexts(evs)
        if not (nx and p.holds(p.V(nx[0].ret).is_('None'))):
            p.require('an early return is an error', r.is_('Err'))
            va = [ev for ev in evs if is_validate(ev)]
            if va and not named(evs, '::set_item'):
                p.require('other errors end the validation', r.as_('Err').eq(p.V(va[0].ret).as_('Err')))
            return
        it = p.events('*ValidatedDict::iterate')
        p.require('unused keys are examined exactly when extras matter', self.used(p, L) == (len(it) == 1))
        new = p.events('*PyDict::new')
        if it:
            s = p.V(it[0].args[1])
            p.require('extras are handled as declared', AND(IMP(s.f('partial_last_key').is_('Some'), self.partial(p)), s.f('extra_behavior').eq(me.f('extra_behavior')), s.f('output_dict').t == p.V(new[0].ret).t))
            p.require('extras are handled as declared', AND(s.f('extras_validator').is_('Some') == me.f('extras_validator').is_('Some'), IMP(me.f('extras_validator').is_('Some'), s.f('extras_validator').as_('Some').eq(me.f('extras_validator').as_('Some').unbox()))))
        ers = one_vec(p, L, 'ValLineError', 'error vector')
        if p.holds(r.is_('Ok')):
            p.require('the result is the built dict', r.as_('Ok').t == p.V(new[0].ret).t)
            if not it:
                p.require('success requires that there is no error', p.e.seq_len(p.st, ers.head) == 0)
        elif not it:
            n = p.e.seq_len(p.st, ers.head)
            p.require('all errors are reported', AND(r.is_('Err'), n != 0, r.as_('Err').is_('LineErrors'), r.as_('Err').as_('LineErrors').t == ers.head_term))


@contract('C21', '*validators::typed_dict::*ValidateExtras*ConsumeIterator*::consume_iterator', 'extras: consume_iterator', models=STATE_MODELS, opts={'budget': 200},
          expect=('a used key is no extra', 'a forbidden extra is one error at its key', 'an allowed extra is kept as it is without an extras schema', 'an allowed extra is validated once', 'errors of an extra are located under its key'))
class TdExtras(Extras):
    set_tracking = False
    keys = False
