"""C04: collection length limits are exact"""
from contracts.common import *

DUMP = {'stop': ['*SchemaDict*', '_pydantic_core::build_tools::*', '*return_enums::validate_add', '*with_outer_location', '*py_err_string*', '*get_items_schema*', '*build_validator*', '_pydantic_core::validators::tuple::TupleValidator::validate_tuple_*',
                 '*::consume_iterator', '*EitherBytes*::len', '*MaxLengthCheck*::incr']}
ASSUMPTIONS = ['len() of a Vec, PyList, PySet, PyDict, bytes is its number of elements; BuildSet::build_len is the set size']
RE = '_pydantic_core::input::return_enums::'
VA = '_pydantic_core::validators::'


@contract('C04', "*MaxLengthCheck*::incr", 'MaxLengthCheck::incr', no_panic=False, expect=('one more element is allowed exactly while the limit is not exceeded',))
class Incr(Contract):
    def ret(self, p, r):
        a, n = p.arg(0), p.arg_now(0)
        mx = a.f('max_length')
        ok = r.is_('Ok')
        p.require('one more element is allowed exactly while the limit is not exceeded', ok == OR(mx.is_('None'), a.f('current_length').z + 1 <= mx.as_('Some').z))
        p.require('the count advances by one', IMP(mx.is_('Some'), n.f('current_length').z == a.f('current_length').z + 1))
        p.require('the limit is kept', n.f('max_length').eq(mx))
        if p.feasible(NOT(ok)):
            et = single_line_error(p, r)
            if et is None:
                raise Lost('TooLong error')
            p.require('the error names the limit', IMP(NOT(ok), AND(et.is_('TooLong'), et.as_('TooLong', 'max_length').z == mx.as_('Some').z)))


@contract('C04', "*MaxLengthCheck*::new", 'MaxLengthCheck::new')
class New(Contract):
    def ret(self, p, r):
        p.require('counting starts at zero', r.f('current_length').z == 0)
        p.require('the limit is the declared one', r.f('max_length').eq(p.arg(0)))


@contract('C04', RE + 'validate_iter_to_vec', 'validate_iter_to_vec: limit', models=STATE_MODELS, expect=('every element that counts is counted before it is kept', 'an omitted element is not counted'))
class VecLimit(Contract):
    def iter(self, p, L):
        evs = p.iter_events()
        va = [ev for ev in evs if ev.name.endswith('Validator::validate')]
        inc = [ev for ev in evs if ev.name.endswith('::incr')]
        if len(va) != 1:
            raise Lost('one validation per item')
        res = p.V(va[0].ret)
        if p.holds(AND(res.is_('Err'), res.as_('Err').is_('Omit'))):
            p.require('an omitted element is not counted', len(inc) == 0)
        else:
            p.require('every element that counts is counted before it is kept', len(inc) == 1 and p.V(inc[0].ret).is_('Ok'))

    def ret(self, p, r):
        inc = [ev for ev in p.st.events if ev.name.endswith('::incr')]
        if inc and p.feasible(p.V(inc[-1].ret).is_('Err')):
            x = p.V(inc[-1].ret)
            p.require('exceeding the limit is the result', IMP(x.is_('Err'), AND(r.is_('Err'), r.as_('Err').eq(x.as_('Err')))))


@contract('C04', RE + 'validate_iter_to_set', 'validate_iter_to_set: limit', models=STATE_MODELS,
          expect=('a set over the limit is rejected at once', 'the error names the limit'))
class SetLimit(Contract):
    def iter(self, p, L):
        evs = p.iter_events()
        ad = [ev for ev in evs if ev.name.endswith('validate_add')]
        ln = [ev for ev in evs if ev.name.endswith('build_len')]
        mx = p.arg(5)
        if len(ad) != 1:
            raise Lost('one validation per item')
        if p.holds(AND(p.V(ad[0].ret).is_('Ok'), mx.is_('Some'))):
            p.require('a set over the limit is rejected at once', len(ln) >= 1 and p.V(ln[-1].ret).z <= mx.as_('Some').z)

    def ret(self, p, r):
        if p.feasible(r.is_('Err')):
            et = single_line_error(p, r)
            if et is not None and p.holds(et.is_('TooLong')):
                ln = p.ev('*build_len')
                mx = p.arg(5)
                p.require('the error names the limit', AND(mx.is_('Some'), et.as_('TooLong', 'max_length').z == mx.as_('Some').z, p.V(ln.ret).z > mx.as_('Some').z if ln else False))


def limits(p, me, r, n, short, long_, nm=''):
    """result ok iff the length n is within the limits; errors name them"""
    mn, mx = me.f('min_length'), me.f('max_length') if long_ else None
    inside = OR(mn.is_('None'), n >= mn.as_('Some').z)
    if long_:
        inside = AND(inside, OR(mx.is_('None'), n <= mx.as_('Some').z))
    return inside


class Kind(Contract):
    """validate(): min_length (and for those that check it here max_length) decides on the produced collection"""
    both = False
    short, long_ = 'TooShort', 'TooLong'

    def length(self, p):
        raise NotImplementedError

    def ret(self, p, r):
        me = p.arg(0)
        n = self.length(p)
        if n is None:
            if p.feasible(r.is_('Ok')):
                p.require('the produced collection is measured', False)
            return
        mn, mx = me.f('min_length'), me.f('max_length')
        ok = r.is_('Ok')
        if p.feasible(ok):
            p.require('accepted => min_length holds', IMP(AND(ok, mn.is_('Some')), n >= mn.as_('Some').z))
            if self.both:
                p.require('accepted => max_length holds', IMP(AND(ok, mx.is_('Some')), n <= mx.as_('Some').z))
        if p.feasible(NOT(ok)):
            et = single_line_error(p, r)
            if et is None:
                return
            if p.feasible(et.is_(self.short)):
                p.require('a too-short error means too short', IMP(et.is_(self.short), AND(mn.is_('Some'), n < mn.as_('Some').z, et.as_(self.short, 'min_length').z == mn.as_('Some').z)))
            if p.feasible(et.is_(self.long_)):
                p.require('a too-long error means too long', IMP(et.is_(self.long_), AND(mx.is_('Some'), n > mx.as_('Some').z, et.as_(self.long_, 'max_length').z == mx.as_('Some').z)))


def V_(name):
    return f'<{VA}{name} as {VA}Validator>::validate'


@contract('C04', V_('bytes::BytesConstrainedValidator'), 'bytes', models=STATE_MODELS,
          expect=('accepted => min_length holds', 'accepted => max_length holds', 'a too-short error means too short', 'a too-long error means too long'))
class Bytes(Kind):
    both = True
    short, long_ = 'BytesTooShort', 'BytesTooLong'

    def length(self, p):
        ev = p.ev('*EitherBytes*::len')
        return p.V(ev.ret).as_('Ok').z if ev is not None else None


@contract('C04', V_('list::ListValidator'), 'list', models=STATE_MODELS, expect=('accepted => min_length holds', 'a too-short error means too short', 'the limit is handed to the element loop'))
class List(Kind):
    def length(self, p):
        it = p.ev('*iterate')
        self.both = it is None
        if it is not None:
            c = p.V(it.args[1])
            p.require('the limit is handed to the element loop', c.f('max_length').eq(p.arg(0).f('max_length')))
            return p.e.seq_len(p.st, p.V(it.ret).as_('Ok').as_('Ok').v)
        ev = p.ev('*as_py_list')
        if ev is None:
            return None
        return p.e.seq_len(p.st, p.V(ev.ret).as_('Some').v)


@contract('C04', [V_('set::SetValidator'), V_('frozenset::FrozenSetValidator')], 'set', models=STATE_MODELS,
          expect=('accepted => min_length holds', 'a too-short error means too short', 'the limit is handed to the element loop'))
class Set(Kind):
    def length(self, p):
        it = p.ev('*iterate')
        if it is None:
            return None
        c = p.V(it.args[1])
        p.require('the limit is handed to the element loop', c.f('max_length').eq(p.arg(0).f('max_length')))
        return p.e.seq_len(p.st, c.f('set').v if c.has('set') else c.f('f_set').v)


@contract('C04', VA + 'tuple::TupleValidator::push_output_item', 'tuple: push_output_item', expect=('an element is kept exactly while the limit is not exceeded',))
class Push(Contract):
    def ret(self, p, r):
        mx = p.arg(0).f('max_length')
        n = p.e.seq_len(p.st, p.arg(2).v)
        p.require('an element is kept exactly while the limit is not exceeded', r.is_('Ok') == OR(mx.is_('None'), n + 1 <= mx.as_('Some').z))
        et = single_line_error(p, r) if p.feasible(r.is_('Err')) else None
        if et is not None:
            p.require('the error names the limit', AND(et.is_('TooLong'), et.as_('TooLong', 'max_length').z == mx.as_('Some').z))


@contract('C04', V_('tuple::TupleValidator'), 'tuple', models=STATE_MODELS, expect=('accepted => min_length holds',))
class Tuple(Contract):
    def ret(self, p, r):
        it = p.ev('*iterate')
        if it is None:
            p.require('a tuple is produced by the element loop', NOT(r.is_('Ok')))
            return
        mn = p.arg(0).f('min_length')
        n = p.e.seq_len(p.st, p.V(it.ret).as_('Ok').as_('Ok').v)
        p.require('accepted => min_length holds', IMP(AND(r.is_('Ok'), mn.is_('Some')), n >= mn.as_('Some').z))


@contract('C04', "*validators::dict::ValidateToDict*ConsumeIterator*::consume_iterator", 'dict', models=STATE_MODELS,
          expect=('accepted => min_length holds', 'accepted => max_length holds', 'a too-short error means too short', 'a too-long error means too long'))
class Dict(Kind):
    both = True

    def length(self, p):
        ev = p.ev('*PyDict::new')
        return p.e.seq_len(p.st, p.V(ev.ret).v)


@contract('C04', '*EitherBytes*::len', 'EitherBytes::len', expect=('the number of bytes',))
class BLen(Contract):
    def ret(self, p, r):
        a = p.arg(0)
        ev = p.ev('*PyAnyMethods::len')
        if p.holds(a.is_('Cow')):
            p.require('the number of bytes', AND(r.is_('Ok'), r.as_('Ok').z == p.e.seq_len(p.st, a.as_('Cow').v)))
        elif ev is not None:
            p.require('the number of bytes', AND(p.V(ev.args[0]).eq(a.as_('Py')), r.is_('Ok') == p.V(ev.ret).is_('Ok'), IMP(r.is_('Ok'), r.as_('Ok').z == p.V(ev.ret).as_('Ok').z)))


for _m, _t, _keys in (('list::ListValidator', 'list', ('min_length', 'max_length')), ('tuple::TupleValidator', 'tuple', ('min_length', 'max_length')),
                      ('set::SetValidator', 'set', ('min_length', 'max_length')), ('frozenset::FrozenSetValidator', 'frozenset', ('min_length', 'max_length')),
                      ('dict::DictValidator', 'dict', ('min_length', 'max_length')), ('generator::GeneratorValidator', 'generator', ('min_length', 'max_length'))):
    def _mk(keys):
        class B(Contract):
            def ret(self, p, r):
                if not p.feasible(r.is_('Ok')):
                    return
                s = r.as_('Ok')
                s = s.as_([v['n'] for v in p.e.types[s.ty]['v'] if isinstance(s.v, Agg) and p.e.types[s.ty]['v'][s.v.v]['n'] == v['n']][0])
                for k in keys:
                    from_key(p, f'{k} comes from the schema key {k}', s.f(k), k)
        return B
    _c = _mk(_keys)
    _c.__name__ = 'Build_' + _t
    contract('C04', f'<{VA}{_m} as {VA}BuildValidator>::build', f'{_t}: build', expect=tuple(f'{k} comes from the schema key {k}' for k in _keys))(_c)
