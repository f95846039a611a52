"""C26: partial validation only drops the trailing incomplete element"""
from contracts.common import *
from contracts.fields import nexts, named, is_validate
from contracts import c05_elementwise as c05, c07_union as c07, c21_typed_dict as c21

V_ = '_pydantic_core::validators::'
VS = V_ + 'validation_state::'
RE = '_pydantic_core::input::return_enums::'
VAL = ' as ' + V_ + 'Validator>::validate'
DUMP = {'stop': ['*with_outer_location', '*SchemaDict*', '_pydantic_core::build_tools::*', '*MaxLengthCheck*', '*py_err_string*', '*return_enums::validate_add', '*push_output_item', '*build_validator', '*LookupKeyCollection::new',
                 '*LookupKeyCollection::select', '*LookupKey::error', '*apply_error_loc', '*::validate_dict', '*ValidatedDict*::get_item', '*with_type', '*ValLineError::new_with_loc', '*validate_by_alias_or', '*validate_by_name_or', '*::first_key',
                 '*MaybeErrors*', '*LiteralLookup*::validate', '*validate_model_fields', '*validate_dataclass_args', '*validate_args', '*into_val_error', '*ValError::new', '*parse_with_config', '*python_parse', '*map_json_err', '*InternalValidator::new', '*RecursionGuard*', '*new_custom_input', '*validate_json_bytes', '*prepare_validation_err']}
ASSUMPTIONS = ['the nested validators are arbitrary: any result, any effect on the state (contracts here show what each of them is given)',
               'jiter parses the longest prefix of a truncated document (trusted; PartialMode::is_active is `not Off`)',
               'the input iterators of models, dataclasses, arguments, tuples and definition references are out of partial validation: it is switched off there, as documented']


def ap(v):
    return v.f('allow_partial')


def same(a, b):
    return AND(*[a.is_(x) == b.is_(x) for x in ('Off', 'On', 'TrailingStrings')])


def given(p, ev, last, entry, i=3):
    """the state given to a nested validator: the partial mode of the caller for the last item, off for the others"""
    g = ap(p.V(ev.args[i]))
    return AND(IMP(last, same(g, entry)), IMP(NOT(last), g.is_('Off')))


# ---------------------------------------------------------------- which item is the last one
@contract('C26', VS + 'EnumerateLastPartial::<I>::new', 'EnumerateLastPartial::new', expect=('one item is read ahead',))
class New(Contract):
    def ret(self, p, r):
        nx = [ev for ev in p.st.events if ev.name == '<next>' or ev.name.endswith('Iterator::next')]
        p.require('one item is read ahead', AND(len(nx) == 1, *([r.f('next_item').eq(p.V(nx[0].ret)), r.f('index').z == 0, same(ap(r), p.arg(1))] if nx else [])))


@contract('C26', '<' + VS + 'EnumerateLastPartial<I> as *Iterator>::next', 'EnumerateLastPartial::next', models=STATE_MODELS,
          expect=('the item read ahead is returned with its index', 'the last flag means: partial mode and nothing follows', 'the end is the end of the items'))
class Next(Contract):
    def ret(self, p, r):
        nx = [ev for ev in p.st.events if ev.name == '<next>' or ev.name.endswith('Iterator::next')]
        ok = len(nx) == 1
        p.require('one item is read', ok)
        if not ok:
            return
        s0, s1 = p.arg(0), p.arg_now(0)
        p.require('the end is the end of the items', r.is_('None') == s0.f('next_item').is_('None'))
        if p.feasible(r.is_('Some')):
            t = r.as_('Some')
            y = r.is_('Some')
            p.require('the item read ahead is returned with its index', IMP(y, AND(t.f(0).z == s0.f('index').z, t.f(2).eq(s0.f('next_item').as_('Some')), s1.f('index').z == s0.f('index').z + 1)))
            p.require('the item read ahead is replaced by the one that follows', IMP(y, AND(s1.f('next_item').is_('Some') == p.V(nx[0].ret).is_('Some'), IMP(p.V(nx[0].ret).is_('Some'), s1.f('next_item').as_('Some').eq(p.V(nx[0].ret).as_('Some'))))))
            p.require('the last flag means: partial mode and nothing follows', IMP(y, t.f(1).z == AND(NOT(ap(s0).is_('Off')), p.V(nx[0].ret).is_('None'))))
            p.require('the mode stays', same(ap(s1), ap(s0)))


@contract('C26', VS + "ValidationState::<'a, 'py>::enumerate_last_partial", 'enumerate_last_partial', stop=('*EnumerateLastPartial*',), expect=('the items are numbered with the mode of the state',))
class Elp(Contract):
    def ret(self, p, r):
        nw = [ev for ev in p.st.events if ev.name.endswith('::new')]
        p.require('the items are numbered with the mode of the state', AND(len(nw) == 1, *([same(p.V(nw[0].args[1]), ap(p.arg(0)))] if nw else [])))


# ---------------------------------------------------------------- lists and sets
GIV = ('the last item and only it is validated in partial mode',)


class Items:
    def iter(self, p, L):
        super().iter(p, L)
        evs = p.iter_events()
        nx, va = nexts(evs), [ev for ev in evs if self.is_item(ev)]
        if len(nx) == 1 and len(va) == 1:
            last = p.V(nx[0].ret).as_('Some').f(1)
            p.require(GIV[0], given(p, va[0], last.z, ap(p.arg(self.ST)), self.POS))


@contract('C26', RE + 'validate_iter_to_vec', 'list: validate_iter_to_vec', models=STATE_MODELS, expect=c05.EXP + GIV)
class ToVec(Items, c05.ToVec):
    ST, POS = 5, 3


@contract('C26', RE + 'validate_iter_to_set', 'set: validate_iter_to_set', models=STATE_MODELS, expect=c05.EXP + GIV)
class ToSet(Items, c05.ToSet):
    ST, POS = 7, 3


# ---------------------------------------------------------------- dicts
@contract('C26', '*validators::dict::ValidateToDict*ConsumeIterator*::consume_iterator', 'dict: consume_iterator', models=STATE_MODELS,
          expect=('the last value and only it is validated in partial mode', 'keys are validated completely', 'a valid pair is stored'))
class Dict(c05.Dict):
    def iter(self, p, L):
        super().iter(p, L)
        if len(c05.ls_of(p)) > 1 and c05.ls_of(p)[-1] is p.L:
            return
        evs = p.iter_events()
        nx, va = nexts(evs), [ev for ev in evs if is_validate(ev)]
        last = p.V(nx[0].ret).as_('Some').f(1)
        if va:
            p.require('keys are validated completely', ap(p.V(va[0].args[3])).is_('Off'))
        if len(va) > 1:
            p.require('the last value and only it is validated in partial mode', given(p, va[1], last.z, ap(p.V(p.events('*enumerate_last_partial')[0].args[0]))))


# ---------------------------------------------------------------- typed dicts
@contract('C26', '<' + V_ + 'typed_dict::TypedDictValidator' + VAL, 'typed dict: validate', models=STATE_MODELS, opts={'budget': 300},
          expect=('partial mode needs the key of the field to be the last one', 'the last key is the one of the input', 'errors are only dropped for the last partial key of an optional field', 'a default is complete'))
class TypedDict(c21.Validate):
    def iter(self, p, L):
        super().iter(p, L)
        evs = p.iter_events()
        s0 = ap(p.arg(3))
        va = [ev for ev in evs if is_validate(ev)]
        dv = named(evs, '::default_value')
        for ev in dv:
            p.require('a default is complete', ap(p.V(ev.args[3])).is_('Off'))
        if len(va) != 1:
            return
        g = ap(p.V(va[0].args[3]))
        p.require('partial mode comes from the caller', OR(g.is_('Off'), same(g, s0)))
        lk = named(p.st.events, '::last_key')
        key = p.V(lk[0].ret) if lk else None
        p.require('partial mode needs the key of the field to be the last one', IMP(NOT(g.is_('Off')), AND(NOT(s0.is_('Off')), len(named(evs, '::first_key')) > 0)))
        p.require('the last key is the one of the input', IMP(NOT(g.is_('Off')), AND(len(lk) == 1, key.is_('Some') if lk else False)))


@contract('C26', '*validators::typed_dict::*ValidateExtras*ConsumeIterator*::consume_iterator', 'typed dict extras: consume_iterator', models=STATE_MODELS, opts={'budget': 200},
          expect=('only the extra at the last key is validated in partial mode',))
class TdExtras(c21.TdExtras):
    def iter(self, p, L):
        super().iter(p, L)
        evs = p.iter_events()
        me = p.arg(0)
        for ev in evs:
            if is_validate(ev):
                g = ap(p.V(ev.args[3]))
                p.require('only the extra at the last key is validated in partial mode', IMP(NOT(g.is_('Off')), AND(same(g, ap(me)), me.f('partial_last_key').is_('Some'))))


# ---------------------------------------------------------------- where partial mode is not supported it is off
def m_quiet(c):
    """a nested validator never switches partial mode on: off before, off after (contract 'off stays off' below, for every validator)"""
    i = 3
    if len(c.args) <= i:
        return NotImplemented
    v = view(c, i)
    if not v.has('allow_partial'):
        return NotImplemented
    was = v.f('allow_partial').is_('Off')
    r = c.opaque()
    c.e.fact(c.st, IMP(was, view(c, i).f('allow_partial').is_('Off')))
    return r


def off_cands(e, st, L):
    out = []
    for (a, pth) in L.modified:
        ty = L.entry_mty.get(a) if hasattr(L, 'entry_mty') else st.mty.get(a)
        if ty is None or not str(e.types[ty].get('path', '')).endswith('ValidationState'):
            continue

        def g(e, s, l, a=a, ty=ty):
            return V(P(e, s, [], None), s.mem[a], ty).f('allow_partial').is_('Off')
        out.append((f'partial mode off@{a}', g))
    return out


QUIET = [((V_ + 'Validator::validate', V_ + 'Validator::default_value', V_ + 'CombinedValidator::validate', V_ + 'CombinedValidator::default_value'), m_quiet)]
OPTS = {'budget': 400, 'extra_cands': [off_cands]}


class NoPartial(Contract):
    def check(self, p):
        for ev in p.iter_events() if p.L is not None else p.st.events:
            if is_validate(ev) or (ev.name.endswith('::default_value') and len(ev.args) == 4):
                p.require('children are validated completely', ap(p.V(ev.args[3])).is_('Off'))

    def iter(self, p, L):
        self.check(p)

    def ret(self, p, r):
        self.check(p)


for nm in ('tuple::TupleValidator', 'arguments::ArgumentsValidator', 'dataclass::DataclassArgsValidator', 'model_fields::ModelFieldsValidator', 'generator::GeneratorValidator'):
    contract('C26', '<' + V_ + nm + VAL, nm.split('::')[1], models=STATE_MODELS + QUIET, opts=OPTS)(type(nm, (NoPartial,), {}))


# ---------------------------------------------------------------- every attempt on the same input sees the partial mode of the caller
@contract('C26', c07.UN + 'UnionValidator::validate_smart', 'validate_smart', models=STATE_MODELS, expect=('every member sees the partial mode of the union',))
class Smart(Contract):
    def iter(self, p, L):
        for ev in p.iter_events():
            if is_validate(ev):
                p.require('every member sees the partial mode of the union', same(ap(p.V(ev.args[3])), ap(p.arg(3))))


@contract('C26', c07.UN + 'UnionValidator::validate_left_to_right', 'validate_left_to_right', models=STATE_MODELS, expect=('every member sees the partial mode of the union',))
class LeftToRight(Smart):
    pass


class Through(Contract):
    """schemas that validate the same input with one inner schema"""
    def ret(self, p, r):
        for ev in p.st.events:
            if is_validate(ev):
                p.require('the inner schema sees the partial mode of the caller', same(ap(p.V(ev.args[3])), ap(p.arg(3))))


for nm in ('nullable::NullableValidator', 'json_or_python::JsonOrPython', 'lax_or_strict::LaxOrStrictValidator', 'custom_error::CustomErrorValidator', 'with_default::WithDefaultValidator',
           'function::FunctionBeforeValidator', 'function::FunctionAfterValidator', 'json::JsonValidator'):
    contract('C26', '<' + V_ + nm + VAL, nm.split('::')[1], models=STATE_MODELS, stop=('*WithDefaultValidator*::default_value',), expect=('the inner schema sees the partial mode of the caller',))(type(nm, (Through,), {}))


@contract('C26', V_ + 'union::TaggedUnionValidator::find_call_validator', 'find_call_validator', models=STATE_MODELS, expect=('the inner schema sees the partial mode of the caller',))
class Tagged(Contract):
    def ret(self, p, r):
        for ev in p.st.events:
            if is_validate(ev):
                p.require('the inner schema sees the partial mode of the caller', same(ap(p.V(ev.args[3])), ap(p.arg(4))))


# ---------------------------------------------------------------- the mode requested is the mode used
class Entry(Contract):
    POS = None

    def ret(self, p, r):
        want = p.arg(self.POS)
        for ev in p.st.events:
            if is_validate(ev):
                p.require('validation starts with the mode requested', same(ap(p.V(ev.args[3])), want))
            elif ev.name.endswith('parse_with_config'):
                p.require('the text is parsed with the mode requested', same(p.V(ev.args[2]), want))
            elif ev.name.endswith('SchemaValidator::_validate'):
                p.require('validation starts with the mode requested', same(p.V(ev.args[8]), want))


for nm, pos in (('_validate', 8), ('_validate_json', 7)):
    contract('C26', V_ + 'SchemaValidator::' + nm, nm, models=STATE_MODELS, stop=('*SchemaValidator::_validate',) if pos == 7 else (), expect=('validation starts with the mode requested',))(type('Entry' + nm, (Entry,), {'POS': pos}))


@contract('C26', '<' + V_ + 'json::JsonValidator' + VAL, 'json: parsing', models=STATE_MODELS, expect=('the text is parsed with the mode requested',))
class JsonParse(Contract):
    def ret(self, p, r):
        want = ap(p.arg(3))
        for ev in p.st.events:
            if ev.name.endswith('parse_with_config'):
                p.require('the text is parsed with the mode requested', same(p.V(ev.args[2]), want))
            elif ev.name.endswith('python_parse'):
                p.require('the text is parsed with the mode requested', same(p.V(ev.args[0]).f('partial_mode'), want))
