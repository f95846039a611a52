"""C11: wrapping schemas compose their inner schemas"""
from contracts.common import *
from contracts.fields import nexts, named, is_validate
V_ = '_pydantic_core::validators::'
F = V_ + 'function::'
G = V_ + 'generator::InternalValidator::'
VAL = ' as ' + V_ + 'Validator>::'
DUMP = {'stop': ['*with_outer_location', '*ValError::new', '*into_val_error', '*InternalValidator::new', '*InternalValidator::validate*', '*ValidationInfo::new', '*convert_err', '*from_val_error', '*as_val_error', '*map_json_err', '*validate_json_bytes', '*map_bytes_error', '*new_custom_input', '_pydantic_core::build_tools::*', '*parse_with_config', '*python_parse', '*build_validator', '*SchemaDict*']}
ASSUMPTIONS = ['the inner validators and the user functions are arbitrary (any result, any exception, any effect on the state they are given)', 'pyo3: extract/is_instance_of/call1 do what their documentation says']


def vals(p):
    return [ev for ev in p.st.events if is_validate(ev) or ev.name.endswith('Validator::validate_assignment')]


def err_is(p, r, x):
    return AND(r.is_('Err'), r.as_('Err').eq(x))


class Fn(Contract):
    """the user function: called at most once, on the object form of the input, with the handler and the info object where declared"""
    INP, STATE = 2, 3

    def call(self, p, obj=None, handler=None, conv=True):
        """-> (result of the call or None, the conversion error or None). conv: the argument is the object form of the input"""
        me, inp, st = p.arg(0), p.arg(self.INP), p.arg(self.STATE)
        calls = [ev for ev in p.events('*::call1', '*::call') if ev.args and p.holds(p.V(ev.args[0]).eq(me.f('func')))]
        allc = p.events('*::call1', '*::call0', '*::call')
        p.require('the function is called at most once, and nothing else is called', AND(len(calls) <= 1, len(allc) == len(calls)))
        to = p.events('*Input::to_object', '*::to_object')
        if conv:
            if to:
                o = p.V(to[-1].ret)
                p.require('the object form is the one of the input', p.V(to[-1].args[0]).eq(inp))
                if p.holds(o.is_('Err')):
                    p.require('an input without object form calls nothing', len(calls) == 0)
                    return None, o.as_('Err')
                obj = o.as_('Ok')
            else:
                obj = inp         # the input is a Python object: it is its own object form
        ok = len(calls) == 1
        p.require('the function is called once', ok)
        if not ok:
            return None, None
        c = calls[0]
        a = c.args[-1]
        tup = p.V(a)
        n = len(tup.v.f) if isinstance(tup.v, Agg) else None
        if n is None:
            raise Lost('the arguments of the function')
        xs = [tup.f(i) for i in range(n)]
        info = me.f('info_arg').z
        base = 2 if handler is not None else 1
        p.require('the function gets the info object exactly when it asks for it', AND(info == (n == base + 1), n in (base, base + 1)))
        p.require('the function gets the documented value', xs[0].t == obj.t)
        if handler is not None:
            p.require('the function gets the handler', xs[1].t == handler.t)
        if n == base + 1:
            vi = p.events('*ValidationInfo::new')
            if len(vi) != 1:
                raise Lost('the info object')
            p.require('the info object is built for this call', AND(p.V(vi[0].args[2]).t == me.f('config').t, xs[-1].t == p.V(vi[0].ret).t))
            ex = p.V(vi[0].args[1])
            p.require('the info object is built from the state of this call', OR(ex.eq(p.arg_now(self.STATE).f('extra')), ex.eq(st.f('extra'))))
            fn = p.V(vi[0].args[3])
            own, sf = me.f('field_name'), ex.f('field_name')
            p.require('the info object names the field being validated, else the one of the schema',
                      AND(fn.is_('Some') == OR(sf.is_('Some'), own.is_('Some')),
                          IMP(fn.is_('Some'), fn.as_('Some').t == z3.If(sf.is_('Some'), sf.as_('Some').t, own.as_('Some').t))))
        return p.V(c.ret), None

    def converted(self, p, r, e, inp):
        cv = p.events('*convert_err')
        ok = len(cv) == 1
        p.require('an exception of the function is converted once', ok)
        if ok:
            p.require('an exception of the function is converted at the input and is the result', AND(p.V(cv[0].args[1]).eq(e), p.V(cv[0].args[2]).eq(inp), err_is(p, r, p.V(cv[0].ret))))

    def outcome(self, p, r, res, bad, inp):
        """result r is what the function returned"""
        if bad is not None:
            p.require('an input without object form is an error', AND(r.is_('Err'), r.as_('Err').is_('InternalErr'), r.as_('Err').as_('InternalErr').eq(bad)))
            return
        if res is None:
            return
        if p.feasible(res.is_('Ok')):
            p.require('the value of the function is the result', IMP(res.is_('Ok'), AND(r.is_('Ok'), r.as_('Ok').eq(res.as_('Ok')))))
        if p.holds(res.is_('Err')):
            self.converted(p, r, res.as_('Err'), inp)


def inner(p, vs, me, value, state_arg, name='the inner schema validates the documented value once'):
    ok = len(vs) == 1
    p.require(name, AND(ok, p.V(vs[0].args[0]).eq(me.f('validator')), p.V(vs[0].args[2]).t == value.t) if ok else False)
    return p.V(vs[0].ret) if ok else None


class Before(Fn):
    def ret(self, p, r):
        me, inp = p.arg(0), p.arg(self.INP)
        vs = vals(p)
        res, bad = self.call(p)
        if bad is not None or res is None:
            p.require('nothing is validated without function result', len(vs) == 0)
            self.outcome(p, r, res, bad, inp)
            return
        if p.holds(res.is_('Err')):
            p.require('nothing is validated without function result', len(vs) == 0)
            self.converted(p, r, res.as_('Err'), inp)
            return
        v = inner(p, vs, me, res.as_('Ok'), p.arg_now(self.STATE))
        if v is not None:
            p.require('the inner result is the result', r.eq(v))
            self.more(p, vs[0])

    def more(self, p, ev):
        pass


class Assign:
    """validate_assignment(self, py, obj, field_name, field_value, state): the object goes through the function, field and value are passed on"""
    INP, STATE = 2, 5

    def more(self, p, ev):
        p.require('the assignment is passed on', AND(ev.name.endswith('validate_assignment'), p.V(ev.args[3]).eq(p.arg(3)), p.V(ev.args[4]).t == p.arg(4).t))


EXP = ('the function is called once', 'the function gets the documented value', 'an exception of the function is converted at the input and is the result', 'the info object names the field being validated, else the one of the schema')
INN = ('the inner schema validates the documented value once', 'the inner result is the result')
contract('C11', '<' + F + 'FunctionBeforeValidator' + VAL + 'validate', 'FunctionBefore::validate', models=STATE_MODELS, expect=EXP + INN)(Before)


@contract('C11', '<' + F + 'FunctionBeforeValidator' + VAL + 'validate_assignment', 'FunctionBefore::validate_assignment', models=STATE_MODELS, expect=EXP + INN + ('the assignment is passed on',))
class BeforeAssign(Assign, Before):
    pass


class After(Fn):
    def ret(self, p, r):
        me, inp = p.arg(0), p.arg(self.INP)
        vs = vals(p)
        v = inner(p, vs, me, inp, p.arg_now(self.STATE))
        if v is None:
            return
        self.more(p, vs[0])
        if p.holds(v.is_('Err')):
            p.require('a failing inner schema calls nothing', AND(len(p.events('*::call1', '*::call')) == 0, err_is(p, r, v.as_('Err'))))
            return
        res, bad = self.call(p, obj=v.as_('Ok'), conv=False)
        ix = {id(ev): i for i, ev in enumerate(p.st.events)}
        self.outcome(p, r, res, None, inp)

    def more(self, p, ev):
        pass


contract('C11', '<' + F + 'FunctionAfterValidator' + VAL + 'validate', 'FunctionAfter::validate', models=STATE_MODELS, expect=EXP + INN[:1] + ('a failing inner schema calls nothing', 'the value of the function is the result'))(After)


@contract('C11', '<' + F + 'FunctionAfterValidator' + VAL + 'validate_assignment', 'FunctionAfter::validate_assignment', models=STATE_MODELS, expect=EXP + INN[:1] + ('a failing inner schema calls nothing', 'the value of the function is the result', 'the assignment is passed on'))
class AfterAssign(Assign, After):
    pass


@contract('C11', '<' + F + 'FunctionPlainValidator' + VAL + 'validate', 'FunctionPlain::validate', models=STATE_MODELS, expect=EXP + ('the value of the function is the result',))
class Plain(Fn):
    def ret(self, p, r):
        p.require('nothing else validates', len(vals(p)) == 0)
        res, bad = self.call(p)
        self.outcome(p, r, res, bad, p.arg(self.INP))


def m_borrow(c):
    """Bound<T>::borrow: the content of the cell at this moment"""
    e = c.e
    t = e.types[e.strip_refs(c.atys[0])]
    r = c.fresh('borrow')
    for a in t.get('args') or []:
        if e.types[a]['k'] == 'adt':
            r = e.fresh(c.st, a, 'borrow')
    c.event(r)
    return r


BORROW = [(('pyo3::instance::Bound::<*>::borrow',), m_borrow)]


class Wrap(Fn):
    KEEP = True

    def ret(self, p, r):
        me, inp, st = p.arg(0), p.arg(self.INP), p.arg(self.STATE)
        p.require('nothing validates before the function asks for it', len(vals(p)) == 0)
        iv = p.events('*InternalValidator::new')
        bn = p.events('*Bound*::new', '*Py*::new')
        bn = [b for b in bn if 'InternalValidator' not in b.name and 'ValidationInfo' not in b.name]
        if len(iv) != 1 or len(bn) != 1:
            raise Lost('the handler')
        p.require('the handler validates with the inner schema', p.V(iv[0].args[1]).t == me.f('validator').t)
        p.require('the handler starts from the state of this call', AND(p.V(iv[0].args[2]).f('exactness').eq(st.f('exactness')), p.V(iv[0].args[2]).f('fields_set_count').eq(st.f('fields_set_count'))))
        p.require('the handler hides inputs as configured', AND(p.V(iv[0].args[3]).z == me.f('hide_input_in_errors').z, p.V(iv[0].args[4]).z == me.f('validation_error_cause').z))
        hv = p.V(bn[0].args[-1])
        hv2 = hv
        if not (isinstance(hv.v, Agg) and hv.has('validator')):
            raise Lost('the handler object')
        p.require('the handler wraps that validator', hv.f('validator').t == p.V(iv[0].ret).t)
        if not self.KEEP:
            p.require('the handler assigns this field', hv.f('updated_field_value').t == p.arg(4).t)
        b = p.V(bn[0].ret)
        if p.holds(b.is_('Err')):
            p.require('without handler nothing is called', AND(r.is_('Err'), len(p.events('*::call1')) == 0))
            return
        res, bad = self.call(p, handler=b.as_('Ok'))
        self.outcome(p, r, res, bad, inp)
        if self.KEEP:
            now = p.arg_now(self.STATE)
            bo = [ev for ev in p.st.events if ev.name.endswith('::borrow') and ev.args and p.holds(p.V(ev.args[0]).t == b.as_('Ok').t)]
            if not bo:
                raise Lost('the handler after the call')
            at = {id(ev): i for i, ev in enumerate(p.st.events)}
            call = [at[id(ev)] for ev in p.events('*::call1')]
            for f in ('exactness', 'fields_set_count'):
                p.require('exactness and field count of the handler after the call are kept',
                          OR(*[AND(now.f(f).eq(p.V(x.ret).f('validator', f)), all(at[id(x)] > i for i in call)) for x in bo]))


contract('C11', '<' + F + 'FunctionWrapValidator' + VAL + 'validate', 'FunctionWrap::validate', models=BORROW + STATE_MODELS, expect=EXP + ('the value of the function is the result', 'the function gets the handler', 'the handler validates with the inner schema', 'exactness and field count of the handler after the call are kept'))(Wrap)


@contract('C11', '<' + F + 'FunctionWrapValidator' + VAL + 'validate_assignment', 'FunctionWrap::validate_assignment', models=STATE_MODELS, expect=EXP + ('the value of the function is the result', 'the function gets the handler', 'the handler assigns this field'))
class WrapAssign(Wrap):
    INP, STATE, KEEP = 2, 5, False


# ---- the handler object
PASSED = ('strict', 'from_attributes', 'cache_str', 'by_alias', 'by_name')
OBJS = ('data', 'context', 'self_instance')


def opt_t(a, b):
    """two Options hold the same object (whatever reference type holds it)"""
    return AND(a.is_('Some') == b.is_('Some'), IMP(a.is_('Some'), a.as_('Some').t == b.as_('Some').t))


@contract('C11', G + 'new', 'InternalValidator::new', models=STATE_MODELS)
class HandlerNew(Contract):
    def ret(self, p, r):
        st, ex = p.arg(2), p.arg(2).f('extra')
        if not isinstance(r.v, Agg):
            raise Lost('the handler')
        p.require('the handler validates with the given validator', r.f('validator').t == p.arg(1).t)
        for f in PASSED:
            p.require(f'the handler keeps {f} of the call', r.f(f).eq(ex.f(f)))
        for f in OBJS + ('field_name',):
            p.require(f'the handler keeps {f} of the call', opt_t(r.f(f), ex.f(f)))
        p.require('the handler keeps the input type of the call', r.f('validation_mode').eq(ex.f('input_type')))
        p.require('the handler keeps exactness and field count', AND(r.f('exactness').eq(st.f('exactness')), r.f('fields_set_count').eq(st.f('fields_set_count'))))
        p.require('the handler keeps the recursion guard', r.f('recursion_guard').eq(st.f('recursion_guard')))
        p.require('the handler keeps the error settings', AND(r.f('hide_input_in_errors').z == p.arg(3).z, r.f('validation_error_cause').z == p.arg(4).z))


class HandlerValidate(Contract):
    METHOD = 'Validator::validate'

    def ret(self, p, r):
        me = p.arg(0)
        now = p.arg_now(0)
        vs = vals(p)
        ok = len(vs) == 1 and vs[0].name.endswith(self.METHOD)
        p.require('the inner schema validates once', ok)
        if not ok:
            return
        ev = vs[0]
        p.require('the inner schema validates what the function hands in', AND(p.V(ev.args[0]).eq(me.f('validator')), p.V(ev.args[2]).t == p.arg(2).t))
        st = p.V(ev.args[-1])
        ex = st.f('extra')
        for f in PASSED:
            p.require(f'{f} of the call applies inside', ex.f(f).eq(me.f(f)))
        for f in OBJS:
            p.require(f'{f} of the call applies inside', opt_t(ex.f(f), me.f(f)))
        p.require('the input type of the call applies inside', ex.f('input_type').eq(me.f('validation_mode')))
        p.require('the inner state starts from exactness and field count of the handler', AND(st.f('exactness').eq(me.f('exactness')), st.f('fields_set_count').eq(me.f('fields_set_count'))))
        p.require('values the function hands in are complete', st.f('allow_partial').is_('Off'))
        self.more(p, ev, ex)
        v = p.V(ev.ret)
        if p.feasible(v.is_('Ok')):
            p.require('the inner value is handed to the function', IMP(v.is_('Ok'), AND(r.is_('Ok'), r.as_('Ok').eq(v.as_('Ok')))))
        fv = p.events('*from_val_error')
        p.require('an inner error is raised in the function', v.is_('Err') == (len(fv) == 1))
        if fv:
            a = [p.V(x) for x in fv[0].args]
            p.require('the inner error is raised in the function', AND(r.is_('Err'), r.as_('Err').eq(p.V(fv[0].ret)), a[3].eq(v.as_('Err')), a[5].z == me.f('hide_input_in_errors').z, a[6].z == me.f('validation_error_cause').z))
        after = p.V(ev.raw[-1])        # the inner state as validation left it
        p.require('the handler keeps what validation learnt', AND(now.f('exactness').eq(after.f('exactness')), now.f('fields_set_count').eq(after.f('fields_set_count'))))

    def more(self, p, ev, ex):
        p.require('the field name of the call applies inside', opt_t(ex.f('field_name'), p.arg(0).f('field_name')))


HEXP = ('the inner schema validates what the function hands in', 'by_alias of the call applies inside', 'the inner error is raised in the function', 'the inner value is handed to the function', 'the handler keeps what validation learnt')
contract('C11', G + 'validate', 'InternalValidator::validate', models=STATE_MODELS, expect=HEXP)(HandlerValidate)


@contract('C11', G + 'validate_assignment', 'InternalValidator::validate_assignment', models=STATE_MODELS, expect=HEXP)
class HandlerAssign(HandlerValidate):
    METHOD = 'Validator::validate_assignment'

    def more(self, p, ev, ex):
        p.require('the assignment is passed on', AND(p.V(ev.args[3]).t == p.arg(3).t, p.V(ev.args[4]).t == p.arg(4).t))


@contract('C11', F + 'ValidationInfo::new', 'ValidationInfo::new')
class Info(Contract):
    def ret(self, p, r):
        ex = p.arg(1)
        if not isinstance(r.v, Agg):
            raise Lost('the info object')
        p.require('the info object shows configuration, context, data, field name and mode of the call',
                  AND(r.f('config').t == p.arg(2).t, opt_t(r.f('context'), ex.f('context')), opt_t(r.f('data'), ex.f('data')), opt_t(r.f('field_name'), p.arg(3)), r.f('mode').eq(ex.f('input_type'))))


class Call(Contract):
    def ret(self, p, r):
        vs = p.events('*InternalValidator::validate*')
        ok = len(vs) == 1
        p.require('the handler validates once', ok)
        if not ok:
            return
        a = [p.V(x) for x in vs[0].args]
        me = p.arg(0)
        p.require('the handler validates the given value', AND(a[2].t == p.arg(2).t))
        p.require('the result of the handler is its result', r.eq(p.V(vs[0].ret)))
        p.require('the handler reports at the given location', a[-1].is_('Some') == p.arg(3).is_('Some'))
        if vs[0].name.endswith('validate_assignment'):
            p.require('the handler assigns its field', AND(a[3].t == me.f('updated_field_name').t, a[4].t == me.f('updated_field_value').t))


contract('C11', F + 'ValidatorCallable::__call__', 'ValidatorCallable::__call__')(type('Call1', (Call,), {}))
contract('C11', F + 'AssignmentValidatorCallable::__call__', 'AssignmentValidatorCallable::__call__', expect=('the handler assigns its field',))(type('Call2', (Call,), {}))


# ---- exceptions
def m_isinst(c):
    """PyErr::is_instance_of::<T>: the class of the exception derives from T (an uninterpreted fact per exception and T)"""
    c.event(None)
    ts = c.callee.get('targs') or []
    r = c.fresh('isinst')
    c.st.events[-1].ret = r
    return r


@contract('C11', F + 'convert_err', 'convert_err', expect=('a custom error keeps its type', 'a known error keeps its type', 'a nested validation error keeps its errors', 'another ValueError is a value_error', 'an AssertionError is an assertion_error', 'another exception propagates unchanged', 'PydanticOmit omits', 'PydanticUseDefault asks for the default'))
class Convert(Contract):
    def ret(self, p, r):
        exc, inp = p.arg(1), p.arg(2)
        facts = {}
        for ev in p.events('*::is_instance_of', '*::is_instance'):
            m = re.search(r'is_instance_of::<([^>]*)>', ev.full)
            if m and p.holds(p.V(ev.args[0]).eq(exc)):
                facts[m.group(1).split('::')[-1]] = p.V(ev.ret).z
        ext = {}
        for ev in p.events('*::extract'):
            m = re.search(r'extract::<([^>]*)>', ev.full)
            if m:
                ext[m.group(1).split('::')[-1]] = p.V(ev.ret)
        iv = p.events('*into_val_error')
        nv = p.events('*ValError::new')
        if 'PyValueError' not in facts:
            raise Lost('the class tests: ' + ', '.join(facts))
        val = facts['PyValueError']
        err = [x for x in iv + nv]

        def single(tname, name):
            x = ext[tname]
            evs = [ev for ev in iv if tname in (ev.res or '') + ev.name + ev.full]
            ok = len(evs) == 1 and len(iv) == 1 and not nv
            p.require(name, AND(r.eq(p.V(evs[0].ret)), p.V(evs[0].args[0]).eq(x.as_('Ok')), *([p.V(evs[0].args[1]).eq(inp)] if len(evs[0].args) > 1 else [])) if ok else False)
        if p.holds(val):
            for tname, name in (('PydanticCustomError', 'a custom error keeps its type'), ('PydanticKnownError', 'a known error keeps its type'), ('ValidationError', 'a nested validation error keeps its errors')):
                if tname not in ext:
                    p.require(name, False, 'the exception is not tried as ' + tname)
                    return
                if p.holds(ext[tname].is_('Ok')):
                    single(tname, name)
                    return
            self.simple(p, r, exc, inp, nv, 'ValueError', 'another ValueError is a value_error')
            return
        p.require('the class of the exception decides', NOT(val))
        if 'PyAssertionError' not in facts:
            raise Lost('the class tests')
        if p.holds(facts['PyAssertionError']):
            self.simple(p, r, exc, inp, nv, 'AssertionError', 'an AssertionError is an assertion_error')
            return
        for k, variant, name in (('PydanticOmit', 'Omit', 'PydanticOmit omits'), ('PydanticUseDefault', 'UseDefault', 'PydanticUseDefault asks for the default')):
            if k not in facts:
                p.require('another exception propagates unchanged', False, f'{k} is not tested')
                return
            if p.holds(facts[k]):
                p.require(name, r.is_(variant))
                return
        p.require('another exception propagates unchanged', AND(r.is_('InternalErr'), r.as_('InternalErr').eq(exc)))

    def simple(self, p, r, exc, inp, nv, variant, name):
        bad = r.is_('InternalErr')
        if p.holds(bad):
            rs = [p.V(ev.ret) for ev in p.events('*::str', '*::to_str') if ev.ret is not None]
            p.require('an exception whose message is not readable propagates the reason', OR(*[AND(x.is_('Err'), r.as_('InternalErr').eq(x.as_('Err'))) for x in rs]) if rs else False)
            return
        if len(nv) != 1:
            p.require(name, False)
            return
        et = p.V(nv[0].args[0])
        p.require(name, AND(r.eq(p.V(nv[0].ret)), et.is_(variant), p.V(nv[0].args[1]).eq(inp)))


# ---- composition
class One(Contract):
    """the result is what the chosen inner schema makes of the same input"""

    def pick(self, p, me, vs):
        raise NotImplementedError

    def ret(self, p, r):
        raise NotImplementedError


def delegates(p, r, ev, vld, inp, name):
    p.require(name, AND(p.V(ev.args[0]).eq(vld), p.V(ev.args[2]).t == inp.t, r.eq(p.V(ev.ret))))


@contract('C11', '<' + V_ + 'nullable::NullableValidator' + VAL + 'validate', 'Nullable::validate', models=STATE_MODELS, expect=('None is accepted', 'another value is what the inner schema makes of it'))
class Nullable(Contract):
    def ret(self, p, r):
        me, inp = p.arg(0), p.arg(2)
        vs = vals(p)
        isn = p.events('*Input::is_none', '*::is_none')
        if not isn:
            raise Lost('the test for None')
        n = p.V(isn[0].ret).z
        p.require('the input is tested', p.V(isn[0].args[0]).eq(inp))
        p.require('the inner schema sees every other value once', AND(len(vs) <= 1, n == (len(vs) == 0)))
        if not vs:
            none = p.events('*Python*::None')
            p.require('None is accepted', AND(r.is_('Ok'), OR(*[r.as_('Ok').eq(p.V(ev.ret)) for ev in none]) if none else False))
        else:
            delegates(p, r, vs[0], me.f('validator'), inp, 'another value is what the inner schema makes of it')


@contract('C11', '<' + V_ + 'json_or_python::JsonOrPython' + VAL + 'validate', 'JsonOrPython::validate', models=STATE_MODELS, expect=('exactly the schema of the mode validates',))
class JsonOrPython(Contract):
    def ret(self, p, r):
        me, inp = p.arg(0), p.arg(2)
        vs = vals(p)
        ok = len(vs) == 1
        p.require('one schema validates', ok)
        if not ok:
            return
        py_ = p.arg(3).f('extra', 'input_type').is_('Python')
        a = p.V(vs[0].args[0])
        p.require('exactly the schema of the mode validates', z3.If(py_, a.eq(me.f('python')), a.eq(me.f('json'))))
        p.require('its result is the result', AND(p.V(vs[0].args[2]).t == inp.t, r.eq(p.V(vs[0].ret))))


@contract('C11', '<' + V_ + 'lax_or_strict::LaxOrStrictValidator' + VAL + 'validate', 'LaxOrStrict::validate', models=STATE_MODELS, expect=('strict mode uses the strict schema', 'lax mode uses the lax schema', 'in a union the strict schema is preferred'))
class LaxOrStrict(Contract):
    def ret(self, p, r):
        me, inp, st = p.arg(0), p.arg(2), p.arg(3)
        vs = vals(p)
        ok = 1 <= len(vs) <= 2
        p.require('one schema decides', ok)
        if not ok:
            return
        strict = strict_or(p, st, me.f('strict'))
        a = [p.V(ev.args[0]) for ev in vs]
        for ev in vs:
            p.require('the same input is validated', p.V(ev.args[2]).t == inp.t)
        last = vs[-1]
        p.require('the result of the deciding schema is the result', r.eq(p.V(last.ret)))
        p.require('strict mode uses the strict schema', IMP(strict, AND(len(vs) == 1, a[0].eq(me.f('strict_validator')))))
        union = st.f('exactness').is_('Some')
        p.require('lax mode uses the lax schema', IMP(AND(NOT(strict), NOT(union)), AND(len(vs) == 1, a[0].eq(me.f('lax_validator')))))
        u = AND(NOT(strict), union)
        if p.feasible(u):
            first = p.V(vs[0].ret)
            p.require('in a union the strict schema is preferred', IMP(u, AND(a[0].eq(me.f('strict_validator')), first.is_('Ok') == (len(vs) == 1))))
            if len(vs) == 2:
                p.require('in a union the lax schema decides otherwise', a[1].eq(me.f('lax_validator')))
                s1 = p.V(vs[1].args[-1])
                p.require('in a union a lax success counts as lax, without the fields of the failed attempt', AND(NOT(AND(s1.f('exactness').is_('Some'), NOT(s1.f('exactness').as_('Some').is_('Lax')))), s1.f('fields_set_count').eq(st.f('fields_set_count'))))


@contract('C11', '<' + V_ + 'custom_error::CustomErrorValidator' + VAL + 'validate', 'CustomError::validate', models=STATE_MODELS, expect=('a valid value is unchanged', 'validation errors are replaced by the custom error', 'anything else is unchanged'))
class CustomErr(Contract):
    def ret(self, p, r):
        me, inp = p.arg(0), p.arg(2)
        vs = vals(p)
        v = inner(p, vs, me, inp, None)
        if v is None:
            return
        ce = p.events('*as_val_error')
        e = v.as_('Err')
        if p.feasible(v.is_('Ok')):
            p.require('a valid value is unchanged', IMP(v.is_('Ok'), AND(r.is_('Ok'), r.as_('Ok').eq(v.as_('Ok')))))
        le = AND(v.is_('Err'), e.is_('LineErrors'))
        if p.feasible(le):
            p.require('validation errors are replaced by the custom error', IMP(le, AND(len(ce) == 1, *([err_is(p, r, p.V(ce[0].ret)), p.V(ce[0].args[0]).eq(me.f('custom_error')), p.V(ce[0].args[1]).t == inp.t] if ce else []))))
        ot = AND(v.is_('Err'), NOT(e.is_('LineErrors')))
        if p.feasible(ot):
            p.require('anything else is unchanged', IMP(ot, err_is(p, r, e)))


@contract('C11', V_ + 'custom_error::CustomError::as_val_error', 'CustomError::as_val_error', expect=('the declared error is reported at the input',))
class AsVal(Contract):
    def ret(self, p, r):
        iv = p.events('*into_val_error')
        me = p.arg(0)
        if len(iv) != 1:
            raise Lost('the declared error')
        a = p.V(iv[0].args[0])
        known = 'Known' in (iv[0].res or '') + iv[0].full
        p.require('the declared error is reported at the input', AND(me.is_('KnownError') == known, r.eq(p.V(iv[0].ret)), p.V(iv[0].args[1]).eq(p.arg(1)), a.eq(me.as_('KnownError' if known else 'Custom'))))


CH = V_ + 'chain::ChainValidator' + VAL + 'validate'


@contract('C11', '<' + CH, 'Chain::validate', models=STATE_MODELS, expect=('the first step validates the input', 'the value runs through the remaining steps in order', 'a failing first step fails the chain'))
class Chain(Contract):
    def ret(self, p, r):
        me, inp = p.arg(0), p.arg(2)
        vs = vals(p)
        if p.st.events and any(ev.name == '<loop>' for ev in p.st.events):
            raise Lost('a loop over the steps')
        nx = nexts(p.st.events)
        if len(vs) != 1 or not nx:
            raise Lost('the first step')
        first = p.V(nx[0].ret)
        p.require('the first step validates the input', AND(p.V(vs[0].args[0]).eq(first.as_('Some')), p.V(vs[0].args[2]).t == inp.t))
        v = p.V(vs[0].ret)
        tf = p.events('*Iterator::try_fold')
        if p.holds(v.is_('Err')):
            p.require('a failing first step fails the chain', AND(err_is(p, r, v.as_('Err')), len(tf) == 0))
            return
        if len(tf) != 1:
            raise Lost('the remaining steps')
        it = tf[0].args[0]
        itv = p.V(it).v
        if not isinstance(itv, ItV) or itv.kind != 'seq':
            raise Lost('the remaining steps: ' + str(itv)[:80])
        p.require('the value runs through the remaining steps in order', AND(p.V(itv.src).eq(me.f('steps')), itv.pos == 1, p.V(tf[0].args[1]).eq(v.as_('Ok')), r.eq(p.V(tf[0].ret))))


@contract('C11', '<' + CH + '::{closure#0}', 'Chain step', models=STATE_MODELS, expect=('each step validates the result of the step before',))
class Step(Contract):
    def ret(self, p, r):
        vs = vals(p)
        if len(vs) != 1:
            raise Lost('the step')
        p.require('each step validates the result of the step before', AND(p.V(vs[0].args[0]).eq(p.arg(2)), p.V(vs[0].args[2]).t == p.arg(1).t, r.eq(p.V(vs[0].ret))))


@contract('C11', '<' + V_ + 'json::JsonValidator' + VAL + 'validate', 'Json::validate', models=STATE_MODELS,
          expect=('the text of the input is parsed', 'the parsed value is validated in JSON mode', 'without schema the parsed value is the result', 'text which is not JSON is a json_invalid error', 'an input without text is the error'))
class Json(Contract):
    def ret(self, p, r):
        me, inp, st = p.arg(0), p.arg(2), p.arg(3)
        b = p.events('*validate_json_bytes')
        if len(b) != 1:
            raise Lost('the text')
        p.require('the text of the input is parsed', p.V(b[0].args[0]).eq(inp))
        vs = vals(p)
        bv = p.V(b[0].ret)
        if p.holds(bv.is_('Err')):
            p.require('an input without text is the error', AND(err_is(p, r, bv.as_('Err')), len(vs) == 0))
            return
        js, py_ = p.events('*parse_with_config'), p.events('*python_parse')
        ok = len(js) + len(py_) == 1
        p.require('the text is parsed once', ok)
        if not ok:
            return
        hasv = me.f('validator').is_('Some')
        p.require('the text is parsed for validation exactly if there is a schema', hasv == (len(js) == 1))
        ps = p.V((js or py_)[0].ret)
        if js:
            p.require('inf and nan are allowed, partial mode is the one of the call', AND(p.V(js[0].args[1]).z, p.V(js[0].args[2]).eq(st.f('allow_partial'))))
        else:
            cfg = p.V(py_[0].args[0])
            p.require('inf and nan are allowed, partial mode is the one of the call', AND(cfg.f('allow_inf_nan').z, cfg.f('partial_mode').eq(st.f('allow_partial'))))
        if p.holds(ps.is_('Err')):
            me_ = p.events('*map_json_err')
            ok = len(me_) == 1
            p.require('text which is not JSON is a json_invalid error', AND(err_is(p, r, p.V(me_[0].ret)), p.V(me_[0].args[0]).t == inp.t, p.V(me_[0].args[1]).t == ps.as_('Err').t, len(vs) == 0) if ok else False)
            return
        if js:
            ok = len(vs) == 1
            p.require('the parsed value is validated in JSON mode', AND(p.V(vs[0].args[0]).eq(me.f('validator').as_('Some')), p.V(vs[0].args[2]).eq(ps.as_('Ok')), p.V(vs[0].args[3]).f('extra', 'input_type').is_('Json'), r.eq(p.V(vs[0].ret))) if ok else False)
        else:
            p.require('without schema the parsed value is the result', AND(r.is_('Ok'), r.as_('Ok').t == ps.as_('Ok').t, len(vs) == 0))


@contract('C11', V_ + 'json::map_json_err', 'map_json_err')
class MapErr(Contract):
    def ret(self, p, r):
        nv = p.events('*ValError::new')
        if len(nv) != 1:
            raise Lost('the error')
        p.require('the error is json_invalid at the input', AND(r.eq(p.V(nv[0].ret)), p.V(nv[0].args[0]).is_('JsonInvalid'), p.V(nv[0].args[1]).eq(p.arg(0))))
