"""C05: collections are validated element by element, in order, with exact positions"""
from contracts.common import *

DUMP = {'stop': ['*with_outer_location', '*SchemaDict*', '_pydantic_core::build_tools::*', '*MaxLengthCheck*', '*py_err_string*', '*return_enums::validate_add', '*push_output_item']}
ASSUMPTIONS = ['an input iterator yields its items in order, each once (jiter arrays, PyList/PyTuple iteration)', 'the item validator is arbitrary: any result, any effect on the state']
RE = '_pydantic_core::input::return_enums::'
TUP = '_pydantic_core::validators::tuple::'


def is_validate(ev):
    return ev.name.endswith('Validator::validate')


def is_add(ev):
    return ev.name.endswith('validate_add')


def ls_of(p):
    return [x for x, i in loops(p)]


def nexts(evs):
    return [ev for ev in evs if ev.name == '<next>']


class Elementwise(Contract):
    """one loop over (index, is last partial item, item result) of the input iterator"""
    is_item = staticmethod(is_validate)
    appends = True

    def item_args(self, p, v, item):
        return AND(p.V(v.args[0]).eq(p.arg(4)), p.V(v.args[2]).t == item.t)

    def fail_fast(self, p):
        return p.arg(6).z

    def iter(self, p, L):
        evs = p.iter_events()
        nx, va = nexts(evs), [ev for ev in evs if self.is_item(ev)]
        p.require('each item is validated exactly once', len(nx) == 1 and len(va) == 1)
        if len(nx) != 1 or len(va) != 1:
            return
        it = p.V(nx[0].ret).as_('Some')
        idx, last, item = it.f(0), it.f(1), it.f(2)
        v = va[0]
        p.require('the item validator validates this item', self.item_args(p, v, item.as_('Ok')))
        p.require('items follow one another', p.V(nx[0].ret).is_('Some'))
        res = p.V(v.ret)
        er = self.errors(p, L)
        o = self.output(p, L) if self.appends else None
        p.require('both lists start empty', er.starts_empty and (o is None or o.starts_empty))
        if p.holds(res.is_('Ok')):
            p.require('a valid item is appended', AND(o is None or (o.appended is not None and len(o.appended) == 1), o.appended[0].eq(res.as_('Ok')) if o and o.appended else o is None, er.unchanged))
            return
        p.require('an item that is not valid adds nothing to the output', o is None or o.unchanged)
        e = res.as_('Err')
        if p.holds(e.is_('Omit')):
            p.require('an omitted item leaves no trace', er.unchanged)
        elif p.holds(e.is_('LineErrors')):
            if p.holds(last.z):
                p.require('errors of the last partial item are dropped', er.unchanged)
            else:
                p.require('errors are only dropped for the last partial item', NOT(last.z))
                p.require('errors of an item are appended under its index', extended_by(p, er, lambda b: b.eq(e.as_('LineErrors')), located(idx)))
                n = p.e.seq_len(p.st, er.cur)
                p.require('fail-fast stops at the first failing item', IMP(AND(self.fail_fast(p), p.e.seq_len(p.st, as_vec(p, e.as_('LineErrors'))) > 0), False) if self.strict_ff else NOT(self.fail_fast(p)))
        else:
            p.require('other errors end the validation', False)

    strict_ff = False

    def errors(self, p, L):
        v = loop_vecs(p, L, 'ValLineError')
        if len(v) != 1:
            raise Lost('error vector of the loop')
        return v[0]

    def output(self, p, L):
        v = loop_vecs(p, L, r'Py<')
        if len(v) != 1:
            raise Lost('output vector of the loop')
        return v[0]

    def ret(self, p, r):
        ls = loops(p)
        if not ls:
            raise Lost('no loop')
        L, i = ls[-1]
        evs = p.st.events[i + 1:]
        nx, va = nexts(evs), [ev for ev in evs if self.is_item(ev)]
        ok, out = ok_of(r)
        er = self.errors(p, L)
        if nx and p.holds(p.V(nx[-1].ret).is_('None')):
            n = er.p.e.seq_len(p.st, er.head)
            p.require('success returns all validated items in order', IMP(ok, AND(n == 0, True if not self.appends else out.t == self.output(p, L).head_term)))
            p.require('failure returns all errors', IMP(NOT(ok), AND(n != 0, r.as_('Err').is_('LineErrors'), r.as_('Err').as_('LineErrors').t == er.head_term)))
            return
        p.require('an early return is an error', NOT(ok))
        if va:
            res = p.V(va[-1].ret)
            e = res.as_('Err')
            other = AND(res.is_('Err'), NOT(e.is_('LineErrors', 'Omit')))
            if p.feasible(other):
                p.require('other errors end the validation', IMP(other, r.as_('Err').eq(e)))
                return
            p.require('a validated item only ends the loop through the length limit or fail-fast', self.early(p, res, e))

    def early(self, p, res, e):
        return NOT(AND(res.is_('Err'), e.is_('Omit')))


EXP = ('each item is validated exactly once', 'a valid item is appended', 'errors of an item are appended under its index', 'an omitted item leaves no trace',
       'success returns all validated items in order', 'other errors end the validation')


@contract('C05', RE + 'validate_iter_to_vec', 'validate_iter_to_vec', models=STATE_MODELS, expect=EXP)
class ToVec(Elementwise):
    pass


@contract('C05', RE + 'validate_iter_to_set', 'validate_iter_to_set', models=STATE_MODELS, expect=EXP)
class ToSet(Elementwise):
    is_item = staticmethod(is_add)
    appends = False

    def item_args(self, p, v, item):
        return AND(p.V(v.args[1]).eq(p.arg(1)), p.V(v.args[2]).t == item.t, p.V(v.args[4]).eq(p.arg(6)))

    def fail_fast(self, p):
        return p.arg(8).z

    def iter(self, p, L):
        Elementwise.iter(self, p, L)

    strict_ff = True
    # an Omit after errors were recorded under fail-fast cannot be excluded locally: fail-fast returns before
    def early(self, p, res, e):
        return z3.BoolVal(True)


@contract('C05', RE + 'validate_add', 'validate_add', expect=('the validated item is added to the set', 'a rejected item is not added'))
class Add(Contract):
    def ret(self, p, r):
        va = p.events('*Validator::validate')
        ad = p.events('*build_add')
        p.require('the item is validated exactly once', AND(len(va) == 1, p.V(va[0].args[0]).eq(p.arg(4)), p.V(va[0].args[2]).t == p.arg(2).t))
        res = p.V(va[0].ret)
        if p.holds(res.is_('Err')):
            p.require('a rejected item is not added', AND(len(ad) == 0, r.is_('Err'), r.as_('Err').eq(res.as_('Err'))))
            return
        p.require('the validated item is added to the set', AND(res.is_('Ok'), len(ad) == 1, p.V(ad[0].args[0]).eq(p.arg(1)) if ad else False, p.V(ad[0].args[1]).eq(res.as_('Ok')) if ad else False))
        if ad:
            p.require('the result is ok exactly when the set took the item', r.is_('Ok') == p.V(ad[0].ret).is_('Ok'))


def as_vec(p, v):
    return v.v


@contract('C05', RE + 'no_validator_iter_to_vec', 'no_validator_iter_to_vec')
class NoValidator(Contract):
    def ret(self, p, r):
        co = [ev for ev in p.st.events if ev.name.endswith('collect')]
        p.require('all items are collected in order', AND(len(co) == 1, p.V(co[0].ret).eq(r)))
        sm = co[0].post.get('summary') if co and co[0].post else None
        if not sm:
            raise Lost('the collected iterator')
        for pc, elem, val, events, s2 in sm:
            p2 = P(p.e, s2, p._args, p.k)
            el, v = V(p2, elem), V(p2, val)
            it = el.f(1)
            p.require('an unreadable item is an error', IMP(AND(pc, it.is_('Err')), v.is_('Err')))
            to = [ev for ev in events if ev.name.endswith('to_object')]
            p.require('the output is the item itself', IMP(AND(pc, v.is_('Ok')), AND(it.is_('Ok'), len(to) == 1, p2.V(to[0].args[0]).t == it.as_('Ok').t if to else False)))


@contract('C05', "*validators::dict::ValidateToDict*ConsumeIterator*::consume_iterator", 'dict: consume_iterator', models=STATE_MODELS,
          expect=('key and value are validated once each', 'a valid pair is stored', 'key errors are located under the key', 'value errors are located under the key'))
class Dict(Contract):
    opts = {'budget': 60}

    def vec(self, p, L):
        v = loop_vecs(p, L, 'ValLineError')
        if len(v) != 1:
            raise Lost('error vector of the loop')
        return v[0]

    def iter(self, p, L):
        evs = p.iter_events()
        if len(ls_of(p)) > 1 and ls_of(p)[-1] is p.L:
            return self.inner(p, L)
        nx, va = nexts(evs), [ev for ev in evs if is_validate(ev)]
        it = p.V(nx[0].ret).as_('Some')
        last, item = it.f(1), it.f(2)
        if not p.holds(item.is_('Ok')):
            p.require('an unreadable item ends the validation', False)
            return
        key, value = item.as_('Ok').f(0), item.as_('Ok').f(1)
        set_ = [ev for ev in evs if ev.name.endswith('set_item')]
        me = p.arg(0)
        p.require('key and value are validated once each', AND(len(va) in (1, 2), p.V(va[0].args[0]).eq(me.f('key_validator')), p.V(va[0].args[2]).t == key.t))
        kr = p.V(va[0].ret)
        if len(va) == 1:
            p.require('the value is only skipped when the key is omitted', AND(kr.is_('Err'), kr.as_('Err').is_('Omit'), len(set_) == 0))
            return
        p.require('key and value are validated once each', AND(p.V(va[1].args[0]).eq(me.f('value_validator')), p.V(va[1].args[2]).t == value.t))
        vr = p.V(va[1].ret)
        good = AND(kr.is_('Ok'), vr.is_('Ok'))
        if p.feasible(good):
            p.require('a valid pair is stored', IMP(good, AND(len(set_) == 1, p.V(set_[0].args[1]).eq(kr.as_('Ok')) if set_ else False, p.V(set_[0].args[2]).eq(vr.as_('Ok')) if set_ else False)))
        p.require('nothing but valid pairs is stored', IMP(NOT(good), len(set_) == 0))
        er = self.vec(p, L)
        if p.holds(AND(vr.is_('Err'), vr.as_('Err').is_('LineErrors'))):
            if p.holds(last.z):
                p.require('value errors of the last partial item are dropped', True if p.holds(kr.is_('Err')) else er.unchanged)
            else:
                p.require('value errors are only dropped for the last partial item', NOT(last.z))
                if p.holds(kr.is_('Ok')):
                    p.require('value errors are located under the key', extended_by(p, er, lambda b: b.eq(vr.as_('Err').as_('LineErrors')), located(key)))
        elif p.holds(good):
            p.require('a valid pair adds no error', er.unchanged)
        elif p.holds(AND(kr.is_('Ok'), vr.as_('Err').is_('Omit'))):
            p.require('an omitted value leaves no trace', AND(er.unchanged, len(set_) == 0))
        p.require('other errors end the validation', AND(IMP(kr.is_('Err'), kr.as_('Err').is_('LineErrors', 'Omit')), IMP(vr.is_('Err'), vr.as_('Err').is_('LineErrors', 'Omit'))))

    def inner(self, p, L):
        # the loop over the errors of one key
        evs = p.iter_events()
        wl = [ev for ev in evs if ev.name.endswith('with_outer_location')]
        va = [ev for ev in p.st.events if is_validate(ev)]
        nx = nexts(p.st.events)
        one = p.V(nexts(evs)[0].ret).as_('Some') if nexts(evs) else None
        key = p.V(nx[0].ret).as_('Some').f(2).as_('Ok').f(0)
        er = self.vec(p, L)
        good = len(wl) == 2 and len(er.appended or []) == 1 and one is not None
        p.require('key errors are located under the key', good and AND(p.V(wl[0].args[0]).eq(one), p.V(wl[0].args[1]).eq('[key]'), p.V(wl[1].args[0]).eq(p.V(wl[0].ret)),
                                                                       p.V(wl[1].args[1]).eq(key), er.appended[0].eq(p.V(wl[1].ret))))

    def ret(self, p, r):
        ls = loops(p)
        va = [ev for ev in p.st.events if is_validate(ev)]
        ok, out = ok_of(r)
        if not ls:
            raise Lost('no loop')
        L, i = ls[0]
        evs = p.st.events[i + 1:]
        nx = nexts(evs)
        if nx and p.holds(p.V(nx[0].ret).is_("None")):
            er = self.vec(p, L)
            n = p.e.seq_len(p.st, er.head)
            p.require('success requires that there is no error', IMP(ok, n == 0))
            p.require('recorded errors are all returned', IMP(n != 0, AND(NOT(ok), r.as_('Err').is_('LineErrors'), r.as_('Err').as_('LineErrors').t == er.head_term)))
            return
        p.require('an early return is an error', NOT(ok))


@contract('C05', "*NextCountingIterator*Iterator*::next", 'tuple: NextCountingIterator::next', optional=True)
class Counting(Contract):
    def ret(self, p, r):
        nx = nexts(p.st.events) or p.events('*Iterator::next')
        c0, c1 = p.arg(0).f('count'), p.arg_now(0).f('count')
        p.require('the counter advances by one', c1.z == c0.z + 1)
        p.require('the item carries the count before the call', IMP(r.is_('Some'), r.as_('Some').f(0).z == c0.z))


@contract('C05', TUP + 'TupleValidator::validate_tuple_items', 'tuple: validate_tuple_items', models=STATE_MODELS,
          expect=('each position is validated exactly once', 'a valid item is appended', 'errors of an item are appended under its index', 'an omitted item leaves no trace',
                  'a missing position uses the default or reports missing at its index'))
class TupleItems(Contract):
    opts = {'budget': 60}

    def count(self, p):
        return p.arg_now(7).f('count').z

    def iter(self, p, L, final=False):
        evs = p.iter_events() if p.L else final
        nx = nexts(evs)
        va = [ev for ev in evs if is_validate(ev)]
        dv = [ev for ev in evs if ev.name.endswith('Validator::default_value')]
        out = [ev for ev in evs if ev.name.endswith('push_output_item')]
        p.require('each position takes one item', len(nx) == 2)
        if len(nx) != 2:
            return
        vd, it = p.V(nx[0].ret).as_('Some'), p.V(nx[1].ret)
        er, o = loop_vecs(p, L, 'ValLineError')[0], loop_vecs(p, L, 'Py<')[0]
        if p.holds(it.is_('Some')):
            p.require('each position is validated exactly once', len(va) == 1 and len(dv) == 0 and AND(p.V(va[0].args[0]).eq(vd), p.V(va[0].args[2]).t == it.as_('Some').t))
            if not va:
                return
            res = p.V(va[0].ret)
            if p.holds(res.is_('Ok')):
                p.require('a valid item is appended', len(out) == 1 and AND(p.V(out[0].args[3]).eq(res.as_('Ok')), er.unchanged))
                return
            p.require('an item that is not valid adds nothing to the output', o.unchanged and not out)
            e = res.as_('Err')
            if p.holds(e.is_('LineErrors')):
                def located_here(p2, elem, val, events):
                    wl = [ev for ev in events if ev.name.endswith('with_outer_location')]
                    return len(wl) == 1 and AND(p2.V(wl[0].args[0]).eq(elem), p2.V(wl[0].args[1]).z == self.count(p) - 1, p2.V(wl[0].ret).eq(val))
                p.require('errors of an item are appended under its index', extended_by(p, er, lambda b: b.eq(e.as_('LineErrors')), located_here))
            elif p.holds(e.is_('Omit')):
                p.require('an omitted item leaves no trace', er.unchanged)
            return
        p.require('each position is validated exactly once', len(va) == 0)
        d = p.V(dv[0].ret) if len(dv) == 1 else None
        nm = 'a missing position uses the default or reports missing at its index'
        if d is None:
            p.require(nm, False)
            return
        p.require(nm, AND(p.V(dv[0].args[0]).eq(vd), p.V(dv[0].args[2]).is_('Some'), p.V(dv[0].args[2]).as_('Some').z == self.count(p) - 1))
        if p.holds(AND(d.is_('Ok'), d.as_('Ok').is_('Some'))):
            p.require(nm, o.appended is not None and len(o.appended) == 1 and AND(o.appended[0].eq(d.as_('Ok').as_('Some')), er.unchanged))
        elif p.holds(d.is_('Ok')):
            p.require(nm, o.unchanged and er.appended is not None and len(er.appended) == 1)

    def ret(self, p, r):
        ls = loops(p)
        if not ls:
            raise Lost('no loop')
        L, i = ls[-1]
        evs = p.st.events[i + 1:]
        if nexts(evs) and p.holds(p.V(nexts(evs)[0].ret).is_('None')):
            p.require('success after the last position', r.is_('Ok'))
            return
        if p.holds(r.is_('Ok')):
            er = loop_vecs(p, L, 'ValLineError')[0]
            p.require('an early stop requires fail-fast and an error', AND(p.arg(9).z, p.e.seq_len(p.st, er.cur) != 0))
            self.iter(p, L, evs)
            return
        va = [ev for ev in evs if is_validate(ev)]
        out = [ev for ev in evs if ev.name.endswith('push_output_item') or ev.name.endswith('default_value')]
        if va and not out:
            p.require('other errors end the validation', AND(p.V(va[0].ret).is_('Err'), NOT(p.V(va[0].ret).as_('Err').is_('LineErrors', 'Omit')), r.as_('Err').eq(p.V(va[0].ret).as_('Err'))))


@contract('C05', TUP + 'TupleValidator::validate_tuple_variable', 'tuple: validate_tuple_variable', models=STATE_MODELS,
          expect=('each variadic item is validated once, in order', 'a valid item is appended', 'errors of an item are appended under its index', 'tail items are numbered after the variadic items',
                  'the head validators come first', 'a tuple without variadic item rejects extra items'))
class TupleVariable(Contract):
    opts = {'budget': 100}
    stop = ('*validate_tuple_items',)

    def count(self, p):
        return p.arg_now(5).f('count').z

    def iter(self, p, L):
        evs = p.iter_events()
        nx = nexts(evs)
        va = [ev for ev in evs if is_validate(ev)]
        out = [ev for ev in evs if ev.name.endswith('push_output_item')]
        pop = [ev for ev in evs if ev.name.endswith('pop_front')]
        push = [ev for ev in evs if ev.name.endswith('push_back')]
        nm = 'each variadic item is validated once, in order'
        p.require(nm, len(nx) == 1 and len(va) == 1 and len(pop) == len(push) and len(pop) <= 1)
        if len(va) != 1 or len(nx) != 1:
            return
        item = p.V(nx[0].ret).as_('Some')
        if pop:
            p.require(nm, AND(p.V(push[0].args[1]).t == item.t, p.V(pop[0].ret).is_('Some'), p.V(va[0].args[2]).t == p.V(pop[0].ret).as_('Some').t))
        else:
            p.require(nm, p.V(va[0].args[2]).t == item.t)
        res = p.V(va[0].ret)
        er = loop_vecs(p, L, 'ValLineError')[0]
        if p.holds(res.is_('Ok')):
            p.require('a valid item is appended', len(out) == 1 and AND(p.V(out[0].args[3]).eq(res.as_('Ok')), er.unchanged))
            return
        p.require('an item that is not valid adds nothing to the output', len(out) == 0)
        e = res.as_('Err')
        if p.holds(e.is_('LineErrors')):
            def located_here(p2, elem, val, events):
                wl = [ev for ev in events if ev.name.endswith('with_outer_location')]
                return len(wl) == 1 and AND(p2.V(wl[0].args[0]).eq(elem), p2.V(wl[0].args[1]).z == self.count(p) - 1, p2.V(wl[0].ret).eq(val))
            p.require('errors of an item are appended under its index', extended_by(p, er, lambda b: b.eq(e.as_('LineErrors')), located_here))
        elif p.holds(e.is_('Omit')):
            p.require('an omitted item leaves no trace', er.unchanged)
        else:
            p.require('other errors end the validation', False)

    def ret(self, p, r):
        me = p.arg(0)
        var = me.f('variadic_item_index')
        calls = p.events('*validate_tuple_items')
        nx = nexts(p.st.events)
        vs = me.f('validators')
        for c in calls:
            p.require('fail-fast is passed on', p.V(c.args[8]).z == me.f('fail_fast').z if len(c.args) == 9 else p.V(c.args[-1]).z == me.f('fail_fast').z)
        if p.holds(var.is_('Some')):
            i = var.as_('Some').z
            p.require('the head validators come first', AND(len(calls) >= 1, p.V(calls[0].args[6]).t == V(p, p.e.subslice(p.st, vs.v, vs.ty, z3.IntVal(0), i)).t if calls else False))
            if len(calls) == 2:
                c = calls[1]
                p.require('tail items are numbered after the variadic items', p.V(c.args[7]).f('count').z == self.count(p) - 1)
                p.require('success requires the tail', IMP(r.is_('Ok'), p.V(c.ret).is_('Ok')))
        elif p.holds(var.is_('None')):
            p.require('the head validators come first', AND(len(calls) == 1, p.V(calls[0].args[6]).eq(vs) if calls else False))
            if calls and nx:
                p.require('a tuple without variadic item rejects extra items', r.is_('Ok') == AND(p.V(calls[0].ret).is_('Ok'), p.V(nx[-1].ret).is_('None')))
