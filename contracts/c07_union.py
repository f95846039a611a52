"""C07: union validation picks the documented member and reports all failures otherwise"""
from contracts.common import *

DUMP = {'stop': ['*with_outer_location', '*SchemaDict*', '_pydantic_core::build_tools::*', '*py_err_string*', '*CustomError*', '*MaybeErrors*::push', '*MaybeErrors*::into_val_error', '*MaybeErrors*::new',
                 '*UnionValidator::validate_smart', '*UnionValidator::validate_left_to_right', '*validation_state::ValidationState*::add_fields_set']}
ASSUMPTIONS = ['a member validator is arbitrary: any result, any effect on the state (exactness, fields set count)', 'SmallVec and Vec behave as sequences']
UN = '_pydantic_core::validators::union::'


def is_validate(ev):
    return ev.name.endswith('Validator::validate')


def nexts(evs):
    return [ev for ev in evs if ev.name == '<next>']


def state(p):
    return p.arg(3), p.arg_now(3)


def better(p, cur, new_ex, new_fs):
    """cur: view of the current best (value, exactness, fields set); is the new one better?"""
    cex, cfs = cur.f(1), cur.f(2)
    both = AND(cfs.is_('Some'), new_fs.is_('Some'))
    a, b = cfs.as_('Some').z, new_fs.as_('Some').z
    return z3.If(AND(both, a != b), a < b, exactness_rank(cex) < exactness_rank(new_ex))


@contract('C07', UN + 'UnionValidator::validate_smart', 'validate_smart', models=STATE_MODELS,
          expect=('every member is tried once with a fresh exactness', 'a better match replaces the best one', 'a match that is not better is dropped', 'failures are recorded while nothing matched',
                  'an exact match without fields is returned at once', 'the best match is returned', 'no match returns the collected errors', 'the state is restored when the union does not decide'))
class Smart(Contract):
    opts = {'budget': 100}

    def best(self, p, L):
        v = loop_vars(p, L, r'^core::option::Option<\(.*Exactness')
        if len(v) != 1:
            raise Lost('best match variable')
        return v[0]

    def one(self, p, evs):
        nx, va = nexts(evs), [ev for ev in evs if is_validate(ev)]
        p.require('every member is tried once with a fresh exactness', len(nx) == 1 and len(va) == 1)
        if len(nx) != 1 or len(va) != 1:
            return None, None
        it = p.V(nx[0].ret).as_('Some')
        v = va[0]
        s0 = p.V(v.args[3])
        p.require('every member is tried once with a fresh exactness', AND(s0.f('exactness').is_('Some'), s0.f('exactness').as_('Some').is_('Exact'), s0.f('fields_set_count').is_('None'), p.V(v.args[0]).eq(it.f(0)), p.V(v.args[2]).t == p.arg(2).t))
        return it, v

    def iter(self, p, L):
        evs = p.iter_events()
        it, v = self.one(p, evs)
        if v is None:
            return
        res = p.V(v.ret)
        b = self.best(p, L)
        pu = [ev for ev in evs if ev.name.endswith('::push')]
        if p.holds(res.is_('Ok')):
            s = p.arg_now(3)
            p.require('a success is no failure', len(pu) == 0)
            ex, fs = s.f('exactness'), s.f('fields_set_count')
            imm = AND(ex.is_('Some'), ex.as_('Some').is_('Exact'), fs.is_('None'))
            p.require('an exact match without fields is returned at once', NOT(imm))
            exv = z3.If(ex.is_('Some'), exactness_rank(ex.as_('Some')), 0)
            cur = b.head.as_('Some')
            cfs = cur.f(2)
            both = AND(cfs.is_('Some'), fs.is_('Some'))
            x, y = cfs.as_('Some').z, fs.as_('Some').z
            bet = OR(b.head.is_('None'), z3.If(AND(both, x != y), x < y, exactness_rank(cur.f(1)) < exv))
            new = b.cur.as_('Some')
            if p.feasible(bet):
                p.require('a better match replaces the best one', IMP(bet, AND(b.cur.is_('Some'), new.f(0).eq(res.as_('Ok')), exactness_rank(new.f(1)) == exv, opt_eq(new.f(2), fs))))
            if p.feasible(NOT(bet)):
                p.require('a match that is not better is dropped', IMP(NOT(bet), AND(b.cur.is_('Some'), new.f(0).eq(cur.f(0)), exactness_rank(new.f(1)) == exactness_rank(cur.f(1)), opt_eq(new.f(2), cur.f(2)))))
            return
        p.require('only line errors let the search go on', AND(res.is_('Err'), res.as_('Err').is_('LineErrors')))
        p.require('a failure keeps the best match', AND(b.cur.is_('Some') == b.head.is_('Some'), IMP(b.head.is_('Some'), AND(b.cur.as_('Some').f(0).eq(b.head.as_('Some').f(0)),
                  exactness_rank(b.cur.as_('Some').f(1)) == exactness_rank(b.head.as_('Some').f(1)), opt_eq(b.cur.as_('Some').f(2), b.head.as_('Some').f(2))))))
        if p.feasible(b.head.is_('None')):
            p.require('failures are recorded while nothing matched', IMP(b.head.is_('None'), AND(len(pu) == 1, *([p.V(pu[0].args[1]).eq(it.f(0)), p.V(pu[0].args[3]).t == res.as_('Err').as_('LineErrors').t] if pu else []))))
            if pu:
                lab = it.f(1)
                p.require('a failure is recorded with the label of its member', AND(p.V(pu[0].args[2]).is_('Some') == lab.is_('Some'), IMP(lab.is_('Some'), p.V(pu[0].args[2]).as_('Some').eq(lab.as_('Some')))))

    def ret(self, p, r):
        ls = loops(p)
        if not ls:
            raise Lost('no loop')
        L, i = ls[-1]
        evs = p.st.events[i + 1:]
        nx, va = nexts(evs), [ev for ev in evs if is_validate(ev)]
        s0, s1 = state(p)
        b = self.best(p, L)
        iv = [ev for ev in evs if ev.name.endswith('into_val_error')]
        p.require('no match is known before the first member', b.entry.is_('None'))
        if va:
            res = p.V(va[-1].ret)
            p.require('an early result is the one of the last member tried', AND(r.is_('Ok') == res.is_('Ok'), IMP(r.is_('Ok'), r.as_('Ok').eq(res.as_('Ok'))), IMP(r.is_('Err'), r.as_('Err').eq(res.as_('Err')))))
            p.require('line errors of one member never end the search', NOT(AND(res.is_('Err'), res.as_('Err').is_('LineErrors'))))
            pv = va[-1].post
            if p.holds(r.is_('Ok')):
                p.require('an exact match without fields is returned at once', True)
            p.require('the state is restored when the union does not decide', AND(opt_eq(s1.f('exactness'), s0.f('exactness')), opt_eq(s1.f('fields_set_count'), s0.f('fields_set_count'))))
            return
        p.require('all members were tried', AND(len(nx) == 1, p.V(nx[0].ret).is_('None') if nx else False))
        best = b.head
        if p.feasible(best.is_('Some')):
            bm = best.as_('Some')
            p.require('the best match is returned', IMP(best.is_('Some'), AND(r.is_('Ok'), r.as_('Ok').eq(bm.f(0)))))
            fl = [ev for ev in evs if ev.name.endswith('floor_exactness')]
            af = [ev for ev in evs if ev.name.endswith('add_fields_set')]
            p.require('the exactness of the best match lowers the one of the caller', IMP(best.is_('Some'), AND(len(fl) == 1, s1.f('exactness').is_('Some') == s0.f('exactness').is_('Some'),
                      IMP(s0.f('exactness').is_('Some'), exactness_rank(s1.f('exactness').as_('Some')) == zmin(exactness_rank(s0.f('exactness').as_('Some')), exactness_rank(bm.f(1)))))))
            p.require('the fields of the best match are counted', IMP(AND(best.is_('Some'), bm.f(2).is_('Some')), AND(len(af) == 1, p.V(af[0].args[1]).z == bm.f(2).as_('Some').z if af else False)))
        if p.feasible(best.is_('None')):
            p.require('no match returns the collected errors', IMP(best.is_('None'), AND(r.is_('Err'), len(iv) == 1, r.as_('Err').eq(p.V(iv[0].ret)) if iv else False)))
            p.require('a failed union restores the state', IMP(best.is_('None'), AND(opt_eq(s1.f('exactness'), s0.f('exactness')), opt_eq(s1.f('fields_set_count'), s0.f('fields_set_count')))))


def zmin(a, b):
    return z3.If(a <= b, a, b)


@contract('C07', UN + 'UnionValidator::validate_left_to_right', 'validate_left_to_right', models=STATE_MODELS,
          expect=('members are tried in order, once each', 'the first result that is no line error is returned', 'a failed attempt is recorded', 'a failed attempt leaves no effect on the next one',
                  'if every member fails all errors are returned'))
class LeftToRight(Contract):
    def iter(self, p, L):
        evs = p.iter_events()
        nx, va = nexts(evs), [ev for ev in evs if is_validate(ev)]
        ok = len(nx) == 1 and len(va) == 1
        p.require('members are tried in order, once each', ok)
        if not ok:
            return
        it = p.V(nx[0].ret).as_('Some')
        v = va[0]
        res = p.V(v.ret)
        p.require('members are tried in order, once each', AND(p.V(v.args[0]).eq(it.f(0)), p.V(v.args[2]).t == p.arg(2).t))
        p.require('the first result that is no line error is returned', AND(res.is_('Err'), res.as_('Err').is_('LineErrors')))
        pu = [ev for ev in evs if ev.name.endswith('::push')]
        lab = it.f(1)
        p.require('a failed attempt is recorded', AND(len(pu) == 1, *([p.V(pu[0].args[1]).eq(it.f(0)), p.V(pu[0].args[3]).t == res.as_('Err').as_('LineErrors').t,
                  p.V(pu[0].args[2]).is_('Some') == lab.is_('Some'), IMP(lab.is_('Some'), p.V(pu[0].args[2]).as_('Some').eq(lab.as_('Some')))] if pu else [])))
        s0, s1 = state(p)
        p.require('a failed attempt leaves no effect on the next one', AND(opt_eq(s1.f('exactness'), s0.f('exactness')), opt_eq(s1.f('fields_set_count'), s0.f('fields_set_count'))))

    def ret(self, p, r):
        ls = loops(p)
        if not ls:
            raise Lost('no loop')
        evs = p.st.events[ls[-1][1] + 1:]
        va = [ev for ev in evs if is_validate(ev)]
        if va:
            res = p.V(va[-1].ret)
            p.require('the first result that is no line error is returned', AND(r.is_('Ok') == res.is_('Ok'), IMP(r.is_('Ok'), r.as_('Ok').eq(res.as_('Ok'))), IMP(r.is_('Err'), r.as_('Err').eq(res.as_('Err'))),
                      NOT(AND(res.is_('Err'), res.as_('Err').is_('LineErrors')))))
            return
        nx = nexts(evs)
        iv = [ev for ev in evs if ev.name.endswith('into_val_error')]
        p.require('if every member fails all errors are returned', AND(len(nx) == 1, p.V(nx[0].ret).is_('None') if nx else False, r.is_('Err'), len(iv) == 1, r.as_('Err').eq(p.V(iv[0].ret)) if iv else False,
                  p.V(iv[0].args[1]).t == p.arg(2).t if iv else False))


@contract('C07', '<' + UN + 'UnionValidator as _pydantic_core::validators::Validator>::validate', 'mode dispatch', expect=('the mode decides',))
class Dispatch(Contract):
    def ret(self, p, r):
        ss, ll = p.events('*validate_smart'), p.events('*validate_left_to_right')
        m = p.arg(0).f('mode')
        p.require('the mode decides', AND(m.is_('Smart') == (len(ss) == 1), m.is_('LeftToRight') == (len(ll) == 1), len(ss) + len(ll) == 1))
        for ev in ss + ll:
            p.require('the union itself validates the input', AND(p.V(ev.args[0]).eq(p.arg(0)), p.V(ev.args[2]).t == p.arg(2).t, r.eq(p.V(ev.ret))))


@contract('C07', UN + "MaybeErrors::<'a>::new", 'MaybeErrors::new')
class MNew(Contract):
    def ret(self, p, r):
        c = p.arg(0)
        p.require('a custom error replaces the collected ones exactly when declared', r.is_('Custom') == c.is_('Some'))
        p.require('the custom error is the declared one', IMP(c.is_('Some'), r.as_('Custom').eq(c.as_('Some'))))


@contract('C07', UN + "MaybeErrors::<'a>::push", 'MaybeErrors::push', expect=('a failure is appended with its member and label',))
class MPush(Contract):
    def ret(self, p, r):
        m0, m1 = p.arg(0), p.arg_now(0)
        pu = p.events('*SmallVec*push')
        p.require('the kind is kept', m0.is_('Custom') == m1.is_('Custom'))
        if p.holds(m0.is_('Errors')):
            ok = len(pu) == 1
            p.require('a failure is appended with its member and label', ok)
            if ok:
                x = p.V(pu[0].args[1])
                p.require('a failure is appended with its member and label', AND(x.f('choice').eq(p.arg(1)), x.f('label').eq(p.arg(2)), x.f('line_errors').t == p.arg(3).t))


@contract('C07', UN + "MaybeErrors::<'a>::into_val_error", 'MaybeErrors::into_val_error', expect=('every error of every member is labelled', 'a custom error replaces all'))
class MInto(Contract):
    def ret(self, p, r):
        m = p.arg(0)
        cu = p.events('*as_val_error')
        if p.holds(m.is_('Custom')):
            p.require('a custom error replaces all', AND(len(cu) == 1, *([p.V(cu[0].args[0]).eq(m.as_('Custom')), r.eq(p.V(cu[0].ret))] if cu else [])))
            return
        p.require('the result is a list of line errors', r.is_('LineErrors'))
        fm = p.events('*flat_map')
        co = p.events('*collect')
        if not fm or not co:
            raise Lost('flat_map/collect of the recorded failures')
        p.require('every error of every member is labelled', AND(len(fm) == 1, len(co) == 1, r.as_('LineErrors').eq(p.V(co[0].ret)) if co else False))


@contract('C07', UN + "MaybeErrors::<'a>::into_val_error::{closure#0}::{closure#0}", 'label of one error', expect=('the location is prefixed with the label or the name of the member',))
class MLabel(Contract):
    def ret(self, p, r):
        wl = p.events('*with_outer_location')
        gn = p.events('*get_name')
        p.require('the location is prefixed with the label or the name of the member', len(wl) == 1 and AND(p.V(wl[0].args[0]).t == p.arg(1).t, r.eq(p.V(wl[0].ret))))
