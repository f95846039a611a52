"""C15: include and exclude filters select exactly the requested parts"""
from contracts.common import *
from contracts.fields import nexts, named

DUMP = {'stop': ['*filter::merge_all_value', '*filter::check_contains', '*filter::is_ellipsis_like', '*filter::as_dict', '*filter::merge_dicts', '*filter::map_negative_index', '*filter::map_negative_indices', '*FilterLogic::filter', '*FilterLogic::explicit_include',
                 '*FilterLogic::default_filter', '*build_set_ints', '*build_set_hashes', '*SchemaDict*', '*index_filter', '*key_filter', '*infer_to_python', '*infer_serialize', '*on_fallback_py', '*on_fallback_ser', '*SerRecursionState*', '*RecursionGuard*', '*infer_json_key_known', '*infer_json_key']}
ASSUMPTIONS = ['Python sets, dicts and __contains__ answer membership', 'a key of a dict or mapping with a schema filter is identified by its hash (see known_findings.txt for the one integer where it is not)',
               'the nested serializers are arbitrary']
F = '_pydantic_core::serializers::filter::'


def strs(p, v):
    """the literal string behind a view, or None"""
    return v


def is_all(p, v):
    return v.eq('__all__')


def only(evs, what):
    if len(evs) != 1:
        raise Lost(what)
    return evs[0]


class Side:
    """what one call-time filter (include or exclude) says about the key on this path"""

    def __init__(self, p, opt, key, name):
        self.kind, self.hit, self.nested = None, None, None
        if p.holds(opt.is_('None')):
            self.kind = 'none'
            return
        if not p.holds(opt.is_('Some')):
            self.kind = 'unread'
            return
        t = opt.as_('Some').t
        same = lambda ev, i=0: p.holds(p.V(ev.args[i]).t == t)
        for ev in p.events('*::is_none'):
            if same(ev) and p.holds(p.V(ev.ret).z):
                self.kind = 'none'
                return
        for ev in p.events('*merge_all_value'):
            if same(ev):
                p.require('the key is looked up in the filter', p.V(ev.args[1]).t == key.t)
                r = p.V(ev.ret)
                if p.holds(r.is_('Err')):
                    self.kind, self.err = 'err', r.as_('Err')
                    return
                v = r.as_('Ok')
                if p.holds(v.is_('None')):
                    self.kind, self.hit = 'dict', False
                    return
                el = [x for x in p.events('*is_ellipsis_like') if p.holds(p.V(x.args[0]).t == v.as_('Some').t)]
                if not el:
                    raise Lost('ellipsis test of the ' + name)
                self.kind, self.hit, self.nested = 'dict', True, v.as_('Some')
                self.ell = p.V(el[0].ret).z
                return
        cs = [ev for ev in p.events('*PySetMethods::contains') if same(ev)]
        if cs:
            self.kind = 'set'
            hit = []
            for ev in cs:
                r = p.V(ev.ret)
                p.require('the key or __all__ is looked up in the filter', OR(p.V(ev.args[1]).t == key.t, is_all(p, p.V(ev.args[1]))))
                if p.holds(r.is_('Err')):
                    self.kind, self.err = 'err', r.as_('Err')
                    return
                hit.append(r.as_('Ok').z)
            self.hit, self.ell = OR(*hit), True
            if p.feasible(NOT(self.hit)):
                p.require('the key or __all__ is looked up in the filter', IMP(NOT(self.hit), AND(OR(*[p.V(ev.args[1]).t == key.t for ev in cs]), OR(*[is_all(p, p.V(ev.args[1])) for ev in cs]))))
            return
        cs = [ev for ev in p.events('*check_contains') if same(ev)]
        if cs:
            p.require('the key is looked up in the filter', p.V(cs[0].args[1]).t == key.t)
            r = p.V(cs[0].ret)
            if p.holds(r.is_('Err')):
                self.kind, self.err = 'err', r.as_('Err')
            elif p.holds(r.as_('Ok').is_('None')):
                self.kind = 'invalid'
            else:
                self.kind, self.hit, self.ell = 'set', r.as_('Ok').as_('Some').z, True
            return
        self.kind = 'unread'


@contract('C15', F + 'FilterLogic::filter', 'filter', expect=('an excluded item is dropped', 'an included item is kept, with the nested filters', 'an item that is not included is dropped unless the schema includes it', 'the filter of the schema decides otherwise',
                                                              'a filter that is no set or dict is rejected'))
class Filter(Contract):
    def ret(self, p, r):
        key, ik = p.arg(1), p.arg(2)
        ex = Side(p, p.arg(4), key, 'exclude')
        inc = Side(p, p.arg(3), key, 'include')
        for s in (ex, inc):
            if s.kind == 'err':
                p.require('an error of the filter is raised', AND(r.is_('Err'), r.as_('Err').eq(s.err)))
                return
            if s.kind == 'invalid':
                p.require('a filter that is no set or dict is rejected', r.is_('Err'))
                return
        if not p.holds(r.is_('Ok')):
            p.require('only a bad filter is an error', NOT(r.is_('Err')))
            return
        o = r.as_('Ok')
        if ex.kind == 'unread':
            p.require('the exclude filter is consulted', False)
            return
        E = AND(ex.hit, ex.ell) if ex.hit is not None and ex.hit is not False else z3.BoolVal(False)
        if p.feasible(E):
            p.require('an excluded item is dropped', IMP(E, o.is_('None')))
        if not p.feasible(NOT(E)):
            return
        if inc.kind == 'unread':
            p.require('the include filter is consulted', False)
            return

        def nested(side, v, cond):
            if side.nested is None:
                return IMP(cond, v.is_('None'))
            return IMP(cond, z3.If(side.ell, v.is_('None'), AND(v.is_('Some'), v.as_('Some').t == side.nested.t)))
        kept = o.as_('Some')
        hit = inc.hit if inc.hit is not None else False
        I = AND(NOT(E), hit)
        if inc.kind != 'none' and p.feasible(I):
            p.require('an included item is kept, with the nested filters', AND(IMP(I, o.is_('Some')), nested(inc, kept.f(0), I), nested(ex, kept.f(1), I)))
        rest = AND(NOT(E), NOT(hit))
        if not p.feasible(rest):
            return
        if inc.kind != 'none':
            ei = p.events('*::explicit_include')
            p.require('the schema is asked', len(ei) == 1)
            if not ei:
                return
            x = p.V(ei[0].ret).z
            p.require('the schema is asked for this item', p.V(ei[0].args[1]).t == ik.t)
            p.require('an item that is not included is dropped unless the schema includes it', IMP(AND(rest, NOT(x)), o.is_('None')))
            rest = AND(rest, x)
            if not p.feasible(rest):
                return
        df = p.events('*::default_filter')
        p.require('the filter of the schema decides otherwise', len(df) == 1)
        if df:
            d = p.V(df[0].ret).z
            p.require('the filter of the schema decides otherwise', IMP(rest, AND(p.V(df[0].args[1]).t == ik.t, d == o.is_('Some'))))
            p.require('a kept item gets the nested filters', AND(IMP(AND(rest, o.is_('Some')), kept.f(0).is_('None')), nested(ex, kept.f(1), AND(rest, o.is_('Some')))))


def member(p, opt, val):
    """the membership queries of val in the set of this Option field"""
    out = []
    for ev in p.events('*HashSet*::contains'):
        if p.holds(p.V(ev.args[0]).t == opt.as_('Some').t):
            p.require('the item itself is looked up', p.V(ev.args[1]).t == val.t)
            out.append(p.V(ev.ret).z)
    return out


@contract('C15', '<' + F + 'SchemaFilter<T> as ' + F + 'FilterLogic<T>>::explicit_include', 'SchemaFilter::explicit_include', expect=('explicitly included means listed in the include of the schema',))
class Explicit(Contract):
    def ret(self, p, r):
        i = p.arg(0).f('include')
        m = member(p, i, p.arg(1))
        p.require('explicitly included means listed in the include of the schema', z3.If(i.is_('Some'), r.z == m[0] if m else False, NOT(r.z)))


@contract('C15', '<' + F + 'SchemaFilter<T> as ' + F + 'FilterLogic<T>>::default_filter', 'SchemaFilter::default_filter', expect=('the schema keeps what it includes and does not exclude',))
class Default(Contract):
    def ret(self, p, r):
        i, e = p.arg(0).f('include'), p.arg(0).f('exclude')
        mi, me = member(p, i, p.arg(1)), member(p, e, p.arg(1))
        if not mi and not me:
            p.require('the schema keeps what it includes and does not exclude', AND(i.is_('None'), e.is_('None'), r.z))
            return
        # kept needs both answers, dropped needs one
        p.require('the schema keeps what it includes and does not exclude', IMP(r.z, AND(IMP(i.is_('Some'), mi[0] if mi else False), IMP(e.is_('Some'), NOT(me[0]) if me else False))))
        p.require('the schema keeps what it includes and does not exclude', IMP(NOT(r.z), OR(AND(i.is_('Some'), NOT(mi[0])) if mi else False, AND(e.is_('Some'), me[0]) if me else False)))


@contract('C15', '<' + F + 'AnyFilter as ' + F + 'FilterLogic<T>>::explicit_include', 'AnyFilter::explicit_include', expect=('without schema nothing is included explicitly',))
class AnyE(Contract):
    def ret(self, p, r):
        p.require('without schema nothing is included explicitly', NOT(r.z))


@contract('C15', '<' + F + 'AnyFilter as ' + F + 'FilterLogic<T>>::default_filter', 'AnyFilter::default_filter', expect=('without schema everything is kept',))
class AnyD(Contract):
    def ret(self, p, r):
        p.require('without schema everything is kept', r.z)


@contract('C15', F + 'is_ellipsis_like', 'is_ellipsis_like', expect=('the whole item is meant by ... and True only',))
class Ell(Contract):
    def ret(self, p, r):
        it = p.events('*PyBoolMethods::is_true')
        isv = [ev for ev in p.st.events if ev.name.endswith('::is')]
        if not isv:
            raise Lost('the ellipsis test')
        e = p.V(isv[0].ret).z
        p.require('the whole item is meant by ... and True only', r.z == OR(e, p.V(it[0].ret).z if it else False))
        for ev in it:
            p.require('the whole item is meant by ... and True only', p.V(ev.args[0]).t == p.arg(0).t)


@contract('C15', F + 'merge_all_value', 'merge_all_value', expect=('without entry for the key the __all__ entry counts', 'without __all__ entry the entry of the key counts', 'nested filters of the key and of __all__ are merged', 'a filter for the whole item is not merged'))
class MergeAll(Contract):
    def ret(self, p, r):
        g = p.events('*::get_item')
        gi = [ev for ev in g if p.holds(p.V(ev.args[1]).t == p.arg(1).t)]
        ga = [ev for ev in g if p.holds(is_all(p, p.V(ev.args[1])))]
        for ev in g:
            if p.holds(p.V(ev.ret).is_('Err')):
                p.require('a failing lookup is raised', r.is_('Err'))
                return
        if len(gi) != 1 or len(ga) != 1:
            p.require('the key and __all__ are looked up', len(gi) >= 1 and len(ga) >= 1)
            raise Lost('the lookups')
        for ev in g:
            p.require('the lookups are in the filter', p.V(ev.args[0]).t == p.arg(0).t)
        i, a = p.V(gi[0].ret).as_('Ok'), p.V(ga[0].ret).as_('Ok')
        md = p.events('*filter::merge_dicts')
        if p.holds(AND(i.is_('None'), a.is_('None'))):
            p.require('without entries nothing is said', AND(r.is_('Ok'), r.as_('Ok').is_('None')))
        elif p.holds(AND(i.is_('None'), a.is_('Some'))):
            p.require('without entry for the key the __all__ entry counts', AND(r.is_('Ok'), r.as_('Ok').is_('Some'), r.as_('Ok').as_('Some').t == a.as_('Some').t))
        elif p.holds(AND(i.is_('Some'), a.is_('None'))):
            p.require('without __all__ entry the entry of the key counts', AND(r.is_('Ok'), r.as_('Ok').is_('Some'), r.as_('Ok').as_('Some').t == i.as_('Some').t))
        elif p.holds(AND(i.is_('Some'), a.is_('Some'))):
            el = p.events('*is_ellipsis_like')
            ee = [p.V(x.ret).z for x in el if p.holds(OR(p.V(x.args[0]).t == i.as_('Some').t, p.V(x.args[0]).t == a.as_('Some').t))]
            whole = OR(*ee) if ee else z3.BoolVal(False)
            if p.feasible(whole):
                p.require('a filter for the whole item is not merged', IMP(whole, AND(r.is_('Ok'), r.as_('Ok').is_('Some'), r.as_('Ok').as_('Some').t == i.as_('Some').t)))
            if p.feasible(NOT(whole)):
                p.require('both entries are tested', len(ee) == 2)
                ad = p.events('*filter::as_dict')
                if len(ad) == 1 and p.holds(p.V(ad[0].ret).is_('Err')) or md and p.holds(p.V(md[0].ret).is_('Err')):
                    p.require('a bad nested filter is an error', r.is_('Err'))
                    return
                p.require('nested filters of the key and of __all__ are merged', len(md) == 1)
                if md:
                    ok = AND(p.V(md[0].args[1]).t == a.as_('Some').t, r.is_('Ok'), r.as_('Ok').is_('Some'), r.as_('Ok').as_('Some').t == p.V(md[0].ret).as_('Ok').t)
                    src = p.V(md[0].args[0]).t
                    if ad:
                        ok = AND(ok, p.V(ad[0].args[0]).t == i.as_('Some').t, src == p.V(ad[0].ret).as_('Ok').t)
                    p.require('nested filters of the key and of __all__ are merged', ok)
        else:
            raise Lost('the case')


@contract('C15', F + 'map_negative_index', 'map_negative_index', expect=('a negative index counts from the end', 'anything else is unchanged', 'a negative index without length is an error'))
class Neg(Contract):
    def ret(self, p, r):
        lt = [ev for ev in p.st.events if ev.name.endswith('::lt')]
        v, n = p.arg(0), p.arg(1)
        if len(lt) != 1 or not p.holds(p.V(lt[0].args[0]).t == v.t):
            raise Lost('the sign test')
        p.require('the sign is tested', p.V(lt[0].args[1]).z == 0)
        l = p.V(lt[0].ret)
        neg = AND(l.is_('Ok'), l.as_('Ok').z)
        ad = [ev for ev in p.st.events if ev.name.endswith('::add')]
        if p.feasible(NOT(neg)):
            p.require('anything else is unchanged', IMP(NOT(neg), AND(r.is_('Ok'), r.as_('Ok').t == v.t)))
        if p.feasible(AND(neg, n.is_('None'))):
            p.require('a negative index without length is an error', IMP(AND(neg, n.is_('None')), r.is_('Err')))
        c = AND(neg, n.is_('Some'))
        if p.feasible(c):
            if not ad:
                mo = p.events('*call_method1')
                if mo:
                    p.require('a negative index counts from the end', False)
                raise Lost('the sum')
            p.require('a negative index counts from the end', IMP(c, AND(len(ad) == 1, p.V(ad[0].args[0]).t == v.t, p.V(ad[0].args[1]).z == n.as_('Some').z, r.eq(p.V(ad[0].ret)))))


def ok_err(p, evs, r, what):
    """an early return out of a loop is the error of a callee"""
    bad = [p.V(ev.ret) for ev in evs if ev.ret is not None and 'Result' in p.e.types[p.V(ev.ret).ty].get('s', '')] if False else []
    p.require(what, r.is_('Err'))


def in_loop(p):
    """events of the iteration the path left the loop in (None if it never entered a loop), and whether the loop was exhausted"""
    ls = loops(p)
    if not ls:
        return None, None
    evs = p.st.events[ls[-1][1] + 1:]
    nx = nexts(evs)
    return evs, bool(nx) and p.holds(p.V(nx[0].ret).is_('None'))


@contract('C15', F + 'map_negative_indices', 'map_negative_indices', expect=('every key of a mapping is mapped, with its entry', 'every item of a set is mapped', 'the result is the mapped filter', 'another filter is unchanged'))
class NegAll(Contract):
    def one(self, p, evs):
        nx, mi = nexts(evs), named(evs, 'map_negative_index')
        if len(nx) != 1:
            raise Lost('the items')
        it = p.V(nx[0].ret).as_('Some')
        si = named(evs, 'set_item')
        dic = 'tuple' in str(p.e.types[p.e.strip_refs(it.ty)].get('k'))
        key = it.f(0) if dic else it
        what = 'every key of a mapping is mapped, with its entry' if dic else 'every item of a set is mapped'
        p.require(what, len(mi) == 1)
        if not mi:
            return
        p.require(what, AND(p.V(mi[0].args[0]).t == key.t, p.V(mi[0].args[1]).eq(p.arg(1))))
        return dic, it, mi[0], si, what

    def iter(self, p, L):
        x = self.one(p, p.iter_events())
        if x is None:
            return
        dic, it, mi, si, what = x
        m = p.V(mi.ret)
        if dic:
            new = p.events('*PyDict::new')
            p.require(what, AND(m.is_('Ok'), len(si) == 1, *([p.V(si[0].args[0]).t == p.V(new[0].ret).t, p.V(si[0].args[1]).t == m.as_('Ok').t, p.V(si[0].args[2]).t == it.f(1).t] if si else [])))
        else:
            lv = [v for v in loop_vecs(p, p.L, 'Py|Bound')]
            if len(lv) != 1:
                raise Lost('the mapped items')
            p.require(what, AND(m.is_('Ok'), lv[0].starts_empty, lv[0].appended is not None and len(lv[0].appended) == 1 and p.holds(lv[0].appended[0].t == m.as_('Ok').t)))

    def ret(self, p, r):
        evs, done = in_loop(p)
        if evs is None:
            p.require('another filter is unchanged', AND(r.is_('Ok'), r.as_('Ok').t == p.arg(0).t))
            return
        if not done:
            p.require('an early return is an error', r.is_('Err'))
            return
        nd, ns = p.events('*PyDict::new'), p.events('*PySet::new')
        if len(nd) + len(ns) != 1:
            raise Lost('the new filter')
        if nd:
            p.require('the result is the mapped filter', AND(r.is_('Ok'), r.as_('Ok').t == p.V(nd[0].ret).t))
        else:
            n = p.V(ns[0].ret)
            lv = loop_vecs(p, loops(p)[-1][0], 'Py|Bound')
            p.require('the result is the mapped filter', AND(len(lv) == 1 and p.holds(p.V(ns[0].args[1]).t == lv[0].head_term), IMP(n.is_('Ok'), AND(r.is_('Ok'), r.as_('Ok').t == n.as_('Ok').t))))


@contract('C15', F + 'as_dict', 'as_dict', expect=('a mapping is copied', 'every item of a set means the whole item', 'anything else is an error'))
class AsDict(Contract):
    def iter(self, p, L):
        evs = p.iter_events()
        nx, si, el = nexts(evs), named(evs, 'set_item'), named(evs, 'Ellipsis')
        new = p.events('*PyDict::new')
        if len(nx) != 1 or len(new) != 1:
            raise Lost('the items')
        it = p.V(nx[0].ret).as_('Some')
        el = [p.V(si[0].args[2]).t == p.V(x.ret).t for x in p.events('*::Ellipsis')] if si else []
        p.require('every item of a set means the whole item', AND(len(si) == 1, *([p.V(si[0].args[0]).t == p.V(new[0].ret).t, p.V(si[0].args[1]).t == it.t, OR(*el)] if si else [])))

    def ret(self, p, r):
        evs, done = in_loop(p)
        cp = p.events('*PyDictMethods::copy')
        if evs is not None:
            new = p.events('*PyDict::new')
            p.require('every item of a set means the whole item', AND(r.is_('Ok'), r.as_('Ok').t == p.V(new[0].ret).t) if done else r.is_('Err'))
        elif cp:
            p.require('a mapping is copied', AND(p.V(cp[0].args[0]).t == p.arg(0).t, r.eq(p.V(cp[0].ret))))
        else:
            p.require('anything else is an error', r.is_('Err'))


@contract('C15', F + 'merge_dicts', 'merge_dicts', expect=('an entry of __all__ without counterpart is taken over', 'the whole item is not narrowed', 'nested entries are merged', 'an item of a set without entry means the whole item', 'the merge is done on a copy', 'anything else is an error'))
class Merge(Contract):
    def iter(self, p, L):
        evs = p.iter_events()
        nx, si, gi, co, md, el = nexts(evs), named(evs, 'set_item'), named(evs, 'get_item'), named(evs, '::contains'), named(evs, 'merge_dicts'), named(evs, 'is_ellipsis_like')
        cp = p.events('*PyDictMethods::copy')
        if len(nx) != 1 or len(cp) != 1 or len(gi) + len(co) != 1:
            raise Lost('the items')
        out = p.V(cp[0].ret).as_('Ok')
        it = p.V(nx[0].ret).as_('Some')
        for ev in si + gi + co:
            p.require('the merge is done on a copy', p.V(ev.args[0]).t == out.t)
        if co:
            c = p.V(co[0].ret).as_('Ok').z
            p.require('the items of the set are looked up', p.V(co[0].args[1]).t == it.t)
            p.require('an item of a set without entry means the whole item', AND(NOT(c) == (len(si) == 1), *([p.V(si[0].args[1]).t == it.t, OR(*[p.V(si[0].args[2]).t == p.V(x.ret).t for x in p.events('*::Ellipsis')])] if si else [])))
            return
        k, v = it.f(0), it.f(1)
        p.require('the keys of the mapping are looked up', p.V(gi[0].args[1]).t == k.t)
        g = p.V(gi[0].ret).as_('Ok')
        if p.holds(g.is_('None')):
            p.require('an entry of __all__ without counterpart is taken over', AND(len(si) == 1, *([p.V(si[0].args[1]).t == k.t, p.V(si[0].args[2]).t == v.t] if si else [])))
            return
        ee = [p.V(x.ret).z for x in el if p.holds(OR(p.V(x.args[0]).t == g.as_('Some').t, p.V(x.args[0]).t == v.t))]
        whole = OR(*ee) if ee else z3.BoolVal(False)
        if p.feasible(whole):
            p.require('the whole item is not narrowed', IMP(whole, len(si) == 0))
        if p.feasible(NOT(whole)):
            ad = named(evs, 'as_dict')
            if len(md) != 1 or len(ad) != 1:
                p.require('nested entries are merged', len(md) == 1)
                raise Lost('the nested merge')
            p.require('nested entries are merged', IMP(NOT(whole), AND(len(ee) == 2, len(si) == 1, p.V(ad[0].args[0]).t == g.as_('Some').t, p.V(md[0].args[0]).t == p.V(ad[0].ret).as_('Ok').t, p.V(md[0].args[1]).t == v.t,
                                                                      *([p.V(si[0].args[1]).t == k.t, p.V(si[0].args[2]).t == p.V(md[0].ret).as_('Ok').t] if si else []))))

    def ret(self, p, r):
        evs, done = in_loop(p)
        cp = p.events('*PyDictMethods::copy')
        if evs is None:
            p.require('anything else is an error', r.is_('Err'))
            return
        p.require('the merge is done on a copy', AND(len(cp) == 1, p.V(cp[0].args[0]).t == p.arg(0).t if cp else False))
        p.require('the merge is done on a copy', AND(r.is_('Ok'), r.as_('Ok').t == p.V(cp[0].ret).as_('Ok').t) if done else r.is_('Err'))


class Idx(Contract):
    def ret(self, p, r):
        fi, mn = p.events('*FilterLogic::filter'), p.events('*map_negative_indices')
        if not fi:
            bad = [p.V(ev.ret) for ev in mn if p.holds(p.V(ev.ret).is_('Err'))]
            p.require('only a bad filter is an error', AND(len(bad) >= 1, r.is_('Err')))
            return
        a = [p.V(x) for x in fi[0].args]
        p.require('the index is looked up', AND(len(fi) == 1, r.eq(p.V(fi[0].ret)), a[0].eq(p.arg(0)), a[1].z == p.arg(1).z, a[2].z == p.arg(1).z))
        for i, name in ((2, 'include'), (3, 'exclude')):
            src, got = p.arg(i), a[i + 1]
            ms = [ev for ev in mn if p.holds(AND(src.is_('Some'), p.V(ev.args[0]).t == src.as_('Some').t))]
            p.require('include and exclude are mapped to indices', src.is_('Some') == got.is_('Some'))
            if p.feasible(src.is_('Some')):
                p.require('include and exclude are mapped to indices', IMP(src.is_('Some'), OR(*[AND(p.V(ev.args[1]).eq(p.arg(4)), got.as_('Some').t == p.V(ev.ret).as_('Ok').t) for ev in ms]) if ms else False))


contract('C15', F + 'AnyFilter::index_filter', 'AnyFilter::index_filter', expect=('the index is looked up', 'include and exclude are mapped to indices'))(type('AnyIdx', (Idx,), {}))
contract('C15', F + 'SchemaFilter::<usize>::index_filter', 'SchemaFilter::index_filter', expect=('the index is looked up', 'include and exclude are mapped to indices'))(type('SchIdx', (Idx,), {}))


class Key(Contract):
    hashed = True

    def ret(self, p, r):
        fi, h = p.events('*FilterLogic::filter'), p.events('*::hash')
        if not fi:
            p.require('only an unhashable key is an error', AND(self.hashed, r.is_('Err')))
            return
        a = [p.V(x) for x in fi[0].args]
        p.require('the key is looked up with the filters given', AND(len(fi) == 1, r.eq(p.V(fi[0].ret)), a[0].eq(p.arg(0)), a[1].t == p.arg(1).t, a[3].eq(p.arg(2)), a[4].eq(p.arg(3))))
        if self.hashed:
            p.require('the schema is asked for the hash of the key', AND(len(h) == 1, p.V(h[0].args[0]).t == p.arg(1).t, a[2].z == p.V(h[0].ret).as_('Ok').z))


contract('C15', F + 'SchemaFilter::<isize>::key_filter', 'SchemaFilter::key_filter', expect=('the key is looked up with the filters given',))(Key)
contract('C15', F + 'AnyFilter::key_filter', 'AnyFilter::key_filter', expect=('the key is looked up with the filters given',))(type('AnyKey', (Key,), {'hashed': False}))


class BuildSet(Contract):
    conv = '::extract'

    def iter(self, p, L):
        evs = p.iter_events()
        nx, ins, ex = nexts(evs), [ev for ev in named(evs, '::insert') if 'Hash' in ev.name], named(evs, self.conv)
        if len(nx) != 1 or len(ex) != 1:
            raise Lost('the items')
        it = p.V(nx[0].ret).as_('Some')
        e = p.V(ex[0].ret)
        p.require('every item of the declared set is kept', AND(len(ins) == 1, p.V(ex[0].args[0]).t == it.t, p.V(ins[0].args[1]).z == e.as_('Ok').z if ins else False))

    def ret(self, p, r):
        evs, done = in_loop(p)
        o = p.arg(0)
        if evs is None:
            none = [ev for ev in p.events('*::is_none') if p.holds(p.V(ev.ret).z)]
            p.require('without a set there is no filter', OR(r.is_('Err'), AND(r.is_('Ok'), r.as_('Ok').is_('None'), OR(o.is_('None'), bool(none)))))
        elif done:
            p.require('with a set there is a filter', AND(r.is_('Ok'), r.as_('Ok').is_('Some')))
        else:
            p.require('a bad item is an error', r.is_('Err'))


contract('C15', F + 'SchemaFilter::<usize>::build_set_ints', 'build_set_ints', expect=('every item of the declared set is kept', 'with a set there is a filter', 'without a set there is no filter'))(BuildSet)
contract('C15', F + 'SchemaFilter::<isize>::build_set_hashes', 'build_set_hashes', expect=('every item of the declared set is kept', 'with a set there is a filter', 'without a set there is no filter'))(type('BuildHashes', (BuildSet,), {'conv': '::hash'}))


class FromX(Contract):
    hashes = False

    def ret(self, p, r):
        bs = p.events('*build_set_*')
        if not p.holds(r.is_('Ok')):
            return
        x = r.as_('Ok')
        if self.hashes:
            p.require('include and exclude are kept apart', AND(len(bs) == 2, *([x.f(n).eq(p.V(bs[i].ret).as_('Ok')) for i, n in enumerate(('include', 'exclude'))] + [p.V(bs[i].args[0]).eq(p.arg(i)) for i in (0, 1)] if len(bs) == 2 else [])))
            return
        if not bs:
            p.require('without declared filter there is none', AND(x.f('include').is_('None'), x.f('exclude').is_('None')))
            return
        if len(bs) != 2:
            raise Lost('the declared filters')
        for i, n in enumerate(('include', 'exclude')):
            g = [ev for ev in p.events('*::get_item') if p.holds(p.V(ev.args[1]).eq(n))]
            src = [b for b in bs if g and p.holds(p.V(b.args[0]).eq(p.V(g[0].ret).as_('Ok')))]
            p.require('include and exclude are kept apart', AND(len(src) == 1, x.f(n).eq(p.V(src[0].ret).as_('Ok')) if src else False))


contract('C15', F + 'SchemaFilter::<usize>::from_schema', 'SchemaFilter::from_schema', expect=('include and exclude are kept apart', 'without declared filter there is none'))(FromX)
contract('C15', F + 'SchemaFilter::<isize>::from_set_hash', 'SchemaFilter::from_set_hash', expect=('include and exclude are kept apart',))(type('FromHash', (FromX,), {'hashes': True}))


@contract('C15', F + 'check_contains', 'check_contains', expect=('the key or __all__ is contained',))
class CheckC(Contract):
    def ret(self, p, r):
        ca, tr = p.events('*call1'), p.events('*is_truthy')
        if not p.holds(AND(r.is_('Ok'), r.as_('Ok').is_('Some'))):
            return
        v = r.as_('Ok').as_('Some').z
        ga = p.events('*::getattr')
        p.require('membership is asked of the filter', AND(len(ga) == 1, p.V(ga[0].args[0]).t == p.arg(0).t, p.V(ga[0].args[1]).eq('__contains__')))
        p.require('the key or __all__ is contained', AND(len(ca) >= 1, v == OR(*[p.V(t.ret).as_('Ok').z for t in tr])))
        for c, t in zip(ca, tr):
            p.require('the key or __all__ is contained', p.V(t.args[0]).t == p.V(c.ret).as_('Ok').t)
        p.require('both are asked before the answer is no', IMP(NOT(v), len(ca) == 2))


from contracts.ser import *


class Container(Contract):
    """every item or entry of the container is asked for once and written exactly when it is kept, with its nested filters"""
    json = False
    kind = 'index'          # or 'key'
    inc, exc, extra = 2, 3, 4
    has_filter = True
    writes = ('::push', '::set_item', '::serialize_element', '::serialize_entry')
    EXP = ('every item is looked up once', 'an item that is not kept leaves no trace', 'a kept item is serialized once, with its nested filters', 'a kept item is written')

    def item(self, p, evs):
        """key or index, value"""
        nx = nexts(evs)
        if len(nx) != 1:
            raise Lost('the items')
        it = p.V(nx[0].ret).as_('Some')
        if self.pairs:
            it = it.as_('Ok')
        return it.f(0), it.f(1)
    pairs = False

    def serializer(self, p, n):
        me = p.arg(0)
        f = 'item_serializer' if self.kind == 'index' else 'value_serializer'
        return n.ser is not None and n.ser.eq(me.f(f).unbox())

    def iter(self, p, L):
        evs = p.iter_events()
        key, val = self.item(p, evs)
        fl = filter_calls(evs)
        p.require('every item is looked up once', len(fl) == 1)
        if not fl:
            return
        a = [p.V(x) for x in fl[0].args]
        same = a[1].z == key.z if self.kind == 'index' else a[1].t == key.t
        p.require('every item is looked up once', AND(same, ref_opt_eq(a[2], p.arg(self.inc)), ref_opt_eq(a[3], p.arg(self.exc)), a[0].eq(p.arg(0).f('filter')) if self.has_filter else True))
        if self.kind == 'index':
            self.length(p, a[4])
        f = p.V(fl[0].ret)
        ns = nested_of(p, evs, self.key_ser(p))
        wr = [ev for ev in evs if ev.name.endswith(self.writes)]
        if not p.holds(f.is_('Ok')):
            p.require('a failing filter ends the serialization', False)
            return
        o = f.as_('Ok')
        if p.holds(o.is_('None')):
            p.require('an item that is not kept leaves no trace', len(ns) + len(wr) == 0)
            return
        self.kept(p, evs, o.as_('Some'), val, ns, wr, key)

    def key_ser(self, p):
        return p.arg(0).f('key_serializer').unbox() if self.kind == 'key' and self.has_filter else None

    def length(self, p, n):
        p.require('negative indices count from the end of the container', IMP(n.is_('Some'), self.len_is(p, n.as_('Some').z)))

    def len_is(self, p, z):
        ls = [p.V(ev.ret) for ev in p.events('*::len')]
        out = [z == p.e.seq_len(p.st, p.arg(1).v)]
        for x in ls:
            out.append(z == (x.z if x.kind() == 'int' else x.as_('Ok').z))
        return OR(*out)

    def kept(self, p, evs, nf, val, ns, wr, key):
        if not ns and wr:
            raise Lost('the value written')
        p.require('a kept item is serialized once, with its nested filters', len(ns) == 1)
        if not ns:
            return
        n = ns[0]
        p.require('a kept item is serialized once, with its nested filters', AND(n.value.t == val.t, ref_opt_eq(n.inc, nf.f(0)), ref_opt_eq(n.exc, nf.f(1)), n.extra.eq(p.arg(self.extra)), self.serializer(p, n)))
        p.require('a kept item is written', len(wr) == 1)
        if wr and not self.json:
            w = p.V(wr[0].args[-1])
            p.require('a kept item is written', AND(n.out.is_('Ok'), w.t == n.out.as_('Ok').t))
        if wr and self.kind == 'key':
            self.key(p, evs, key, p.V(wr[0].args[1]))

    def key(self, p, evs, key, w):
        me = p.arg(0)
        ks = [ev for ev in evs if ev.name.endswith(('::json_key', '::to_python', '::infer_json_key', '::call')) and ev.args and (ev.name.endswith(('infer_json_key', '::call')) or p.holds(p.V(ev.args[0]).eq(me.f('key_serializer').unbox())))]
        p.require('the key is serialized once', len(ks) == 1)
        if ks:
            i = 0 if ks[0].name.endswith('infer_json_key') else 1
            k = p.V(ks[0].args[i])
            if ks[0].name.endswith('::call'):
                k = k.f(0)
            o = p.V(ks[0].ret)
            p.require('the key is serialized once', AND(k.t == key.t, o.is_('Ok'), OR(w.t == o.as_('Ok').t, w.t == uf('topy', Val, Val)(o.as_('Ok').t))))

    def ret(self, p, r):
        evs, done = done_loop(p)
        if evs is None:
            return
        if not done:
            p.require('an early return is an error', r.is_('Err'))
            return
        p.require('every item is visited before the result', True)


I = SER + 'infer::'
contract('C15', '<' + T + 'list::ListSerializer as *TypeSerializer>::to_python', 'list to_python', expect=Container.EXP)(type('ListPy', (Container,), {}))
contract('C15', '<' + T + 'list::ListSerializer as *TypeSerializer>::serde_serialize', 'list serde_serialize', expect=Container.EXP)(type('ListJs', (Container,), {'json': True, 'inc': 3, 'exc': 4, 'extra': 5}))
contract('C15', '<' + T + 'dict::DictSerializer as *TypeSerializer>::to_python', 'dict to_python', expect=Container.EXP)(type('DictPy', (Container,), {'kind': 'key'}))
contract('C15', '<' + T + 'dict::DictSerializer as *TypeSerializer>::serde_serialize', 'dict serde_serialize', expect=Container.EXP)(type('DictJs', (Container,), {'kind': 'key', 'json': True, 'inc': 3, 'exc': 4, 'extra': 5}))


class Pairs(Container):
    kind, has_filter, pairs = 'key', False, True

    def serializer(self, p, n):
        return n.ser is None


contract('C15', I + 'serialize_pairs_python', 'serialize_pairs_python', expect=Container.EXP)(Pairs)
contract('C15', I + 'serialize_pairs_json', 'serialize_pairs_json', expect=Container.EXP)(type('PairsJs', (Pairs,), {'json': True, 'inc': 3, 'exc': 4, 'extra': 5}))


@contract('C15', T + 'tuple::TupleSerializer::for_each_tuple_item_and_serializer', 'tuple items', expect=('every item is looked up once', 'an item that is not kept leaves no trace', 'a kept item is passed on once, with its nested filters and serializer'))
class TupleItems(Container):
    writes = ('::call_mut',)

    def item(self, p, evs):
        nx = nexts(evs)
        if not 1 <= len(nx) <= 2:
            raise Lost('the items')
        it = p.V(nx[-1].ret).as_('Some')
        if len(nx) == 2:
            e = p.V(nx[0].ret).as_('Some')
            self.ser = e.f(1)
            return e.f(0), it
        self.ser = None
        n = p.e.seq_len(p.st, p.arg(0).f('serializers').v)
        return _Z(it.f(0).z + n), it.f(1)

    def key_ser(self, p):
        return None

    def kept(self, p, evs, nf, val, ns, wr, key):
        p.require('a kept item is passed on once, with its nested filters and serializer', len(wr) == 1)
        if not wr:
            return
        en = p.V(wr[0].args[1])
        if en.kind() == 'tuple':
            en = en.f(0)
        p.require('a kept item is passed on once, with its nested filters and serializer', AND(en.f('item').t == val.t, ref_opt_eq(en.f('include'), nf.f(0)), ref_opt_eq(en.f('exclude'), nf.f(1)), en.f('serializer').eq(self.ser) if self.ser is not None else True))

    def ret(self, p, r):
        pass


class _Z:
    def __init__(self, z):
        self.z = z
