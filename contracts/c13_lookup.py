"""C13: alias paths resolve to the first alternative that exists"""
from contracts.common import *
from contracts.fields import nexts, named

DUMP = {'stop': ['*with_outer_location', '*py_err_string*', '_pydantic_core::build_tools::*', '*LookupPath::from_str', '*LookupPath::from_list', '*PathItem::py_get_item', '*PathItem::json_get', '*PathItem::py_get_attrs', '*PathItemString::py_get_attrs', '*lookup_key::py_get_attrs', '*lookup_key::py_get_item',
                 '*LookupKey::py_get_dict_item', '*LookupKey::simple_py_get_attr', '*::to_loc_item', '*PathItem::from_py', '*extract_i64']}
ASSUMPTIONS = ['PyDict.get_item / PyMapping.get_item / PyAny.get_item / getattr are the Python operations', 'Iterator::{try_fold, find_map, rev, map, collect} are the standard library\'s: try_fold folds the closure over all items in order and stops at the first None; find_map returns the first Some; rev reverses']
LK = '_pydantic_core::lookup_key::'


def folded(p, tf, path, first, closure):
    """try_fold over all of path.rest starting with first, with the given closure"""
    it = tf.args[0]
    it = p.V(it).v
    c = p.V(tf.args[2])
    if not isinstance(it, ItV) or it.kind != 'seq' or c.ty is None or p.e.types[c.ty]['k'] != 'closure':
        raise Lost('fold over the path')
    if closure not in p.e.types[c.ty]['fn']:
        raise Lost('closure of the fold')
    return AND(p.V(it.src).eq(path.f('rest')), it.pos == 0, p.V(tf.args[1]).eq(first))


class Get(Contract):
    """shared: (events of the first step, value found) of one path"""
    first = '::get_item'
    fold = 'try_fold'
    here = ''

    def key(self, p, ev):
        return p.V(ev.args[1])

    def pkey(self, path):
        return path.f('first_item', 'py_key')

    def obj(self, p):
        return p.arg(1)

    def found(self, p, ev):
        """(error, is some, value)"""
        r = p.V(ev.ret)
        return r.is_('Err'), AND(r.is_('Ok'), r.as_('Ok').is_('Some')), r.as_('Ok').as_('Some')

    def firsts(self, p, evs):
        return named(evs, self.first)

    def step_ok(self, p, ev, path):
        return AND(self.key(p, ev).eq(self.pkey(path)), p.V(ev.args[0]).t == self.obj(p).t)

    def is_none(self, p, r):
        return AND(r.is_('Ok'), r.as_('Ok').is_('None'))

    def is_pair(self, r, path, value):
        x = r.as_('Ok').as_('Some')
        return AND(r.is_('Ok'), r.as_('Ok').is_('Some'), x.f(0).eq(path), x.f(1).eq(value))

    def err(self, p, r, e):
        return r.is_('Err')

    def iter(self, p, L):
        evs = p.iter_events()
        path, some, rest = self.step(p, evs)
        p.require('the next alternative is only tried where this one does not exist', OR(NOT(some), NOT(rest) if rest is not None else False))

    def step(self, p, evs):
        nx = nexts(evs)
        path = p.V(nx[0].ret).as_('Some')
        fi, tf = self.firsts(p, evs), named(evs, self.fold)
        if len(fi) != 1 or len(tf) > 1:
            raise Lost('steps of a path')
        p.require('each alternative starts at the input with its first key', self.step_ok(p, fi[0], path))
        e, some, val = self.found(p, fi[0])
        rest = None
        if tf:
            p.require('the rest of the path is followed from the first value', AND(some, folded(p, tf[0], path, val, self.here)))
            rest = p.V(tf[0].ret).is_('Some')
        return path, some, rest

    def ret(self, p, r):
        me = p.arg(0)
        if p.holds(me.is_('PathChoices')):
            ls = loops(p)
            if not ls:
                raise Lost('no loop')
            evs = p.st.events[ls[0][1] + 1:]
            nx = nexts(evs)
            if p.holds(p.V(nx[0].ret).is_('None')):
                p.require('nothing is found when no alternative exists', self.is_none(p, r))
                return
            fi, tf = self.firsts(p, evs), named(evs, self.fold)
            if not tf:
                e, some, val = self.found(p, fi[0])
                p.require('only an error ends the search', AND(e, self.err(p, r, fi[0])))
                return
            path, some, rest = self.step(p, evs)
            p.require('the value of the first alternative that exists is returned with its path', AND(rest, self.is_pair(r, path, p.V(tf[0].ret).as_('Some'))))
            return
        fi = self.firsts(p, p.st.events)
        paths = [me.as_('Simple')] if p.holds(me.is_('Simple')) else [me.as_('Choice', 'path1'), me.as_('Choice', 'path2')]
        if not fi or len(fi) > len(paths):
            raise Lost('lookup')
        for i, ev in enumerate(fi):
            p.require('the alternatives are looked up in order', self.step_ok(p, ev, paths[i]))
            e, some, val = self.found(p, ev)
            if i < len(fi) - 1:
                p.require('the next alternative is only tried where this one does not exist', AND(NOT(some), NOT(e)))
                continue
            if p.holds(e):
                p.require('only an error ends the search', self.err(p, r, ev))
            elif p.holds(some):
                p.require('the value of the first alternative that exists is returned with its path', self.is_pair(r, paths[i], val))
            else:
                p.require('nothing is found when no alternative exists', AND(self.is_none(p, r), len(fi) == len(paths)))


EXP = ('the value of the first alternative that exists is returned with its path', 'nothing is found when no alternative exists', 'the next alternative is only tried where this one does not exist', 'each alternative starts at the input with its first key')


@contract('C13', LK + 'LookupKey::py_get_dict_item', 'py_get_dict_item', models=STATE_MODELS, expect=EXP)
class Dict(Get):
    here = 'LookupKey::py_get_dict_item::{closure#'


@contract('C13', LK + 'LookupKey::py_get_mapping_item', 'py_get_mapping_item', models=STATE_MODELS, expect=EXP)
class Mapping(Get):
    here = 'LookupKey::py_get_mapping_item::{closure#'

    def found(self, p, ev):
        r = p.V(ev.ret)
        return z3.BoolVal(False), r.is_('Ok'), r.as_('Ok')


@contract('C13', LK + 'LookupKey::json_get', 'json_get', models=STATE_MODELS, expect=EXP)
class Json(Get):
    first = '::find_map'
    here = 'LookupKey::json_get::{closure#'

    def found(self, p, ev):
        r = p.V(ev.ret)
        return z3.BoolVal(False), r.is_('Some'), r.as_('Some')

    def step_ok(self, p, ev, path):
        rv = [x for x in p.events('*Iterator::rev') if p.holds(p.V(x.ret).t == p.V(ev.args[0]).t)]
        c = p.V(ev.args[1])
        if len(rv) != 1:
            p.require('the last of several equal JSON keys counts', len(rv) == 1)
            return False
        if not isinstance(c.v, Agg) or self.here not in p.e.types[c.ty]['fn']:
            raise Lost('closure')
        it = p.V(rv[0].args[0]).v
        if not isinstance(it, ItV) or it.kind != 'seq':
            raise Lost('iteration of the object')
        return AND(p.V(it.src).eq(p.arg(1)), it.pos == 0, p.V(c.v.f[0]).eq(path))


@contract('C13', [LK + 'LookupKey::py_get_dict_item::{closure#*}', LK + 'LookupKey::py_get_mapping_item::{closure#*}'], 'py_get_dict_item / py_get_mapping_item: one step', expect=('a step of a path is one item access',))
class FoldStep(Contract):
    def ret(self, p, r):
        g = p.events('*PathItem::py_get_item')
        p.require('a step of a path is one item access', AND(len(g) == 1, *([p.V(g[0].args[0]).eq(p.arg(2)), p.V(g[0].args[1]).t == p.arg(1).t, r.eq(p.V(g[0].ret))] if g else [])))


@contract('C13', [LK + 'LookupKey::json_get::{closure#*}', LK + 'PathItem::json_obj_get::{closure#*}'], 'json_get / json_obj_get: one step', )
class JsonStep(Contract):
    def ret(self, p, r):
        if len(p._args) == 3:
            g = p.events('*PathItem::json_get')
            p.require('a step of a path is one item access', AND(len(g) == 1, *([p.V(g[0].args[0]).eq(p.arg(2)), p.V(g[0].args[1]).t == p.arg(1).t, r.eq(p.V(g[0].ret))] if g else [])))
            return
        env, pair = p.arg(0), p.arg(1)
        x = V(p, p.e.project(p.st, env.v, env.ty, 0, 0)) if not isinstance(env.v, Agg) else p.V(env.v.f[0])
        key = x.f('first_item', 'key') if x.ty is not None and p.e.types[x.ty].get('path', '').endswith('LookupPath') else x
        k, v = pair.f(0), pair.f(1)
        same = k.t == key.t
        p.require('an entry is found by its key', AND(r.is_('Some') == same, IMP(same, r.as_('Some').t == v.t)))


@contract('C13', LK + 'LookupKey::simple_py_get_attr', 'simple_py_get_attr', models=STATE_MODELS, expect=EXP + ('each step follows from the previous value',))
class Attr(Get):
    first = '::py_get_attrs'

    def firsts(self, p, evs):
        return [ev for ev in evs if ev.name.endswith('lookup_key::py_get_attrs')]

    def step_ok(self, p, ev, path):
        return AND(p.V(ev.args[0]).t == p.arg(1).t, p.V(ev.args[1]).eq(path.f('first_item', 'py_key')))

    def outer(self, p, evs):
        path = p.V(nexts(evs)[0].ret).as_('Some')
        fi = [ev for ev in evs if ev.name.endswith('PathItemString::py_get_attrs')]
        if len(fi) != 1:
            raise Lost('first step')
        p.require('each alternative starts at the input with its first key', AND(p.V(fi[0].args[0]).eq(path.f('first_item')), p.V(fi[0].args[1]).t == p.arg(1).t))
        x = p.V(fi[0].ret)
        return path, x.is_('Err'), AND(x.is_('Ok'), x.as_('Ok').is_('Some')), x.as_('Ok').as_('Some'), fi[0]

    def inner(self, p, L, evs, path, val):
        """one step of the inner loop: (some, err, event)"""
        nx = nexts(evs)
        st = [ev for ev in evs if ev.name.endswith('PathItem::py_get_attrs')]
        vs = [v for v in loop_vars(p, L, 'Bound<') ]
        if len(vs) != 1:
            raise Lost('value of the path so far')
        p.require('each step follows from the previous value', AND(vs[0].entry.t == val.t, p.V(nx[0].args[0]).v is not None))
        if not st:
            return vs[0], None
        p.require('each step follows from the previous value', AND(len(st) == 1, p.V(st[0].args[1]).t == vs[0].head.t, p.V(st[0].args[0]).eq(p.V(nx[0].ret).as_('Some'))))
        return vs[0], p.V(st[0].ret)

    def iter(self, p, L):
        ls = loops(p)
        evs = p.st.events[ls[0][1] + 1:]
        path, err, some, val, ev = self.outer(p, evs)
        if len(ls) == 1:
            p.require('the next alternative is only tried where this one does not exist', AND(NOT(some), NOT(err)))
            return
        iev = p.st.events[ls[1][1] + 1:]
        v, x = self.inner(p, ls[1][0], iev, path, val)
        if L is ls[1][0]:
            p.require('each step follows from the previous value', AND(x is not None, *([x.is_('Ok'), x.as_('Ok').is_('Some'), v.cur.t == x.as_('Ok').as_('Some').t] if x is not None else [])))
        else:
            p.require('the next alternative is only tried where this one does not exist', AND(x is not None, *([x.is_('Ok'), x.as_('Ok').is_('None')] if x is not None else [])))

    def ret(self, p, r):
        if not p.holds(p.arg(0).is_('PathChoices')):
            return Get.ret(self, p, r)
        ls = loops(p)
        evs = p.st.events[ls[0][1] + 1:]
        if p.holds(p.V(nexts(evs)[0].ret).is_('None')):
            p.require('nothing is found when no alternative exists', self.is_none(p, r))
            return
        path, err, some, val, ev = self.outer(p, evs)
        if len(ls) == 1:
            p.require('only an error ends the search', AND(err, r.is_('Err')))
            return
        v, x = self.inner(p, ls[1][0], p.st.events[ls[1][1] + 1:], path, val)
        if x is not None:
            p.require('only an error ends the search', AND(x.is_('Err'), r.is_('Err')))
        else:
            p.require('the value of the first alternative that exists is returned with its path', self.is_pair(r, path, v.head))


@contract('C13', LK + 'LookupKey::py_get_attr', 'py_get_attr', models=STATE_MODELS, expect=('keyword arguments come first, then attributes', 'a failing attribute is an error'))
class AttrK(Contract):
    def ret(self, p, r):
        d, a = p.events('*LookupKey::py_get_dict_item'), p.events('*simple_py_get_attr')
        kw = p.arg(2)
        if p.holds(kw.is_('Some')):
            x = p.V(d[0].ret) if d else None
            p.require('keyword arguments come first, then attributes', AND(len(d) == 1, *([p.V(d[0].args[0]).eq(p.arg(0)), p.V(d[0].args[1]).t == kw.as_('Some').t,
                      (AND(x.is_('Ok'), x.as_('Ok').is_('Some')) if not a else NOT(AND(x.is_('Ok'), x.as_('Ok').is_('Some'))))] if d else [])))
            if not a:
                p.require('keyword arguments come first, then attributes', AND(r.is_('Ok'), r.as_('Ok').is_('Some'), r.as_('Ok').as_('Some').f(0).eq(x.as_('Ok').as_('Some').f(0)), r.as_('Ok').as_('Some').f(1).eq(x.as_('Ok').as_('Some').f(1))) if x is not None else False)
                return
        p.require('keyword arguments come first, then attributes', AND(len(a) == 1, *([p.V(a[0].args[0]).eq(p.arg(0)), p.V(a[0].args[1]).t == p.arg(1).t] if a else [])))
        x = p.V(a[0].ret)
        if p.holds(x.is_('Ok')):
            p.require('keyword arguments come first, then attributes', AND(r.is_('Ok'), r.as_('Ok').eq(x.as_('Ok'))))
        else:
            ty = line_error_types(p, r)
            if ty is None:
                raise Lost('error of an attribute')
            p.require('a failing attribute is an error', AND(r.is_('Err'), len(ty[1]) == 1, ty[1][0].is_('GetAttributeError')))


@contract('C13', LK + 'LookupKey::error', 'error', models=STATE_MODELS, expect=('the location of a missing field is its first alias path', 'the location of a missing field is its name'))
class Err(Contract):
    def iter(self, p, L):
        evs = p.iter_events()
        v = loop_vecs(p, L, 'LocItem')
        t = named(evs, 'to_loc_item')
        if len(v) != 1:
            raise Lost('location')
        p.require('the location of a missing field is its first alias path', AND(v[0].starts_empty, len(t) == 1, v[0].appended is not None and len(v[0].appended) == 1,
                  *([p.V(t[0].args[0]).eq(p.V(nexts(evs)[0].ret).as_('Some')), v[0].appended[0].eq(p.V(t[0].ret))] if t and v[0].appended else [])))

    def ret(self, p, r):
        loc, by = r.f('location'), p.arg(3).z
        p.require('the error has the given type', r.f('error_type').eq(p.arg(1)))
        if not (isinstance(loc.v, Agg) and p.holds(loc.is_('List'))):
            raise Lost('location')
        items = loc.as_('List').v
        if not isinstance(items, VecV) or not items.items:
            raise Lost('location')
        if p.holds(NOT(by)):
            p.require('the location of a missing field is its name', AND(items.base is None, len(items.items) == 1, p.V(items.items[0]).is_('S'), p.V(items.items[0]).as_('S').eq(p.arg(4))))
            return
        ls = loops(p)
        v = loop_vecs(p, ls[0][0], 'LocItem')
        me = p.arg(0)
        rv = named(p.st.events, 'Iterator::rev')
        if len(rv) != 1 or len(v) != 1:
            raise Lost('reversed path')
        it = p.V(rv[0].args[0]).v
        if not isinstance(it, ItV) or it.kind != 'seq':
            raise Lost('reversed path')
        last = p.V(items.items[-1])
        p.require('the location of a missing field is its first alias path', AND(by, len(items.items) == 1, items.base is not None and z3.eq(items.base.t, v[0].head.base.t), last.is_('S')))
        pk = {}
        if p.holds(me.is_('Simple')):
            pk = me.as_('Simple')
        elif p.holds(me.is_('Choice')):
            pk = me.as_('Choice', 'path1')
        else:
            pk = first_elem(p, me.as_('PathChoices'))
        p.require('the location of a missing field is its first alias path', AND(last.as_('S').eq(pk.f('first_item', 'key')), p.V(it.src).eq(pk.f('rest')), it.pos == 0))


def first_elem(p, vec):
    t = p.e.types[vec.ty]['args'][0]
    return V(p, p.e.index(p.st, vec.v, z3.IntVal(0), t), t)


@contract('C13', LK + 'LookupPath::apply_error_loc', 'apply_error_loc', models=STATE_MODELS, expect=('errors are located under the whole path', 'errors are located under the name'))
class Apply(Contract):
    def var(self, p, L):
        v = loop_vars(p, L, 'ValLineError')
        if len(v) != 1:
            raise Lost('error')
        return v[0]

    def iter(self, p, L):
        evs = p.iter_events()
        v = self.var(p, L)
        t, w = named(evs, 'to_loc_item'), named(evs, 'with_outer_location')
        p.require('errors are located under the whole path', AND(len(t) == 1, len(w) == 1, *([p.V(t[0].args[0]).eq(p.V(nexts(evs)[0].ret).as_('Some')), p.V(w[0].args[0]).t == v.head.t, p.V(w[0].args[1]).eq(p.V(t[0].ret)),
                  v.cur.t == p.V(w[0].ret).t, v.entry.t == p.arg(1).t] if t and w else [])))

    def ret(self, p, r):
        me, by = p.arg(0), p.arg(2).z
        w = p.events('*with_outer_location')
        if p.holds(NOT(by)):
            p.require('errors are located under the name', AND(len(w) == 1, *([p.V(w[0].args[0]).eq(p.arg(1)), p.V(w[0].args[1]).eq(p.arg(3)), r.eq(p.V(w[0].ret))] if w else [])))
            return
        ls = loops(p)
        if not ls:
            raise Lost('no loop')
        rv = named(p.st.events, 'Iterator::rev')
        w = named(p.st.events[ls[0][1]:], 'with_outer_location')
        it = p.V(rv[0].args[0]).v if len(rv) == 1 else None
        if not isinstance(it, ItV):
            raise Lost('reversed path')
        v = self.var(p, ls[0][0])
        p.require('errors are located under the whole path', AND(by, len(w) == 1, p.V(it.src).eq(me.f('rest')), it.pos == 0, *([p.V(w[0].args[0]).t == v.head.t, p.V(w[0].args[1]).eq(me.f('first_item', 'key')), r.eq(p.V(w[0].ret))] if w else [])))


@contract('C13', LK + 'PathItem::to_loc_item', 'PathItem::to_loc_item')
class ToLoc(Contract):
    def ret(self, p, r):
        me = p.arg(0)
        p.require('a string key is itself in the location', IMP(me.is_('S'), AND(r.is_('S'), r.as_('S').eq(me.as_('S').f('key')))))
        m = 2 ** 63
        p.require('an index is itself in the location', IMP(AND(me.is_('Pos'), me.as_('Pos').z < m), AND(r.is_('I'), r.as_('I').z == me.as_('Pos').z)))
        p.require('a negative index is itself in the location', IMP(AND(me.is_('Neg'), me.as_('Neg').z <= m), AND(r.is_('I'), r.as_('I').z == -me.as_('Neg').z)))


@contract('C13', LK + 'LookupPath::from_str', 'LookupPath::from_str')
class FromStr(Contract):
    def ret(self, p, r):
        n = p.events('*PyString::new')
        k = p.arg(2)
        fi = r.f('first_item')
        p.require('the path consists of the key', AND(fi.f('key').eq(p.arg(1)), r.f('rest').len() == 0))
        if p.holds(k.is_('Some')):
            p.require('the Python key is the given one', fi.f('py_key').t == k.as_('Some').t)
        else:
            p.require('the Python key is the key', AND(len(n) == 1, *([p.V(n[0].args[1]).eq(p.arg(1)), fi.f('py_key').t == p.V(n[0].ret).t] if n else [])))


@contract('C13', LK + 'LookupPath::from_list', 'LookupPath::from_list', expect=('the rest of the path are the remaining elements',))
class FromList(Contract):
    def ret(self, p, r):
        nx = nexts(p.st.events)
        if not p.holds(r.is_('Ok')):
            p.require('a path is either built or an error', r.is_('Err'))
            return
        x = r.as_('Ok')
        if len(nx) != 1:
            raise Lost('first element')
        fst = p.V(nx[0].ret)
        ts, co = p.events('*::to_str'), p.events('*Iterator::collect')
        if len(co) != 1 or len(ts) != 1:
            raise Lost('collect')
        m = p.V(co[0].args[0]).v
        if not isinstance(m, ItV) or m.kind != 'map' or not isinstance(m.src, ItV):
            raise Lost('collect')
        p.require('a path starts with its first element', AND(fst.is_('Some'), x.f('first_item', 'py_key').t == fst.as_('Some').t, p.V(ts[0].args[0]).t == fst.as_('Some').t, x.f('first_item', 'key').t == p.V(ts[0].ret).as_('Ok').t))
        p.require('the rest of the path are the remaining elements', AND(p.V(m.src.src).t == p.arg(0).t, m.src.pos == 1, x.f('rest').eq(p.V(co[0].ret).as_('Ok')), 'PathItem::from_py' in str(fn_of(p, m.x))))


def fn_of(p, f):
    f = p.V(f)
    if isinstance(f.v, FnV):
        return f.v
    t = p.e.types[f.ty] if f.ty is not None else {}
    return t.get('s', '') + str(t.get('fn', '')) + str(f.v)


@contract('C13', LK + 'LookupKey::from_py', 'LookupKey::from_py', expect=('a string alias is one key', 'a string alias with a name is tried first', 'the name is the last alternative', 'a list of strings is one path', 'a list of lists is one path each'))
class FromPy(Contract):
    def ret(self, p, r):
        if not p.holds(r.is_('Ok')):
            p.require('a key is either built or an error', r.is_('Err'))
            return
        x = r.as_('Ok')
        fs, fl, co, ex = p.events('*LookupPath::from_str'), p.events('*LookupPath::from_list'), p.events('*Iterator::collect'), p.events('*::extract')
        alt = p.arg(2)
        if p.holds(x.is_('Simple', 'Choice')):
            if len(ex) != 1:
                raise Lost('extract')
            a = p.V(fs[0].ret) if fs else None
            ok = AND(len(fs) >= 1, *([p.V(fs[0].args[1]).t == p.V(ex[0].ret).as_('Ok').t, p.V(ex[0].args[0]).t == p.arg(1).t, p.V(fs[0].args[2]).is_('Some'), p.V(fs[0].args[2]).as_('Some').t == p.arg(1).t] if fs else []))
            if p.holds(x.is_('Simple')):
                p.require('a string alias is one key', AND(alt.is_('None'), ok, x.as_('Simple').eq(a) if a is not None else False))
            else:
                p.require('a string alias with a name is tried first', AND(alt.is_('Some'), ok, len(fs) == 2, *([x.as_('Choice', 'path1').eq(a), x.as_('Choice', 'path2').eq(p.V(fs[1].ret)), p.V(fs[1].args[1]).eq(alt.as_('Some'))] if len(fs) == 2 else [])))
            return
        v = x.as_('PathChoices').v
        if not isinstance(v, VecV):
            raise Lost('alternatives')
        items = [p.V(i) for i in v.items]
        if p.holds(alt.is_('Some')):
            p.require('the name is the last alternative', AND(len(fs) == 1, len(items) >= 1, *([items[-1].eq(p.V(fs[0].ret)), p.V(fs[0].args[1]).eq(alt.as_('Some'))] if fs and items else [])))
            items = items[:-1]
        else:
            p.require('the name is the last alternative', len(fs) == 0)
        if fl:
            p.require('a list of strings is one path', AND(len(fl) == 1, v.base is None, len(items) == 1, *([items[0].eq(p.V(fl[0].ret).as_('Ok')), p.V(fl[0].args[0]).t == p.arg(1).t] if items else [])))
        else:
            if len(co) != 1 or v.base is None:
                raise Lost('collect')
            m = p.V(co[0].args[0]).v
            if not isinstance(m, ItV) or m.kind != 'map' or not isinstance(m.src, ItV):
                raise Lost('collect')
            p.require('a list of lists is one path each', AND(len(items) == 0, v.base.t == p.V(co[0].ret).as_('Ok').t, p.V(m.src.src).t == p.arg(1).t, m.src.pos == 0))


@contract('C13', LK + 'LookupKey::from_py::{closure#*}', 'LookupKey::from_py: one path', expect=('a list of lists is one path each',))
class FromPy1(Contract):
    def ret(self, p, r):
        fl = p.events('*LookupPath::from_list')
        p.require('a list of lists is one path each', AND(len(fl) == 1, *([p.V(fl[0].args[0]).t == p.arg(1).t, r.eq(p.V(fl[0].ret))] if fl else [])))


@contract('C13', LK + 'PathItem::from_py', 'PathItem::from_py', expect=('a string element is a key', 'a non-negative int is a position', 'a negative int counts from the end'))
class ItemFromPy(Contract):
    def ret(self, p, r):
        ts, ex, xi = p.events('*::to_str'), p.events('*::extract'), p.events('*extract_i64')
        if not p.holds(r.is_('Ok')):
            p.require('an element is either built or an error', r.is_('Err'))
            return
        x = r.as_('Ok')
        o = p.arg(0).t
        if p.holds(x.is_('S')):
            p.require('a string element is a key', AND(len(ts) == 1, *([p.V(ts[0].args[0]).t == o, x.as_('S').f('key').t == p.V(ts[0].ret).as_('Ok').t, x.as_('S').f('py_key').t == o] if ts else [])))
        elif p.holds(x.is_('Pos')):
            p.require('a non-negative int is a position', AND(len(ex) == 1, *([p.V(ex[0].ret).is_('Ok'), x.as_('Pos').z == p.V(ex[0].ret).as_('Ok').z] if ex else [])))
        else:
            if len(xi) != 1:
                raise Lost('negative index')
            i = p.V(xi[0].ret).as_('Some').z
            p.require('a negative int counts from the end', AND(p.V(xi[0].ret).is_('Some'), IMP(i < 0, x.as_('Neg').z == -i), len(ex) == 1, p.V(ex[0].ret).is_('Err') if ex else False))


@contract('C13', LK + 'PathItem::json_get', 'PathItem::json_get', expect=('a position indexes an array', 'a negative position counts from the end', 'a string does not index an array', 'only objects and arrays have items', 'an object is looked up by key'))
class ItemJson(Contract):
    def ret(self, p, r):
        me, j = p.arg(0), p.arg(1)
        if p.holds(j.is_('Object')):
            o = p.events('*PathItem::json_obj_get')
            f = p.events('*Iterator::find_map')
            if o:
                p.require('an object is looked up by key', AND(p.V(o[0].args[0]).eq(me), p.V(o[0].args[1]).t == j.as_('Object').t, r.eq(p.V(o[0].ret))))
            elif f:
                p.require('an object is looked up by key', AND(me.is_('S'), r.eq(p.V(f[0].ret))))
            else:
                p.require('an object is looked up by key', AND(NOT(me.is_('S')), r.is_('None')))
            return
        if p.holds(NOT(j.is_('Array'))):
            p.require('only objects and arrays have items', r.is_('None'))
            return
        a = j.as_('Array')
        if isinstance(a.v, Op):
            a = a.unbox()
        n = p.e.seq_len(p.st, a.v)
        if p.holds(me.is_('S')):
            p.require('a string does not index an array', r.is_('None'))
            return
        pos = p.holds(me.is_('Pos'))
        i = me.as_('Pos').z if pos else n - me.as_('Neg').z
        name = 'a position indexes an array' if pos else 'a negative position counts from the end'
        ok = AND(i >= 0, i < n)
        p.require(name, r.is_('Some') == ok)
        if p.holds(r.is_('Some')):
            p.require(name, r.as_('Some').t == elem_t(p, a, i))


def elem_t(p, vec, i):
    t = p.e.types[vec.ty].get('args') or [None]
    return uf('elem', Val, z3.IntSort(), Val)(vec.t, i)


@contract('C13', LK + 'PathItem::json_obj_get', 'PathItem::json_obj_get', expect=('an object is looked up by a string key', 'the last of several equal JSON keys counts'))
class ItemJsonObj(Contract):
    def ret(self, p, r):
        me = p.arg(0)
        f, rv = p.events('*Iterator::find_map'), p.events('*Iterator::rev')
        if p.holds(NOT(me.is_('S'))):
            p.require('an object is looked up by a string key', r.is_('None'))
            return
        if len(f) != 1:
            raise Lost('lookup')
        p.require('the last of several equal JSON keys counts', AND(len(rv) == 1, p.V(rv[0].ret).t == p.V(f[0].args[0]).t if rv else False))
        c = p.V(f[0].args[1])
        if not isinstance(c.v, Agg) or 'json_obj_get::{closure' not in p.e.types[c.ty]['fn']:
            raise Lost('closure')
        p.require('an object is looked up by a string key', AND(me.is_('S'), r.eq(p.V(f[0].ret)), p.V(c.v.f[0]).eq(me.as_('S').f('key'))))


@contract('C13', LK + 'PathItem::py_get_item', 'PathItem::py_get_item', expect=('strings are not indexed', 'an item is the result of indexing'))
class ItemPy(Contract):
    idx = 0
    obj = 1

    def ret(self, p, r):
        g = p.events('*::get_item')
        if not g:
            p.require('strings are not indexed', r.is_('None'))
            s = [ev for ev in p.events('*is_instance_of*')]
            if s:
                p.require('strings are not indexed', p.V(s[0].ret).z)
            return
        x = p.V(g[0].ret)
        p.require('an item is the result of indexing', AND(len(g) == 1, p.V(g[0].args[0]).t == p.arg(self.obj).t, p.V(g[0].args[1]).t == p.arg(self.idx).t, r.is_('Some') == x.is_('Ok'), IMP(r.is_('Some'), r.as_('Some').eq(x.as_('Ok')))))


@contract('C13', LK + 'py_get_item', 'py_get_item', expect=('strings are not indexed', 'an item is the result of indexing'))
class ItemPy2(ItemPy):
    idx = 1
    obj = 0


@contract('C13', LK + 'PathItem::py_get_attrs', 'PathItem::py_get_attrs')
class ItemAttrs(Contract):
    def ret(self, p, r):
        me = p.arg(0)
        a, g = p.events('*PathItemString::py_get_attrs'), p.events('*PathItem::py_get_item')
        if p.holds(me.is_('S')):
            p.require('a string element is an attribute', AND(len(a) == 1, *([p.V(a[0].args[0]).eq(me.as_('S')), p.V(a[0].args[1]).t == p.arg(1).t, r.eq(p.V(a[0].ret))] if a else [])))
        else:
            p.require('an int element is an item', AND(NOT(me.is_('S')), len(g) == 1, *([p.V(g[0].args[0]).eq(me), p.V(g[0].args[1]).t == p.arg(1).t, r.is_('Ok'), r.as_('Ok').eq(p.V(g[0].ret))] if g else [])))


@contract('C13', LK + 'PathItemString::py_get_attrs', 'PathItemString::py_get_attrs')
class StringAttrs(Contract):
    def ret(self, p, r):
        a, g = p.events('*lookup_key::py_get_attrs'), p.events('*lookup_key::py_get_item')
        if g:
            p.require('a dict is read by item', AND(len(a) == 0, p.V(g[0].args[0]).t == p.arg(1).t, p.V(g[0].args[1]).eq(p.arg(0)), r.is_('Ok'), r.as_('Ok').eq(p.V(g[0].ret))))
        else:
            p.require('an object is read by attribute', AND(len(a) == 1, *([p.V(a[0].args[0]).t == p.arg(1).t, p.V(a[0].args[1]).eq(p.arg(0).f('py_key')), r.eq(p.V(a[0].ret))] if a else [])))


@contract('C13', LK + 'py_get_attrs', 'py_get_attrs', expect=('an absent attribute is not found', 'another failure is an error', 'an attribute is returned'))
class PyAttrs(Contract):
    def ret(self, p, r):
        g, s = p.events('*::getattr'), p.events('*is_subclass_of*')
        if len(g) != 1:
            raise Lost('getattr')
        x = p.V(g[0].ret)
        p.require('an attribute is returned', AND(p.V(g[0].args[0]).t == p.arg(0).t, p.V(g[0].args[1]).t == p.arg(1).t, IMP(x.is_('Ok'), AND(r.is_('Ok'), r.as_('Ok').is_('Some'), r.as_('Ok').as_('Some').eq(x.as_('Ok'))))))
        if p.holds(x.is_('Err')):
            if len(s) != 1:
                raise Lost('kind of error')
            k = p.V(s[0].ret)
            p.require('an absent attribute is not found', IMP(AND(k.is_('Ok'), k.as_('Ok').z), AND(r.is_('Ok'), r.as_('Ok').is_('None'))))
            p.require('another failure is an error', IMP(NOT(AND(k.is_('Ok'), k.as_('Ok').z)), r.is_('Err')))
