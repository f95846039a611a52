"""C20: errors report every failure once, exactly located, in consistent renderings"""
from contracts.common import *
from contracts.fields import nexts

E_ = '_pydantic_core::errors::'
LO, LE, VE, TY = E_ + 'location::', E_ + 'line_error::', E_ + 'validation_exception::', E_ + 'types::'
DUMP = {'roots': [], 'stop': ['*render_message', '*type_string', '*py_dict', '*get_error_url', '*safe_repr', '*write_truncated_to_limited_bytes', '*pretty_py_line_errors', '*get_url_prefix', '*include_url_env', '*maybe_add_cause', '*serialize_infer', '*SchemaDict*', '*to_error_value', '*omit_error', '*use_default_error']}
ASSUMPTIONS = ['a String, tuple or dict built by std / pyo3 holds what it is given, in order', 'serde writes each element and entry it is given once, in order',
               'input values and context values may be anything']


def rev(t):
    return z3.Function('rev', t.sort(), t.sort())(t)


def items_of(loc):
    """the (reversed) items of a Location that is a List"""
    return loc.as_('List')


def pushed(p, new, old, item):
    """the location `new` is `old` with one more item at the outer end"""
    if new.kind() != 'List' and not p.holds(new.is_('List')):
        return False
    v = items_of(new).v
    if not isinstance(v, VecV):
        raise Lost('the items of the location')
    if not v.items:
        return False
    last = p.V(v.items[-1]).eq(item)
    emp = AND(v.base is None, len(v.items) == 1) if v.base is None else False
    if old.kind() == 'Empty' or not p.feasible(old.is_('List')):
        return AND(last, emp)
    o = items_of(old).v
    base = o.base if isinstance(o, VecV) else o
    same = AND(v.base is not None and base is not None and v.base.t.eq(base.t), len(v.items) == 1 + (len(o.items) if isinstance(o, VecV) else 0))
    return AND(last, OR(AND(old.is_('Empty'), emp), AND(old.is_('List'), same)))


# ---------------------------------------------------------------- locations
@contract('C20', LO + 'Location::with_outer', 'Location::with_outer', expect=('one item is added at the outer end',))
class WithOuter(Contract):
    def ret(self, p, r):
        p.require('one item is added at the outer end', pushed(p, p.arg_now(0), p.arg(0), p.arg(1)))


@contract('C20', LO + 'Location::new_some', 'Location::new_some', expect=('the location has this one item',))
class NewSome(Contract):
    def ret(self, p, r):
        v = items_of(r).v
        p.require('the location has this one item', AND(r.is_('List'), isinstance(v, VecV) and v.base is None and len(v.items) == 1 and p.V(v.items[0]).eq(p.arg(0))))




def over(p, it, rev_ok=False):
    """the sequence an adaptor chain goes over (view), read from its first element"""
    v = it
    while isinstance(v, V):
        v = v.v
    while isinstance(v, ItV) and v.kind in ('map', 'cloned') and isinstance(v.src, ItV):
        v = v.src
    if not isinstance(v, ItV) or v.kind != 'seq' or not (z3.is_int_value(v.pos) and v.pos.as_long() == 0):
        raise Lost('the sequence gone over')
    return p.V(v.src)


def fields_eq(p, a, b, names):
    return AND(*[a.f(n).eq(b.f(n)) for n in names])


@contract('C20', '<' + LO + 'Location as *TryFrom<*>>::try_from', 'Location::try_from', expect=('a given location is stored from its inner end, item by item', 'no location is the root'))
class TryFrom(Contract):
    def ret(self, p, r):
        a = p.arg(0)
        if not p.feasible(a.is_('Some')):
            p.require('no location is the root', AND(r.is_('Ok'), r.as_('Ok').is_('Empty')))
            return
        co = p.events('*Iterator::collect')
        if not p.feasible(r.is_('Ok')):
            return
        if len(co) != 1:
            raise Lost('the items of the location')
        src = over(p, co[0].args[0])
        vec = p.V(co[0].ret)
        back = z3.eq(src.t, rev(a.as_('Some').t))
        fwd = z3.eq(src.t, a.as_('Some').t)
        loc = r.as_('Ok')
        given = False
        if p.feasible(loc.is_('List')):
            st = items_of(loc).t
            given = AND(loc.is_('List'), OR(AND(fwd, z3.eq(st, rev(vec.t))), AND(back, z3.eq(st, vec.t))))
        p.require('a given location is stored from its inner end, item by item', OR(AND(loc.is_('Empty'), vec.len() == 0, OR(fwd, back)), given))


class Reversed:
    """the items are given out from the outer end"""
    def seq(self, p, it):
        p.require('items are given from the outer end', over(p, it).t.eq(rev(items_of(p.arg(0)).t)))


@contract('C20', '<&*' + LO + 'Location as *IntoPyObject*>::into_pyobject', 'Location::into_pyobject', expect=('items are given from the outer end', 'the tuple is the location'))
class IntoPy(Contract, Reversed):
    def ret(self, p, r):
        tn = p.events('*PyTuple::new')
        if not p.feasible(p.arg(0).is_('List')):
            p.require('the root is the empty tuple', AND(len(tn) == 0, len(p.events('*get_or_init')) == 1 or len(p.events('*PyTuple::empty')) == 1))
            return
        p.require('the tuple is the location', AND(len(tn) == 1, *([r.eq(p.V(tn[0].ret))] if tn else [])))
        if tn:
            self.seq(p, tn[0].args[1])


@contract('C20', LO + 'Location::new_some::empty_tuple', 'EMPTY_TUPLE', optional=True)
class Nothing(Contract):
    pass


@contract('C20', '<' + LO + 'Location as *Display>::fmt', 'Location::fmt', expect=('items are given from the outer end', 'the text is the items joined by dots'))
class Text(Contract, Reversed):
    def ret(self, p, r):
        if not p.feasible(p.arg(0).is_('List')):
            p.require('the root has no text', r.is_('Ok'))
            return
        co = p.events('*Iterator::collect')
        if len(co) != 1:
            raise Lost('the items of the location')
        self.seq(p, co[0].args[0])
        p.require('the text is the items joined by dots', AND(mentions(r.t, p.V(co[0].ret).t), mentions(r.t, p.e.str_const('.'))))


@contract('C20', '<' + LO + 'Location as *Serialize>::serialize', 'Location::serialize', expect=('every item is written once', 'items are written from the outer end', 'the list has as many entries as items', 'the root is an empty list'))
class Ser(Contract):
    def iter(self, p, L):
        evs = p.iter_events()
        nx, el = nexts(evs), [ev for ev in evs if ev.name.endswith('serialize_element')]
        ok = len(nx) == 1 and len(el) == 1
        p.require('every item is written once', AND(ok, *([p.V(el[0].args[1]).eq(p.V(nx[0].ret).as_('Some')), p.V(el[0].ret).is_('Ok')] if ok else [])))
        p.require('items are written from the outer end', OR(from_start(p, L, Term(rev(items_of(p.arg(0)).t)))))

    def ret(self, p, r):
        if p.L is not None:
            if nexts(p.iter_events()) and p.holds(p.V(nexts(p.iter_events())[0].ret).is_('Some')):
                p.require('only a failure stops the list', AND(r.is_('Err')))
            return
        sq, en = p.events('*serialize_seq'), p.events('*SerializeSeq::end')
        a = p.arg(0)
        if not en:
            return
        n = p.V(sq[0].args[1]).as_('Some').z
        if p.feasible(a.is_('List')):
            p.require('the list has as many entries as items', AND(len(sq) == 1, n == items_of(a).len(), len(loops(p)) == 1))
        else:
            p.require('the root is an empty list', AND(len(sq) == 1, n == 0, not loops(p)))


class Term:
    def __init__(self, t):
        self.t = t


@contract('C20', '<' + LO + 'LocItem as *Serialize>::serialize', 'LocItem::serialize', expect=('an item keeps its kind and value',))
class SerItem(Contract):
    def ret(self, p, r):
        a, w = p.arg(0), [ev for ev in p.st.events if '::serialize_' in ev.name]
        if len(w) != 1:
            raise Lost('what is written')
        n = w[0].name.split('::')[-1]
        kind = 'S' if n == 'serialize_str' else 'I' if n.startswith('serialize_i') else None
        if kind is None:
            raise Lost('what is written')
        x = p.V(w[0].args[1])
        p.require('an item keeps its kind and value', AND(a.is_(kind), x.eq(a.as_('S')) if kind == 'S' else x.z == a.as_('I').z, r.eq(p.V(w[0].ret))))


@contract('C20', '<' + LO + 'LocItem as *Display>::fmt', 'LocItem::fmt', expect=('the text shows the item',))
class ItemText(Contract):
    def ret(self, p, r):
        a = p.arg(0)
        for k in ('S', 'I'):
            if p.feasible(a.is_(k)):
                p.require('the text shows the item', mentions(r.t, a.as_(k).t), abstract=True)


for nm, arg_ in (("From<alloc::string::String>", 'S'), ('From<&str>', 'S'), ('From<&alloc::string::String>', 'S'), ('From<i64>', 'I'), ('From<usize>', 'I'), ('From<*Cow<*>>', 'S')):
    def ret_(self, p, r, k=arg_, nm=nm):
        a = p.arg(0)
        if k == 'I':
            fits = a.z < 2 ** 63
            p.require('the item is the key or index', AND(r.is_('I'), IMP(fits, r.as_('I').z == a.z)))
        else:
            p.require('the item is the key or index', AND(r.is_('S'), OR(r.as_('S').eq(a), mentions(r.as_('S').t, a.t))))
    contract('C20', '<' + LO + 'LocItem as *' + nm + '>::from', 'LocItem ' + nm, expect=('the item is the key or index',), optional=True)(type('FromX', (Contract,), {'ret': ret_}))


@contract('C20', '*<impl core::convert::From<&pyo3::*PyAny>> for *LocItem>::from', 'LocItem from &PyAny', stop=('*safe_repr', '*extract_i64'), expect=('a string is a string item', 'an int is an index', 'anything else is shown by its repr'))
class FromPy(Contract):
    def ret(self, p, r):
        x, s = p.events('*extract_i64'), p.events('*safe_repr')
        if x:
            o = p.V(x[0].ret)
            p.require('an int is an index', AND(len(x) == 1, p.V(x[0].args[0]).eq(p.arg(0)), IMP(o.is_('Some'), AND(r.is_('I'), r.as_('I').z == o.as_('Some').z)), IMP(o.is_('None'), r.is_('S'))))
            if not p.feasible(o.is_('Some')):
                p.require('anything else is shown by its repr', AND(len(s) == 1, *([p.V(s[0].args[0]).eq(p.arg(0)), mentions(r.t, p.V(s[0].ret).t)] if s else [])))
        else:
            tx = p.events('*PyStringMethods::to_string_lossy', '*PyStringMethods::to_str', '*PyStringMethods::to_cow')
            p.require('a string is a string item', AND(r.is_('S'), OR(mentions(r.t, p.arg(0).t), *[AND(mentions(p.V(ev.args[0]).t, p.arg(0).t), mentions(r.t, p.V(ev.ret).t)) for ev in tx])))


# ---------------------------------------------------------------- line errors
@contract('C20', LE + 'ValError::with_outer_location', 'ValError::with_outer_location', stop=('*Location::with_outer',), expect=('every line error gets the item once', 'the errors stay the same otherwise', 'all line errors are visited', 'anything else passes unchanged'))
class Outer(Contract):
    def item(self, p, x):
        return OR(p.V(x).eq(p.arg(1)), mentions(p.V(x).t, p.arg(1).t))

    def iter(self, p, L):
        evs = p.iter_events()
        nx, wo = nexts(evs), [ev for ev in evs if ev.name.endswith('with_outer')]
        ok = len(nx) == 1 and len(wo) == 1
        if ok:
            t = p.V(wo[0].args[0]).t
            pos = [p.e.pos_of(p.e._get(L.hav_mem[a], path)) for (a, path), tid in L.modified.items() if isinstance(p.e._get(L.hav_mem[a], path), ItV)]
            src = p.arg(0).as_('LineErrors').t
            elem = z3.Function('elem', t.sort(), z3.IntSort(), t.sort())
            loc = z3.Function('fld:' + LE + 'ValLineError:ValLineError:location', t.sort(), t.sort())
            p.require('every line error gets the item once', AND(OR(*[t == loc(elem(src, x)) for x in pos]), self.item(p, wo[0].args[1])))
        p.require('every line error gets the item once', ok)
        p.require('all line errors are visited', from_start(p, L, p.arg(0).as_('LineErrors')))

    def ret(self, p, r):
        if p.L is not None:
            raise Lost('a return inside the loop')
        a = p.arg(0)
        if p.feasible(a.is_('LineErrors')):
            p.require('the errors stay the same otherwise', AND(r.is_('LineErrors'), r.as_('LineErrors').len() == a.as_('LineErrors').len(), len(loops(p)) == 1))
        else:
            p.require('anything else passes unchanged', r.eq(a))


def line(p, ln, et, loc, val, inp):
    """the line error ln has this type and location and the error value of this input"""
    te = p.events('*to_error_value')
    return AND(ln.f('error_type').eq(et), loc(ln.f('location')), OR(*[AND(p.V(ev.args[0]).eq(inp), ln.f('input_value').eq(p.V(ev.ret))) for ev in te]) if not val else ln.f('input_value').eq(inp))


def one_item(p, i):
    def f(loc):
        v = items_of(loc).v
        return AND(loc.is_('List'), isinstance(v, VecV) and v.base is None and len(v.items) == 1 and OR(p.V(v.items[0]).eq(p.arg(i)), mentions(p.V(v.items[0]).t, p.arg(i).t)))
    return f


EMPTY = lambda p: (lambda loc: loc.is_('Empty'))
for nm, loc_, val_ in (('new', EMPTY, False), ('new_with_loc', lambda p: one_item(p, 2), False), ('new_custom_input', EMPTY, True), ('new_with_full_loc', lambda p: (lambda l: l.eq(p.arg(2))), False)):
    def r1(self, p, r, loc_=loc_, val_=val_):
        p.require('type, location and input are the given ones', line(p, r, p.arg(0), loc_(p), val_, p.arg(1)))

    def r2(self, p, r, loc_=loc_, val_=val_):
        v = r.as_('LineErrors').v
        if not isinstance(v, VecV):
            raise Lost('the line errors')
        one = v.base is None and len(v.items) == 1
        p.require('there is one line error', AND(r.is_('LineErrors'), one))
        if one:
            p.require('type, location and input are the given ones', line(p, p.V(v.items[0]), p.arg(0), loc_(p), val_, p.arg(1)))
    contract('C20', LE + 'ValLineError::' + nm, 'ValLineError::' + nm, expect=('type, location and input are the given ones',), optional=nm == 'new_with_full_loc')(type('L1', (Contract,), {'ret': r1}))
    if nm != 'new_with_full_loc':
        contract('C20', LE + 'ValError::' + nm, 'ValError::' + nm, expect=('type, location and input are the given ones', 'there is one line error'))(type('L2', (Contract,), {'ret': r2}))


@contract('C20', LE + 'ValLineError::with_outer_location', 'ValLineError::with_outer_location', stop=('*Location::with_outer',), expect=('the item is added once', 'type and input stay'))
class LOuter(Contract):
    def ret(self, p, r):
        wo = p.events('*with_outer')
        p.require('the item is added once', AND(len(wo) == 1, *([p.V(wo[0].args[0]).eq(p.arg(0).f('location')), OR(p.V(wo[0].args[1]).eq(p.arg(1)), mentions(p.V(wo[0].args[1]).t, p.arg(1).t))] if wo else [])))
        p.require('type and input stay', fields_eq(p, r, p.arg(0), ('error_type', 'input_value')))


@contract('C20', LE + 'ValLineError::with_type', 'ValLineError::with_type', expect=('only the type changes',))
class WithType(Contract):
    def ret(self, p, r):
        p.require('only the type changes', AND(r.f('error_type').eq(p.arg(1)), fields_eq(p, r, p.arg(0), ('location', 'input_value'))))


@contract('C20', LE + 'ValLineError::first_loc_item', 'ValLineError::first_loc_item', expect=('the first item is the outer one',))
class First(Contract):
    def ret(self, p, r):
        loc = p.arg(0).f('location')
        if p.feasible(AND(loc.is_('List'), r.is_('Some'))):
            it = items_of(loc)
            elem = z3.Function('elem', it.t.sort(), z3.IntSort(), it.t.sort())
            p.require('the first item is the outer one', AND(loc.is_('List'), it.len() > 0, r.as_('Some').t == elem(it.t, it.len() - 1)))
        else:
            p.require('no item: the root', OR(loc.is_('Empty'), items_of(loc).len() == 0))


# ---------------------------------------------------------------- the exception
@contract('C20', VE + 'PyLineError::from_val_line_error', 'PyLineError::from_val_line_error', expect=('type, location and input are kept',))
class FromVal(Contract):
    def ret(self, p, r):
        if p.feasible(r.is_('Ok')):
            x = r.as_('Ok')
            p.require('type, location and input are kept', AND(fields_eq(p, x, p.arg(1), ('error_type', 'location')), mentions(x.f('input_value').t, p.arg(1).f('input_value').t)))


@contract('C20', '*<impl core::convert::From<*PyLineError> for *ValLineError>::from', 'ValLineError from PyLineError', expect=('type, location and input are kept',))
class Back(Contract):
    def ret(self, p, r):
        p.require('type, location and input are kept', AND(fields_eq(p, r, p.arg(0), ('error_type', 'location')), r.f('input_value').is_('Python'), r.f('input_value').as_('Python').eq(p.arg(0).f('input_value'))))


@contract('C20', VE + 'ValidationError::into_val_error', 'ValidationError::into_val_error', expect=('every listed error is kept, in order',))
class IntoVal(Contract):
    def ret(self, p, r):
        co = p.events('*Iterator::collect')
        if len(co) != 1:
            raise Lost('the line errors')
        p.require('every listed error is kept, in order', AND(r.is_('LineErrors'), over(p, co[0].args[0]).eq(p.arg(0).f('line_errors')), r.as_('LineErrors').t == p.V(co[0].ret).t))


@contract('C20', VE + 'ValidationError::from_val_error', 'ValidationError::from_val_error', stop=('*from_val_line_error', '*ValLineError::with_outer_location'),
          expect=('every line error is listed once, in order', 'every line error gets the outer location', 'the exception has title, input type and settings as given', 'the exception is what is raised', 'other errors pass'))
class FromValError(Contract):
    def ret(self, p, r):
        er = p.arg(3)
        co, bn = p.events('*Iterator::collect'), p.events('pyo3::*Bound*::new')
        if p.feasible(er.is_('LineErrors')):
            if len(co) != 1:
                raise Lost('the line errors')
            c = co[0]
            sm = c.post.get('summary')
            if sm is None:
                raise Lost('the line errors')
            p.require('every line error is listed once, in order', over(p, c.args[0]).eq(er.as_('LineErrors')))
            outer = p.arg(4)
            for pc, elem, val, evs, s2 in sm:
                q = P(p.e, s2, p._args, p.k)
                fv, wl = [ev for ev in evs if ev.name.endswith('from_val_line_error')], [ev for ev in evs if ev.name.endswith('with_outer_location')]
                ok = len(fv) == 1
                p.require('every line error is listed once, in order', AND(ok, *([q.V(fv[0].ret).eq(q.V(val))] if ok else [])))
                if ok:
                    src = q.V(fv[0].args[1])
                    p.require('every line error gets the outer location', IMP(pc, OR(AND(outer.is_('None'), len(wl) == 0, src.eq(q.V(elem))), *([AND(outer.is_('Some'), len(wl) == 1, q.V(wl[0].args[0]).eq(q.V(elem)), q.V(wl[0].args[1]).eq(outer.as_('Some')), src.eq(q.V(wl[0].ret)))] if wl else []))))
            res = p.V(c.ret)
            if not p.feasible(res.is_('Ok')):
                p.require('the exception is what is raised', r.eq(res.as_('Err')))
                return
            ok = len(bn) == 1
            p.require('there is one exception', ok)
            if not ok:
                return
            x = p.V(bn[0].args[1])
            p.require('the exception has title, input type and settings as given', AND(x.f('line_errors').t == res.as_('Ok').t, x.f('title').eq(p.arg(1)), x.f('input_type').eq(p.arg(2)), x.f('hide_input').z == p.arg(5).z))
            fr, ca = p.events('*PyErr::from_value'), p.events('*maybe_add_cause')
            p.require('the cause is only added when asked for', IMP(len(ca) > 0, p.arg(6).z))
            alt = [AND(p.V(bn[0].ret).is_('Err'), r.eq(p.V(bn[0].ret).as_('Err')))] + [AND(r.eq(p.V(ev.ret)), mentions(p.V(ev.args[0]).t, p.V(bn[0].ret).t)) for ev in fr] + [AND(p.V(ev.ret).is_('Some'), r.eq(p.V(ev.ret).as_('Some'))) for ev in ca]
            p.require('the exception is what is raised', OR(*alt))
        elif p.feasible(er.is_('InternalErr')):
            p.require('other errors pass', r.eq(er.as_('InternalErr')))
        else:
            k = p.events('*omit_error', '*use_default_error')
            p.require('other errors pass', AND(len(k) == 1, *([r.eq(p.V(k[0].ret)), er.is_('Omit' if k[0].name.endswith('omit_error') else 'UseDefault')] if k else [])))


@contract('C20', VE + 'ValidationError::error_count', 'ValidationError::error_count', expect=('the count is the number of listed errors',))
class Count(Contract):
    def ret(self, p, r):
        p.require('the count is the number of listed errors', r.z == p.arg(0).f('line_errors').len())


def m_list_new(c):
    """PyList::new draws the items of the iterator, so its closure may run and change what it captured"""
    from mirv.models import closure_fn
    it = c.val(1)
    r = c.fresh('list')
    ev = c.event(r)
    ev.x = it
    v = it
    while isinstance(v, ItV):
        if v.kind == 'map':
            f, fn = closure_fn(c.e, c.st, v.x)
            if isinstance(f, Agg):
                for x in f.f:
                    if isinstance(x, Ref) and isinstance(x.root, int) and c.e.types[x.ty]['k'] != 'ref':
                        old = c.e.read(c.st, x.root, x.proj)
                        if isinstance(old, Agg) and old.ty is not None and c.e.is_enum(old.ty):
                            c.e.write(c.st, x.root, x.proj, c.e.fresh(c.st, old.ty, 'captured'))
        v = v.src
    return r


@contract('C20', VE + 'ValidationError::errors', 'ValidationError::errors', models=[(('pyo3::types::list::PyList::new',), m_list_new)], stop=('*PyLineError::as_dict',), expect=('there is an entry per line error, in order', 'the list is returned', 'the URL is asked for as set'))
class Errors(Contract):
    def ret(self, p, r):
        ln = p.events('*PyList::new')
        if len(ln) != 1:
            raise Lost('the list')
        p.require('there is an entry per line error, in order', over(p, ln[0].args[1]).eq(p.arg(0).f('line_errors')))
        gp = p.events('*get_url_prefix')
        p.require('the URL is asked for as set', AND(len(gp) == 1, *([p.V(gp[0].args[1]).z == p.arg(2).z] if gp else [])))
        if p.feasible(r.is_('Ok')):
            p.require('the list is returned', AND(p.V(ln[0].ret).is_('Ok'), mentions(r.as_('Ok').t, p.V(ln[0].ret).t)))


@contract('C20', VE + 'ValidationError::errors::{closure#0}', 'ValidationError::errors (entry)', stop=('*PyLineError::as_dict',), expect=('an entry is the rendering of its line error', 'a failure is kept'))
class Entry(Contract):
    def ret(self, p, r):
        ad = p.events('*PyLineError::as_dict')
        p.require('a line error is rendered once at most', len(ad) <= 1)
        if len(ad) != 1:
            return
        p.require('an entry is the rendering of its line error', AND(p.V(ad[0].args[0]).eq(p.arg(1)), IMP(p.V(ad[0].ret).is_('Ok'), mentions(r.t, p.V(ad[0].ret).t))))
        p.require('a failure is kept', True)


class Rendered:
    """entries: {key: (events)} of one rendering"""

    def check(self, p, ent, et, loc, inp, it, prefix, ctx, inc):
        def one(k, cond, val, name):
            es = ent.get(k, [])
            p.require('%s: %s' % (k, name), AND(len(es) == 1, *([val(es[0])] if es else [])) if cond is True else
                      (AND(cond, val(es[0]), len(es) == 1) if es else NOT(cond)))
        rm, pd = p.events('*render_message'), p.events('*ErrorType::py_dict')
        ts = p.events('*type_string')
        one('type', True, lambda x: OR(*[AND(x.eq(p.V(ev.ret)), p.V(ev.args[0]).eq(et)) for ev in ts]), 'the type of the error')
        one('loc', True, lambda x: x.eq(loc), 'the location of the error')
        one('msg', True, lambda x: OR(*[AND(x.eq(p.V(ev.ret).as_('Ok')), p.V(ev.args[0]).eq(et), p.V(ev.args[2]).eq(it)) for ev in rm]), 'the message of the error')
        one('input', inc, lambda x: self.input(p, x, inp), 'the input, if included')
        cx = [p.V(ev.ret).as_('Ok') for ev in pd if p.holds(p.V(ev.args[0]).eq(et))]
        one('ctx', AND(ctx, *[c.is_('Some') for c in cx]), lambda x: OR(*[self.ctx(p, x, c.as_('Some')) for c in cx]), 'the context, if included and any')
        ge = p.events('*get_error_url')
        one('url', AND(prefix.is_('Some'), NOT(et.is_('CustomError'))), lambda x: OR(*[AND(x.eq(p.V(ev.ret)), p.V(ev.args[1]).eq(prefix.as_('Some'))) for ev in ge]), 'the URL, if included and not a custom error')
        p.require('nothing else is shown', set(ent) <= {'type', 'loc', 'msg', 'input', 'ctx', 'url'})

    def input(self, p, x, inp):
        return x.eq(inp)

    def ctx(self, p, x, c):
        return x.eq(c)

    def entries(self, p, evs, key=1, val=2):
        out = {}
        for ev in evs:
            k = str(p.V(ev.args[key]).t)
            if not k.startswith('|str"') and not k.startswith('str"'):
                raise Lost('the key of an entry')
            out.setdefault(k.strip('|')[4:-1], []).append(p.V(ev.args[val]))
        return out


EXP = tuple(a + ': ' + b for a, b in (('type', 'the type of the error'), ('loc', 'the location of the error'), ('msg', 'the message of the error'), ('input', 'the input, if included'), ('ctx', 'the context, if included and any'), ('url', 'the URL, if included and not a custom error')))


@contract('C20', VE + 'PyLineError::as_dict', 'PyLineError::as_dict', expect=EXP + ('nothing else is shown',))
class AsDict(Contract, Rendered):
    def ret(self, p, r):
        if not p.feasible(r.is_('Ok')):
            return
        a = p.arg(0)
        self.check(p, self.entries(p, [ev for ev in p.st.events if ev.name.endswith('::set_item')]), a.f('error_type'), a.f('location'), a.f('input_value'), p.arg(4), p.arg(2), p.arg(3).z, p.arg(5).z)


@contract('C20', '<' + VE + 'PyLineErrorSerializer<*> as *Serialize>::serialize', 'PyLineErrorSerializer::serialize', expect=EXP + ('nothing else is shown',))
class AsJson(Contract, Rendered):
    def input(self, p, x, inp):
        return OR(*[AND(x.eq(p.V(ev.ret)), p.V(ev.args[1]).eq(inp)) for ev in p.events('*serialize_infer')])

    def ctx(self, p, x, c):
        return OR(*[AND(x.eq(p.V(ev.ret)), p.V(ev.args[1]).eq(c)) for ev in p.events('*serialize_infer')])

    def ret(self, p, r):
        en = p.events('*SerializeMap::end')
        if not en:
            return
        s = p.arg(0)
        a = s.f('line_error')
        self.check(p, self.entries(p, [ev for ev in p.st.events if ev.name.endswith('::serialize_entry')]), a.f('error_type'), a.f('location'), a.f('input_value'), s.f('input_type'), s.f('url_prefix'), s.f('include_context').z, s.f('include_input').z)


@contract('C20', '<' + VE + 'ValidationErrorSerializer<*> as *Serialize>::serialize', 'ValidationErrorSerializer::serialize', stop=('*PyLineErrorSerializer*',), expect=('every line error is written once, in order', 'the settings are those of the rendering'))
class JsonAll(Contract):
    def iter(self, p, L):
        evs = p.iter_events()
        nx, el = nexts(evs), [ev for ev in evs if ev.name.endswith('serialize_element')]
        ok = len(nx) == 1 and len(el) == 1
        p.require('every line error is written once, in order', AND(ok, from_start(p, L, p.arg(0).f('line_errors'))))
        if ok:
            x = p.V(el[0].args[1])
            p.require('every line error is written once, in order', x.f('line_error').eq(p.V(nx[0].ret).as_('Some')))
            p.require('the settings are those of the rendering', AND(*[x.f(n).eq(p.arg(0).f(n)) for n in ('url_prefix', 'include_context', 'include_input', 'input_type', 'extra')]))

    def ret(self, p, r):
        if p.L is None and p.events('*SerializeSeq::end'):
            p.require('the list has all errors', AND(len(loops(p)) == 1, p.V(p.events('*serialize_seq')[0].args[1]).as_('Some').z == p.arg(0).f('line_errors').len()))


@contract('C20', VE + 'ValidationError::json', 'ValidationError::json', stop=('*with_formatter', '*PythonSerializer*::new', '*ValidationErrorSerializer*', '*SerializationState*'), expect=('all line errors are written with the given settings',))
class Json(Contract):
    def ret(self, p, r):
        if not p.feasible(r.is_('Ok')):
            return
        se, gp = [ev for ev in p.st.events if ev.name.endswith('::serialize') or (ev.res or '').endswith('::serialize')], p.events('*get_url_prefix')
        if len(se) != 1:
            raise Lost('the serializer of the error')
        x, a = p.V(se[0].args[0]), p.arg(0)
        p.require('all line errors are written with the given settings', AND(x.f('line_errors').t == a.f('line_errors').t, x.f('include_context').z == p.arg(4).z, x.f('include_input').z == p.arg(5).z, x.f('input_type').eq(a.f('input_type')),
                  OR(*[AND(x.f('url_prefix').eq(p.V(ev.ret)), p.V(ev.args[1]).z == p.arg(3).z) for ev in gp])))


def m_write_fmt(c):
    """write! appends the formatted text"""
    return c.pure(c.path, log=True)


@contract('C20', VE + 'PyLineError::pretty', 'PyLineError::pretty', models=[(('core::fmt::Write::write_fmt',), m_write_fmt)], expect=('the location comes first', 'the message and the type are shown', 'the input is shown unless hidden', 'the URL is shown if included and not a custom error'))
class Pretty(Contract):
    def ret(self, p, r):
        if not p.feasible(r.is_('Ok')):
            return
        a = p.arg(0)
        wr = p.events('*Write::write_fmt')
        if not wr:
            raise Lost('the text')
        W = [p.V(ev.args[1]).t for ev in wr]
        p.require('the location comes first', mentions(W[0], a.f('location').t))
        rm = p.events('*render_message')
        ts = p.events('*type_string')
        shown = OR(*[AND(p.V(ev.args[0]).eq(a.f('error_type')), p.V(ev.args[2]).eq(p.arg(2)), OR(*[mentions(w, p.V(ev.ret).as_('Ok').t) for w in W])) if p.feasible(p.V(ev.ret).is_('Ok')) else True for ev in rm])
        p.require('the message and the type are shown', AND(shown, OR(*[AND(p.V(ev.args[0]).eq(a.f('error_type')), OR(*[mentions(w, p.V(ev.ret).t) for w in W])) for ev in ts])))
        sr = [ev for ev in p.events('*safe_repr') if p.holds(p.V(ev.args[0]).eq(a.f('input_value')))]
        p.require('the input is shown unless hidden', (len(sr) > 0) == NOT(p.arg(4).z) if not isinstance(NOT(p.arg(4).z), bool) else False)
        ge = p.events('*get_error_url')
        want = AND(p.arg(3).is_('Some'), NOT(a.f('error_type').is_('CustomError')))
        p.require('the URL is shown if included and not a custom error', AND(len(ge) == 1, want, *([p.V(ge[0].args[1]).eq(p.arg(3).as_('Some')), OR(*[mentions(w, p.V(ge[0].ret).t) for w in W])] if ge else [])) if ge else NOT(want))


@contract('C20', VE + 'PyLineError::get_error_url', 'PyLineError::get_error_url', expect=('the URL is the prefix and the type',))
class Url(Contract):
    def ret(self, p, r):
        ts = p.events('*type_string')
        p.require('the URL is the prefix and the type', AND(len(ts) == 1, *([p.V(ts[0].args[0]).eq(p.arg(0).f('error_type')), mentions(r.t, p.arg(1).t), mentions(r.t, p.V(ts[0].ret).t)] if ts else [])))


@contract('C20', VE + 'pretty_py_line_errors', 'pretty_py_line_errors', stop=('*PyLineError::pretty',), expect=('every line error is shown once, in order', 'with the given settings'))
class PrettyAll(Contract):
    def ret(self, p, r):
        co = p.events('*Iterator::collect')
        if len(co) != 1:
            raise Lost('the texts')
        res = p.V(co[0].ret)
        p.require('every line error is shown once, in order', AND(over(p, co[0].args[0]).t == p.arg(2).t, IMP(res.is_('Ok'), mentions(r.t, res.t))))
        for pc, elem, val, evs, s2 in co[0].post.get('summary') or []:
            q = P(p.e, s2, p._args, p.k)
            pr = [ev for ev in evs if ev.name.endswith('PyLineError::pretty')]
            p.require('with the given settings', IMP(pc, AND(len(pr) == 1, *([q.V(pr[0].args[0]).eq(q.V(elem)), q.V(pr[0].ret).eq(q.V(val)), q.V(pr[0].args[2]).eq(p.arg(1)), q.V(pr[0].args[3]).eq(p.arg(3)), q.V(pr[0].args[4]).z == p.arg(4).z] if pr else []))))


@contract('C20', VE + 'ValidationError::display', 'ValidationError::display', expect=('all line errors are shown', 'the header names the count and the title'))
class Display(Contract):
    def ret(self, p, r):
        pp = p.events('*pretty_py_line_errors')
        a = p.arg(0)
        ok = len(pp) == 1
        p.require('all line errors are shown', AND(ok, *([p.V(pp[0].args[1]).eq(a.f('input_type')), over(p, pp[0].args[2]).eq(a.f('line_errors')), p.V(pp[0].args[4]).z == p.arg(3).z, mentions(r.t, p.V(pp[0].ret).t)] if ok else [])))
        if not p.feasible(p.arg(2).is_('Some')):
            n = a.f('line_errors').len()
            p.require('the header names the count and the title', AND(mentions(r.t, n), mentions(r.t, p.e.str_const('s')) == p.holds(n != 1)))


@contract('C20', VE + 'ValidationError::__reduce__', 'ValidationError::__reduce__', stop=('*ValidationError::errors',), expect=('the error is built again from all it has', 'a custom error is given as one'))
class Reduce(Contract):
    def iter(self, p, L):
        pass

    def custom(self, p, evs):
        pass

    def ret(self, p, r):
        if p.L is not None or not p.feasible(r.is_('Ok')):
            return
        er = p.events('*ValidationError::errors')
        bo = p.events('*try_borrow', '*Bound*::borrow')
        ok = len(er) == 1 and len(bo) >= 1
        p.require('the error is built again from all it has', ok)
        if not ok:
            return
        b = p.V(bo[0].ret)
        if bo[0].name.endswith('try_borrow'):
            b = b.as_('Ok')
        fld = lambda n: z3.Function('fld:' + VE + 'ValidationError:ValidationError:' + n, b.t.sort(), b.t.sort())(b.t)
        need = [fld('title'), p.V(er[0].ret).as_('Ok').t, fld('input_type'), fld('hide_input')]
        p.require('the error is built again from all it has', AND(*[mentions(r.t, x) for x in need]))
        p.require('the list has context and input', AND(p.V(er[0].args[3]).z, p.V(er[0].args[4]).z))

    def iter(self, p, L):
        evs = p.iter_events()
        nx = nexts(evs)
        if len(nx) != 1:
            raise Lost('the line errors')
        it = p.V(nx[0].ret).as_('Some')
        ln, d = it.f(0), it.f(1)
        si = [ev for ev in evs if ev.name.endswith('set_item')]
        cu = ln.f('error_type').is_('CustomError')
        if not si:
            p.require('a custom error is given as one', NOT(cu))
            return
        ca = [ev for ev in evs if ev.name.endswith('::call1')]
        ok = len(ca) == 1 and len(si) == 1
        p.require('a custom error is given as one', AND(cu, ok, *([p.V(si[0].args[0]).eq(d), p.V(si[0].args[1]).eq('type'), p.V(si[0].args[2]).eq(p.V(ca[0].ret).as_('Ok'))] if ok else [])))
        if ok:
            et = ln.f('error_type').as_('CustomError', None) if False else None
            x = p.V(ca[0].args[1])
            fs = [z3.Function('fld:' + TY + 'ErrorType:CustomError:' + n, ln.t.sort(), ln.t.sort())(ln.f('error_type').t) for n in ('error_type', 'message_template', 'context')]
            p.require('a custom error is given as one', AND(*[mentions(x.t, f) for f in fs]))


@contract('C20', '<' + VE + 'PyLineError as *TryFrom<*>>::try_from', 'PyLineError::try_from', stop=('*ErrorType::new', '*new_custom_error', '*Location as *try_from'), expect=('the type is the given one', 'the location is the given one', 'the input is the given one'))
class FromDict(Contract):
    def ret(self, p, r):
        if not p.feasible(r.is_('Ok')):
            return
        x = r.as_('Ok')
        ne, nc, lt = p.events('*ErrorType::new'), p.events('*new_custom_error'), p.events('*Location*try_from', '*TryFrom*try_from')
        gi = {}
        for ev in p.st.events:
            if ev.name.endswith('get_item') or ev.name.endswith('get_as'):
                for k in ('type', 'ctx', 'loc', 'input'):
                    if p.holds(p.V(ev.args[1]).eq(k)):
                        gi.setdefault(k, []).append(p.V(ev.ret).as_('Ok'))
        if any(len(gi.get(k, [])) != 1 for k in ('type', 'loc', 'input')):
            raise Lost('the items of the dict')
        ty = gi['type'][0].as_('Some')
        p.require('the type is the given one', OR(*[AND(mentions(p.V(ev.args[1]).t, ty.t), x.f('error_type').eq(p.V(ev.ret).as_('Ok')), len(gi.get('ctx', [])) == 1 and p.V(ev.args[2]).eq(gi['ctx'][0])) for ev in ne],
                  *[AND(OR(mentions(p.V(ev.args[1]).t, ty.t), *[AND(p.V(z.args[0]).t == ty.t, mentions(p.V(ev.args[1]).t, p.V(z.ret).t)) for z in p.events('*PyAnyMethods::extract')]), x.f('error_type').eq(p.V(ev.ret))) for ev in nc]))
        p.require('the location is the given one', OR(*[AND(p.V(ev.args[0]).is_('Some') == gi['loc'][0].is_('Some'), IMP(gi['loc'][0].is_('Some'), p.V(ev.args[0]).as_('Some').t == gi['loc'][0].as_('Some').t) if p.feasible(gi['loc'][0].is_('Some')) else True, x.f('location').eq(p.V(ev.ret).as_('Ok'))) for ev in lt]))
        i = gi['input'][0]
        p.require('the input is the given one', IMP(i.is_('Some'), x.f('input_value').t == i.as_('Some').t))


@contract('C20', VE + 'ValidationError::from_exception_data', 'ValidationError::from_exception_data', stop=('*PyLineError as *try_from', '*InputType as *try_from'), expect=('the error is built from every entry, in order',))
class FromData(Contract):
    def ret(self, p, r):
        ca, co = p.events('*PyAnyMethods::call1'), p.events('*Iterator::collect')
        if not ca:
            return
        if len(co) != 1:
            raise Lost('the entries')
        a = p.V(ca[0].args[1]).t
        p.require('the error is built from every entry, in order', AND(len(ca) == 1, r.eq(p.V(ca[0].ret)), over(p, co[0].args[0]).t == p.arg(2).t, mentions(a, p.arg(1).t), mentions(a, p.V(co[0].ret).as_('Ok').t), mentions(a, p.arg(4).z)))


# ---------------------------------------------------------------- messages and contexts
DUMP['stop'].append('*PydanticCustomError*format_message')
COUNTS = ('min_length', 'max_length', 'max_digits', 'decimal_places', 'whole_digits')


def variants(p, et):
    """[(name, [(field, term of its value)])] of the error types the path allows"""
    t = p.e.types[p.e.strip_refs(et.ty)]
    out = []
    for v in t['v']:
        if not p.feasible(et.is_(v['n'])):
            continue
        out.append((v['n'], [(n, ft, z3.Function('fld:%s:%s:%s' % (t['path'], v['n'], n), et.t.sort(), et.t.sort())(et.t)) for n, ft in v['f'] if n != 'context']))
    return out


def derived(p, t, sub, depth=6):
    """t is computed from sub (through the results of calls)"""
    if mentions(t, sub):
        return True
    if depth == 0:
        return False
    for ev in p.st.events:
        if ev.ret is None:
            continue
        try:
            rt = p.V(ev.ret).t
        except Exception:
            continue
        if mentions(t, rt) and any(derived(p, p.V(a).t, sub, depth - 1) for a in ev.args if not isinstance(a, ItV)):
            return True
    return False


def lit(t):
    s = str(t).strip('|')
    return s[4:-1] if s.startswith('str"') else None


@contract('C20', TY + 'ErrorType::render_message', 'ErrorType::render_message', stop=('*message_template_python', '*message_template_json'),
          expect=('every value of the context is filled in under its own name', 'the template is the one of the input type', 'a plural is one iff the count is not 1', 'a custom message is built from its template and context'))
class Render(Contract):
    def ret(self, p, r):
        if not p.feasible(r.is_('Ok')):
            return
        et, py = p.arg(0), p.arg(2).is_('Python')
        if p.feasible(et.is_('CustomError')):
            fm = p.events('*format_message')
            if len(fm) != 1:
                raise Lost('the message of a custom error')
            fld = lambda n: z3.Function('fld:' + TY + 'ErrorType:CustomError:' + n, et.t.sort(), et.t.sort())(et.t)
            a = p.V(fm[0].args[1])
            c = fld('context')
            some = z3.Function('fld:core::option::Option:Some:0', c.sort(), c.sort())(c)
            p.require('a custom message is built from its template and context', AND(et.is_('CustomError'), r.eq(p.V(fm[0].ret)), p.V(fm[0].args[0]).t == fld('message_template'), IMP(a.is_('Some'), mentions(a.as_('Some').t, some)) if p.feasible(a.is_('Some')) else True, a.is_('Some') == (z3.Function('discr', c.sort(), z3.IntSort())(c) == 1)))
            return
        cur, got = r.as_('Ok').t, []
        while True:
            ev = [ev for ev in p.st.events if ev.name.endswith('::replace') and z3.eq(p.V(ev.ret).t, cur)]
            if not ev:
                break
            got.append((lit(p.V(ev[0].args[1]).t), p.V(ev[0].args[2])))
            cur = p.V(ev[0].args[0]).t
        tm = [ev for ev in p.events('*message_template_python', '*message_template_json') if derived(p, cur, p.V(ev.ret).t)]
        if len(tm) != 1 or any(x[0] is None for x in got):
            raise Lost('how the message is built')
        p.require('the template is the one of the input type', py if tm[0].name.endswith('python') else NOT(py))
        for name, fs in variants(p, et):
            for n, ft, term in fs:
                v = [x for k, x in got if k == '{' + n + '}']
                opt = 'option::Option' in p.e.types[ft]['s']
                p.require('every value of the context is filled in under its own name', AND(len(v) == 1, OR(*[derived(p, x.t, term) or (opt and 'str"' in str(x.t) and not p.feasible(z3.Function('discr', term.sort(), z3.IntSort())(term) == 1)) for x in v])), note=name + '.' + n)
            for k, x in got:
                p.require('nothing else is filled in', k[1:-1] in [n for n, _, _ in fs] + ['expected_plural'], note=name + k)
            pl = [x for k, x in got if k == '{expected_plural}']
            cn = [term for n, _, term in fs if n in COUNTS]
            if pl and cn:
                c = z3.Function('val.int', cn[0].sort(), z3.IntSort())(cn[0])
                fn = [ev for ev in p.events('*::plural_s') if mentions(pl[0].t, p.V(ev.ret).t)]
                p.require('a plural is one iff the count is not 1', derived(p, p.V(fn[0].args[0]).t, cn[0]) if fn else AND(IMP(c == 1, pl[0].eq('')), IMP(c != 1, pl[0].eq('s'))), note=name)


@contract('C20', TY + 'plural_s', 'plural_s', optional=True, expect=('singular or plural',))
class Plural(Contract):
    def ret(self, p, r):
        p.require('singular or plural', OR(r.eq(''), r.eq('s')))


class Template:
    def ret(self, p, r):
        s = lit(r.t)
        if s is None:
            if p.events('*message_template_python'):
                p.require('a json message without its own text is the python one', r.eq(p.V(p.events('*message_template_python')[0].ret)))
                return
            raise Lost('the template')
        ph = set(re.findall(r'\{(\w+)\}', s))
        for name, fs in variants(p, p.arg(0)):
            if name == 'CustomError':
                continue
            ok = {n for n, _, _ in fs}
            if any(n in COUNTS for n in ok):
                ok.add('expected_plural')
            p.require('a template only names values of its own context', ph <= ok, note=name)


for n in ('python', 'json'):
    contract('C20', TY + 'ErrorType::message_template_' + n, 'ErrorType::message_template_' + n, stop=('*message_template_python',) if n == 'json' else (), expect=('a template only names values of its own context',))(type('T_' + n, (Template, Contract), {}))


@contract('C20', TY + 'ErrorType::py_dict_update_ctx', 'ErrorType::py_dict_update_ctx', expect=('every value of the context is stored under its own name', 'the given context is added last', 'whether there is a given context is returned'))
class Ctx(Contract):
    def ret(self, p, r):
        if not p.feasible(r.is_('Ok')):
            return
        et = p.arg(0)
        si, up = p.events('*PyDictMethods::set_item', '*PyAnyMethods::set_item'), p.events('*PyDictMethods::update')
        ks = [(lit(p.V(ev.args[1]).t), p.V(ev.args[2])) for ev in si]
        if any(k is None for k, _ in ks):
            raise Lost('the names of the context')
        for name, fs in variants(p, et):
            p.require('every value of the context is stored under its own name', AND(sorted(k for k, _ in ks) == sorted(n for n, _, _ in fs), *[OR(*[derived(p, x.t, term) for k, x in ks if k == n]) for n, _, term in fs]), note=name)
            c = z3.Function('fld:%sErrorType:%s:context' % (TY, name), et.t.sort(), et.t.sort())(et.t)
            has = z3.Function('discr', c.sort(), z3.IntSort())(c) == 1
            p.require('whether there is a given context is returned', r.as_('Ok').z == has, note=name)
            p.require('the given context is added last', AND(has == (len(up) == 1), *([mentions(p.V(up[0].args[1]).t, c), p.V(up[0].args[0]).eq(p.arg(2)), all(p.st.events.index(x) < p.st.events.index(up[0]) for x in si)] if up else [])), note=name)
        p.require('every value of the context is stored under its own name', AND(*[p.V(ev.args[0]).eq(p.arg(2)) for ev in si]))


@contract('C20', TY + 'ErrorType::py_dict', 'ErrorType::py_dict', stop=('*py_dict_update_ctx',), expect=('a custom error shows its own context', 'the context is shown if there is any'))
class PyDict_(Contract):
    def ret(self, p, r):
        if not p.feasible(r.is_('Ok')):
            return
        et, r = p.arg(0), r.as_('Ok')
        up = p.events('*py_dict_update_ctx')
        if p.feasible(et.is_('CustomError')):
            c = z3.Function('fld:' + TY + 'ErrorType:CustomError:context', et.t.sort(), et.t.sort())(et.t)
            has = z3.Function('discr', c.sort(), z3.IntSort())(c) == 1
            some = z3.Function('fld:core::option::Option:Some:0', c.sort(), c.sort())(c)
            p.require('a custom error shows its own context', AND(et.is_('CustomError'), r.is_('Some') == has, IMP(has, derived(p, r.as_('Some').t, some) if p.feasible(r.is_('Some')) else True)))
            p.require('a custom error keeps all of its context', not p.events('*del_item'))
            return
        if len(up) != 1:
            raise Lost('the context')
        d, used = p.V(up[0].args[2]), p.V(up[0].ret).as_('Ok').z
        p.require('the context is shown if there is any', IMP(used, r.is_('Some')))
        if p.feasible(r.is_('Some')):
            p.require('the context is shown if there is any', IMP(r.is_('Some'), mentions(r.as_('Some').t, d.t)))


@contract('C20', TY + 'ErrorType::new', 'ErrorType::new', stop=('*field_from_context', '*build_lookup*'), expect=('the type is the one of this name', 'every value comes from the context under its own name', 'the context is kept'))
class NewType(Contract):
    def ret(self, p, r):
        if not p.feasible(r.is_('Ok')):
            return
        x = r.as_('Ok')
        lk = [ev for ev in p.st.events if ev.name.endswith('HashMap::<K, V, S>::get') or ev.name.endswith('::get')]
        if len(lk) != 1 or not isinstance(x.v, Agg):
            raise Lost('the lookup of the type')
        t = p.e.types[x.v.ty]
        v = t['v'][x.v.v]
        o = p.V(lk[0].ret).as_('Some')
        p.require('the type is the one of this name', AND(p.V(lk[0].args[1]).eq(p.arg(1)), o.is_(v['n'])), note=v['n'])
        for i, (n, ft) in enumerate(v['f']):
            if n == 'context':
                c = p.V(x.v.f[i], ft)
                p.require('the context is kept', AND(c.is_('Some') == p.arg(2).is_('Some'), IMP(p.arg(2).is_('Some'), mentions(c.as_('Some').t, p.arg(2).as_('Some').t)) if p.feasible(p.arg(2).is_('Some')) else True), note=v['n'])
                continue
            evs = [ev for ev in p.events('*field_from_context') if lit(p.V(ev.args[1]).t) == n]
            p.require('every value comes from the context under its own name', AND(len(evs) == 1, *[derived(p, p.V(x.v.f[i], ft).t, p.V(ev.ret).t) for ev in evs]), note=v['n'] + '.' + n)


@contract('C20', TY + 'ErrorType::type_string', 'ErrorType::type_string', expect=('a custom error has its own type',))
class TypeString(Contract):
    def ret(self, p, r):
        et = p.arg(0)
        fld = z3.Function('fld:' + TY + 'ErrorType:CustomError:error_type', et.t.sort(), et.t.sort())(et.t)
        if p.feasible(et.is_('CustomError')):
            p.require('a custom error has its own type', AND(et.is_('CustomError'), mentions(r.t, fld)))
        else:
            p.require('any other error has the name of its type', mentions(r.t, et.t))


from mirv.contract import REGISTRY
from mirv.models import m_rev, m_reverse
for _c in REGISTRY['C20']:
    _c.shared_models = [(('core::iter::traits::iterator::Iterator::rev',), m_rev), (('core::slice::<impl [T]>::reverse',), m_reverse)]
