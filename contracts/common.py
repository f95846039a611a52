"""shared views and callee contracts"""
import re
import z3
from mirv.contract import *
from mirv.models import big, panic_if, mk_big, num_of, m_downcast, as_iter
from mirv.engine import trem

DEBUG = False
PC = '_pydantic_core::'
INT = '_pydantic_core::input::return_enums::Int'


def num(x):
    """mathematical value of an integer view (i64/u64/BigInt/Int)"""
    if is_z3(x.v):
        return x.v
    t = x.p.e.types[x.ty]
    if t.get('path') == INT:
        return z3.If(x.is_('I64'), x.as_('I64').z, big(x.as_('Big').v))
    if t.get('path') == 'num_bigint::bigint::BigInt':
        return big(x.v)
    raise Lost('num of ' + t['s'])


def ok_of(r):
    """(is Ok, payload) of a Result view"""
    return r.is_('Ok'), r.as_('Ok')


def single_line_error(p, r):
    """the only ErrorType of an Err(LineErrors([e])) result as a view (None if it is not literally that)"""
    if not isinstance(r.v, Agg):
        return None
    e = r.as_('Err')
    if not isinstance(e.v, Agg):
        return None
    if not p.holds(e.is_('LineErrors')):
        return None
    v = e.as_('LineErrors')
    if not isinstance(v.v, VecV) or v.v.base is not None or len(v.v.items) != 1:
        return None
    return p.V(v.v.items[0]).f('error_type')


def strict_or(p, state, default):
    """ValidationState::strict_or"""
    s = state.f('extra', 'strict')
    return z3.If(s.is_('Some'), s.as_('Some').z, default.z)


# ---- callee contracts of return_enums::Int (discharged in C01: Int::partial_cmp, Int::rem, EitherInt::as_int)
def _int_num(c, i):
    v = c.val(i)
    e = c.e
    if isinstance(v, (Op, Agg)) and v.ty is not None and e.types[e.strip_refs(v.ty)].get('path') == INT:
        tid = e.strip_refs(v.ty)
        if isinstance(v, Op):
            v = Op(tid, v.t)
        d = e.discr(c.st, v, tid)
        vi = e.variant_index(tid, 'I64')
        if isinstance(v, Agg):
            x = v.f[0]
            return x if v.v == vi else num_of(c, x)
        i64 = e.project(c.st, v, tid, vi, 0)
        bg = e.project(c.st, v, tid, e.variant_index(tid, 'Big'), 0)
        return z3.If(d == int(e.types[tid]['v'][vi]['d']), i64, big(bg))
    return None


def int_cmp(c):
    """Int comparison operators order by mathematical value (contract of Int::partial_cmp)"""
    x, y = _int_num(c, 0), _int_num(c, 1)
    if x is None or y is None:
        return NotImplemented
    op = c.path.split('::')[-1]
    return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}[op]


def int_rem(c):
    """Int % Int is the mathematical remainder, x % 0 == x (contract of Int::rem)"""
    x, y = _int_num(c, 0), _int_num(c, 1)
    if x is None or y is None:
        return NotImplemented
    r = c.fresh('rem')
    e = c.e
    vi = e.variant_index(c.dty, 'I64')
    d = e.discr(c.st, r, c.dty)
    i64 = e.project(c.st, r, c.dty, vi, 0)
    bg = e.project(c.st, r, c.dty, e.variant_index(c.dty, 'Big'), 0)
    e.fact(c.st, z3.If(d == int(e.types[c.dty]['v'][vi]['d']), i64, big(bg)) == z3.If(y == 0, x, trem(x, z3.If(y == 0, z3.IntVal(1), y))))
    return r


INT_MODELS = [(('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge',
                'core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne'), int_cmp),
              (('core::ops::arith::Rem::rem',), int_rem)]


def as_int_contract(c):
    """EitherInt::as_int: Ok(the mathematical value) or an error (contract of EitherInt::as_int)"""
    r = c.pure('as_int', log=True)
    return r


def opt_eq(a, b):
    """two Option views are equal"""
    return z3.And(a.is_('Some') == b.is_('Some'), z3.Implies(a.is_('Some'), a.as_('Some').eq(b.as_('Some'))))


# ---- callee contracts of ValidationState (discharged in C09)
def view(c, i):
    return V(P(c.e, c.st, [], None), c.args[i], c.atys[i])


def set_field(c, i, name, val):
    """write a field of the struct behind the &mut argument i"""
    e, st = c.e, c.st
    r = c.args[i]
    while isinstance(r, Ref):
        inner = e.read(st, r.root, r.proj)
        if not isinstance(inner, Ref):
            break
        r = inner
    if isinstance(r, Op):
        root, proj, tid = e.deref(st, r, c.atys[i] if c.atys[i] is not None else r.ty)
        r = Ref(root, proj, tid)
    tid = e.strip_refs(r.ty)
    fi = e.field_index(tid, 0, name)
    e.write(st, r.root, r.proj + (('f', fi, 0, e.field_ty(tid, 0, fi), tid),), val)


def m_strict_or(c):
    """ValidationState::strict_or: the call's strict setting, else the schema's (contract discharged in C09)"""
    s = view(c, 0).f('extra', 'strict')
    return z3.If(s.is_('Some'), s.as_('Some').z, c.val(1))


def exactness_rank(x):
    """Lax 0 < Strict 1 < Exact 2"""
    return z3.If(x.is_('Lax'), 0, z3.If(x.is_('Strict'), 1, 2))


def m_floor_exactness(c):
    """ValidationState::floor_exactness: None stays None, Some(a) becomes Some(min(a, b)) (contract discharged in C09)"""
    e = c.e
    p = P(e, c.st, [], None)
    s = view(c, 0)
    old = s.f('exactness')
    b = V(p, c.args[1], c.atys[1])
    tid = old.ty
    new = e.fresh(c.st, tid, 'exactness')
    nv = V(p, new, tid)
    e.fact(c.st, nv.is_('Some') == old.is_('Some'))
    ra, rb, rn = exactness_rank(old.as_('Some')), exactness_rank(b), exactness_rank(nv.as_('Some'))
    e.fact(c.st, z3.Implies(old.is_('Some'), rn == z3.If(ra <= rb, ra, rb)))
    c.event(UNIT)
    set_field(c, 0, 'exactness', new)
    return UNIT


def m_add_fields_set(c):
    """ValidationState::add_fields_set: the count becomes Some(old count or 0, plus n) (contract discharged in C09)"""
    e = c.e
    p = P(e, c.st, [], None)
    old = view(c, 0).f('fields_set_count')
    n = V(p, c.args[1], c.atys[1])
    c.event(UNIT)
    new = e.fresh(c.st, old.ty, 'fields_set')
    nv = V(p, new, old.ty)
    e.fact(c.st, AND(nv.is_('Some'), nv.as_('Some').z == z3.If(old.is_('Some'), old.as_('Some').z, 0) + n.z))
    set_field(c, 0, 'fields_set_count', new)
    return UNIT


STATE_MODELS = [(("_pydantic_core::validators::validation_state::ValidationState::<'a, 'py>::add_fields_set",), m_add_fields_set), (("_pydantic_core::validators::validation_state::ValidationState::<'a, 'py>::strict_or",), m_strict_or),
                (("_pydantic_core::validators::validation_state::ValidationState::<'a, 'py>::floor_exactness",), m_floor_exactness)]


def m_elp(c):
    """ValidationState::enumerate_last_partial: (index, it is the last item and partial mode is on, item) in order (contract discharged in C26)"""
    ap = view(c, 0).f('allow_partial')
    c.event(UNIT)
    return ItV(c.dty, 'elp', as_iter(c, c.val(1)), z3.IntVal(0), NOT(ap.is_('Off')))


STATE_MODELS.append((("_pydantic_core::validators::validation_state::ValidationState::<'a, 'py>::enumerate_last_partial",), m_elp))


def m_partial_from(c):
    """PartialMode::from(bool) of jiter: false is Off, true is On"""
    e = c.e
    if c.dty is None or e.types[c.dty].get('path') != 'jiter::PartialMode':
        return NotImplemented
    b = c.val(0)
    if not (is_z3(b) and z3.is_bool(b)):
        return NotImplemented
    r = c.pure('partial_mode')
    rv = V(P(e, c.st, [], None), r, c.dty)
    e.fact(c.st, AND(rv.is_('Off') == NOT(b), rv.is_('On') == b))
    return r


STATE_MODELS.append((('full:<jiter::PartialMode as core::convert::From<bool>>::from',), m_partial_from))


class LoopVec:
    """a Vec modified by the loop: what one iteration did to it"""

    def __init__(self, p, L, a, path, entry, head, cur):
        e = p.e
        self.p = p
        self.elem = e.types[e.types[cur.ty]['args'][0]]['s'] if cur.ty is not None else ''
        self.starts_empty = isinstance(entry, VecV) and entry.base is None and not entry.items
        self.entry, self.head, self.cur = entry, head, cur
        hb = head.base
        self.same_base = cur.base is not None and hb is not None and z3.eq(cur.base.t, hb.t)
        self.unchanged = self.same_base and not cur.items and not head.items
        self.appended = [V(p, x) for x in cur.items] if self.same_base else None
        self.head_term = e.term(p.st, head)
        self.cur_term = e.term(p.st, cur)


def loop_vecs(p, L, elem):
    """the vectors with element type matching elem that the loop L may modify (at the back edge / return inside it)"""
    e, out = p.e, []
    for (a, path), tid in L.modified.items():
        hv = e._get(L.hav_mem[a], path)
        if not isinstance(hv, VecV) or hv.ty is None:
            continue
        et = e.types[e.types[hv.ty]['args'][0]]['s']
        if not re.search(elem, et):
            continue
        cur = e._get(p.st.mem[a], path)
        if not isinstance(cur, VecV):
            continue
        out.append(LoopVec(p, L, a, path, e._get(L.entry_mem[a], path), hv, cur))
    return out


def loops(p):
    """[(loop, index of its first event)] of the path, outermost function order"""
    return [(ev.x, i) for i, ev in enumerate(p.st.events) if ev.name == '<loop>']


def extended_by(p, lv, src_pred, res_pred):
    """the vector was extended by map(src): src_pred(view of the source), res_pred(elem view, result view, events) for every element"""
    evs = [ev for ev in p.iter_events() if ev.x is not None and isinstance(ev.x, VecV) and z3.eq(p.e.term(p.st, ev.x), lv.cur_term)]
    if not evs:
        return False
    ev = evs[-1]
    if DEBUG:
        print('EXT', ev.args, ev.post, lv.head_term, [(x[3], x[2]) for x in ev.post.get('summary') or []])
    base_ok = z3.eq(p.e.term(p.st, V(p, ev.args[0]).v), lv.head_term)
    src = ev.post.get('src')
    sm = ev.post.get('summary')
    b = src
    while isinstance(b, ItV):
        if b.kind == 'seq':
            b = b.src
            break
        b = b.src
    if not base_ok or sm is None or not sm:
        return False
    conds = [src_pred(V(p, b))]
    for pc, elem, val, events, s2 in sm:
        p2 = P(p.e, s2, p._args, p.k)
        conds.append(IMP(pc, res_pred(p2, V(p2, elem), V(p2, val), events)))
    return AND(*conds)


def located(index):
    """res_pred: every error gets the index as its outer location"""
    def f(p2, elem, val, events):
        wl = [ev for ev in events if ev.name.endswith('with_outer_location')]
        if len(wl) != 1:
            return False
        return AND(p2.V(wl[0].args[0]).eq(elem), p2.V(wl[0].args[1]).eq(index), p2.V(wl[0].ret).eq(val))
    return f


# ---- schema reading (build functions)
def key_results(p, key, pats=('*SchemaDict*get_as', '*get_as'), src=None):
    """Ok payloads (Option views) of schema lookups of this key"""
    out = []
    for e in p.events(*pats):
        if len(e.args) < 2 or not p.holds(p.V(e.args[1]).eq(key)):
            continue
        if src is not None and not p.holds(p.V(e.args[0]).eq(src)):
            continue
        out.append(p.V(e.ret).as_('Ok'))
    return out


def from_key(p, name, fld, key, default=None, src=None):
    """the field is the schema's value under key (an Option), or with default: value or default"""
    rs = key_results(p, key, src=src)
    if default is None:
        p.require(name, OR(*[opt_eq(fld, x) for x in rs]) if rs else False)
    else:
        p.require(name, OR(*[AND(IMP(x.is_('Some'), fld.eq(x.as_('Some'))), IMP(x.is_('None'), fld.z == default)) for x in rs]) if rs else False)


def from_schema_or_config(p, name, fld, key, cfgkey, default):
    """schema_or_config(schema, config, key, cfgkey) with a default for none"""
    rs = []
    for e in p.events('*build_tools::schema_or_config'):
        if p.holds(AND(p.V(e.args[2]).eq(key), p.V(e.args[3]).eq(cfgkey), p.V(e.args[0]).eq(p.arg(0)), p.V(e.args[1]).eq(p.arg(1)))):
            rs.append(p.V(e.ret).as_('Ok'))
    for e in p.events('*build_tools::schema_or_config_same'):
        if key == cfgkey and p.holds(AND(p.V(e.args[2]).eq(key), p.V(e.args[0]).eq(p.arg(0)), p.V(e.args[1]).eq(p.arg(1)))):
            rs.append(p.V(e.ret).as_('Ok'))
    if default is None:
        p.require(name, OR(*[opt_eq(fld, x) for x in rs]) if rs else False)
    else:
        p.require(name, OR(*[AND(IMP(x.is_('Some'), fld.eq(x.as_('Some'))), IMP(x.is_('None'), fld.z == default)) for x in rs]) if rs else False)


def is_strict_field(p, name, fld):
    rs = [p.V(e.ret).as_('Ok') for e in p.events('*build_tools::is_strict') if p.holds(AND(p.V(e.args[0]).eq(p.arg(0)), p.V(e.args[1]).eq(p.arg(1))))]
    p.require(name, OR(*[fld.z == x.z for x in rs]) if rs else False)


def line_error_types(p, r):
    """the views of the ErrorTypes of a literal Err(LineErrors([..])), else None"""
    if not isinstance(r.v, Agg):
        return None
    e = r.as_('Err')
    if not isinstance(e.v, Agg) or not p.holds(e.is_('LineErrors')):
        return None
    v = e.as_('LineErrors')
    if not isinstance(v.v, VecV):
        return None
    return v.v.base, [p.V(x).f('error_type') for x in v.v.items]


class LoopVar:
    def __init__(self, p, L, a, path, tid):
        e = p.e
        self.ty = e.types[tid]['s']
        self.entry, self.head, self.cur = [V(p, x, tid) for x in (e._get(L.entry_mem[a], path), e._get(L.hav_mem[a], path), e._get(p.st.mem[a], path))]


def loop_vars(p, L, ty):
    """variables modified by the loop whose type matches ty: value at loop entry, at the head of this iteration, now"""
    out = []
    for (a, path), tid in L.modified.items():
        if tid is not None and re.search(ty, p.e.types[tid]['s']):
            out.append(LoopVar(p, L, a, path, tid))
    return out


def m_is_active(c):
    """PartialMode::is_active of jiter: any mode but Off"""
    e = c.e
    r = c.pure('is_active', log=True)
    v = view(c, 0)
    e.fact(c.st, V(P(e, c.st, [], None), r, c.dty).z == NOT(v.is_('Off')))
    return r


STATE_MODELS.append((('jiter::PartialMode::is_active',), m_is_active))


def from_start(p, L, src):
    """the loop L goes over the sequence src (a view) from its first element"""
    out = []
    for (a, path), tid in L.modified.items():
        v = p.e._get(L.entry_mem[a], path)
        if not isinstance(v, ItV):
            continue
        pos = []
        while isinstance(v, ItV) and v.kind in ('seq', 'enumerate', 'enum'):
            pos.append(v.pos)
            if not isinstance(v.src, ItV):
                break
            v = v.src
        if not isinstance(v, ItV) or v.kind != 'seq':
            raise Lost('the iterator of the loop')
        out.append(AND(*[x == 0 for x in pos if x is not None], V(p, v.src).t == src.t))
    if not out:
        raise Lost('the iterator of the loop')
    return OR(*out)


def mentions(t, sub):
    """sub occurs in the term t"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(sub):
            return True
        todo.extend(x.children())
    return False
