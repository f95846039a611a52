"""Assumed contracts of functions outside /repo (std, pyo3, num-bigint, jiter, speedate, ...) - every entry here is an
unchecked assumption and is listed as such in the evidence of the checks that used it."""
import z3
from .engine import (FP, Agg, Op, Ref, VecV, ItV, FnV, UNIT, Unsupported, Val, F64, uf, is_z3, trem, tdiv, int_range, wrap)

MODELS = []
DOC = {}


def model(*pats, doc=None):
    def d(f):
        MODELS.append((pats, f))
        DOC[f.__name__] = (pats, doc or (f.__doc__ or '').strip())
        return f
    return d


# ------------------------------------------------------------------ transparent conversions
@model('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', 'core::borrow::Borrow::borrow', 'pyo3::instance::Py::<T>::clone_ref',
       'core::borrow::BorrowMut::borrow_mut')
def m_clone(c):
    """clone/to_owned/borrow return an equal value"""
    if 'Duration' in c.callee['full'] and False:
        return NotImplemented
    v = c.val(0)
    return v


TRANSPARENT = [
    'pyo3::instance::Py::<T>::bind', 'pyo3::instance::Py::<T>::into_bound', 'pyo3::instance::Py::<T>::bind_borrowed', 'pyo3::instance::Bound::<*>::unbind',
    'pyo3::instance::Bound::<*>::into_any', 'pyo3::instance::Bound::<*>::as_any', 'pyo3::instance::Py::<T>::into_any', 'pyo3::instance::Py::<T>::as_any',
    'pyo3::instance::Bound::<*>::as_unbound', 'pyo3::instance::Bound::<*>::as_borrowed', 'pyo3::instance::Bound::<*>::into_py', 'pyo3::instance::Bound::<*>::to_owned',
    'pyo3::instance::BoundObject::*', 'pyo3::instance::Borrowed::<*>::to_owned', 'pyo3::instance::Bound::<*>::borrow',
    'alloc::boxed::Box::<T>::new', 'alloc::sync::Arc::<T>::new', 'alloc::rc::Rc::<T>::new', 'alloc::boxed::Box::<T, A>::into_inner',
    'alloc::string::String::as_str', 'alloc::string::String::as_mut_str', 'alloc::string::String::into_boxed_str', 'alloc::str::<impl str>::into_string',
    'alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::into_boxed_slice', 'alloc::string::String::from',
    'alloc::str::<impl str>::to_string', 'alloc::string::ToString::to_string:str', 'alloc::borrow::Cow::<*>::into_owned', 'core::mem::maybe_uninit::MaybeUninit::<T>::assume_init*', 'core::mem::maybe_uninit::MaybeUninit::<T>::as_*', 'core::mem::maybe_uninit::MaybeUninit::<T>::new',
    'alloc::vec::Vec::<T, A>::as_mut_slice', 'alloc::slice::<impl [T]>::into_vec', 'alloc::slice::<impl [T]>::to_vec',
    'alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned', 'core::str::<impl str>::as_bytes', 'alloc::string::String::into_bytes',
    'core::str::<impl str>::as_ref', 'alloc::string::String::as_bytes', 'core::hint::must_use', 'core::hint::black_box', 'core::convert::identity',
    'pyo3::types::any::PyAnyMethods::downcast_unchecked', 'pyo3::types::any::PyAnyMethods::downcast_into_unchecked', 'pyo3::instance::Bound::<*>::downcast_unchecked',
    'alloc::sync::Arc::<T>::from', 'pyo3::sync::Interned::get', 'pyo3::instance::Bound::<*>::clone', 'pyo3::types::dict::PyDictMethods::as_mapping',
    'core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'core::convert::AsRef::as_ref', 'core::convert::AsMut::as_mut',
]


@model(*TRANSPARENT)
def m_transparent(c):
    """reference-count/type-view conversions return the same object"""
    if c.callee['path'] in ('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'core::convert::AsRef::as_ref',
                            'core::convert::AsMut::as_mut') and c.callee.get('key'):
        return NotImplemented
    a = c.args[0]
    if isinstance(a, Op):
        return Op(c.dty, a.t) if c.dty is not None else a
    if isinstance(a, Ref):
        inner = c.val(0)
        if isinstance(inner, Op) and c.e.types[c.dty]['k'] == 'ref' and not c.e.types[c.dty]['m']:
            # &Wrapper<T> -> &T: same object
            return Op(c.dty, inner.t)
        if isinstance(inner, Op) and c.e.types[c.dty]['k'] not in ('ref',):
            return c.e.mat(c.st, c.dty, inner.t)
        # &mut Wrapper -> &mut T where the wrapper is a Box: strip one level
        t0 = c.e.types[c.e.strip_refs(a.ty)] if a.ty is not None else None
        cur = c.e.read(c.st, a.root, a.proj)
        if isinstance(cur, Ref):
            return cur
        return a
    return a


@model('core::convert::From::from', 'core::convert::Into::into')
def m_from(c):
    """non-local From conversions: numbers convert exactly, strings/py objects keep their identity"""
    if c.callee.get('key'):
        return NotImplemented
    e, st = c.e, c.st
    v = c.val(0)
    dt = e.types[c.dty]
    if c.atys and c.atys[0] is not None and c.atys[0] == c.dty:
        return c.args[0]
    if is_z3(v) and z3.is_int(v) and dt['k'] == 'int':
        return v
    if is_z3(v) and z3.is_bool(v) and dt['k'] == 'int':
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if is_z3(v) and z3.is_int(v) and dt['k'] == 'float':
        return e.i2f(c.st, v)
    if dt['k'] == 'adt' and dt['path'] == 'num_bigint::bigint::BigInt':
        if is_z3(v) and z3.is_int(v):
            return mk_big(c, v)
    if dt['k'] == 'adt' and dt['path'] in ('alloc::string::String', 'alloc::boxed::Box', 'alloc::sync::Arc', 'pyo3::instance::Py', 'pyo3::instance::Bound', 'alloc::borrow::Cow'):
        if isinstance(v, Op) and dt['path'] != 'alloc::borrow::Cow':
            return Op(c.dty, v.t)
        if dt['path'] in ('alloc::boxed::Box', 'alloc::sync::Arc'):
            return v
    if dt['k'] == 'adt' and dt['path'] == 'alloc::borrow::Cow' and isinstance(v, Op):
        src = c.e.tys(v.ty)
        return c.variant('Owned' if 'String' in src else 'Borrowed', v)
    if dt['k'] == 'adt' and dt['path'] == 'alloc::vec::Vec' and isinstance(v, Agg):
        return VecV(c.dty, None, v.f)
    return c.pure()


# ------------------------------------------------------------------ vec![..]
@model('alloc::boxed::Box::<T>::new_uninit')
def m_newuninit(c):
    """Box::new_uninit: a fresh uninitialised cell"""
    to = c.e.types[c.dty]['args'][0]
    return Ref(c.e.alloc(c.st, to, None), (), to)


@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def m_box2vec(c):
    """vec![a, b, ..]: exactly these items"""
    v = c.val(0)
    while isinstance(v, Agg) and v.ty is not None and len(v.f) == 2 and v.f[0] is None:
        v = v.f[1]
    if isinstance(v, Agg):
        return VecV(c.dty, None, v.f)
    raise Unsupported(f'vec! of {v}')


# ------------------------------------------------------------------ mem
@model('core::mem::replace')
def m_replace(c):
    """mem::replace"""
    old = deref1(c, 0)
    c.write_ref(0, c.args[1])
    return old


def deref1(c, i):
    """value directly behind the reference argument i"""
    a = c.args[i]
    if isinstance(a, Ref):
        v = c.e.read(c.st, a.root, a.proj)
        return v
    root, proj, tid = c.e.deref(c.st, a, c.atys[i] if c.atys[i] is not None else a.ty)
    c.args[i] = Ref(root, proj, tid)
    return c.e.read(c.st, root, proj)


@model('core::mem::swap')
def m_swap(c):
    """mem::swap"""
    a, b = deref1(c, 0), deref1(c, 1)
    c.write_ref(0, b)
    c.write_ref(1, a)
    return UNIT


@model('core::mem::take')
def m_take(c):
    """mem::take of Vec/bool/int/Option"""
    old = deref1(c, 0)
    t = c.e.types[c.dty]
    if isinstance(old, VecV):
        new = VecV(c.dty, None, ())
    elif t['k'] == 'bool':
        new = z3.BoolVal(False)
    elif t['k'] == 'int':
        new = z3.IntVal(0)
    elif t['k'] == 'adt' and t['path'] == 'core::option::Option':
        new = c.opt(None)
    else:
        new = c.fresh('default')
    c.write_ref(0, new)
    return old


@model('core::intrinsics::discriminant_value', 'core::mem::discriminant')
def m_discr(c):
    """discriminant_value"""
    a = c.args[0]
    v = deref1(c, 0)
    while isinstance(v, Ref):
        v = c.e.read(c.st, v.root, v.proj)
    tid = v.ty if isinstance(v, (Op, Agg)) and v.ty is not None else None
    if tid is None:
        raise Unsupported('discriminant of untyped value')
    tid = c.e.strip_refs(tid)
    d = c.e.discr(c.st, v if isinstance(v, Agg) else Op(tid, v.t), tid)
    if c.e.types[c.dty]['k'] != 'int':
        return Agg(c.dty, 0, [d])
    return d


# ------------------------------------------------------------------ comparisons of scalars and opaque values
CMP = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b}
FCMP = {'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}


def num_of(c, v):
    """(sort, term) of scalar or BigInt values"""
    if is_z3(v):
        return v
    if isinstance(v, Op):
        t = c.e.types[c.e.strip_refs(v.ty)]
        if t['k'] == 'adt' and t['path'] == 'num_bigint::bigint::BigInt':
            return big(v)
        if t['k'] in ('int', 'char', 'bool', 'float'):
            return c.e.mat(c.st, c.e.strip_refs(v.ty), v.t)
    return None


def big(v):
    return uf('big', Val, z3.IntSort())(v.t)


def mk_big(c, x, tid=None):
    e = c.e
    tid = tid if tid is not None else c.dty
    t = uf('mk.big', z3.IntSort(), Val)(x)
    v = Op(tid, t)
    e.fact(c.st, big(v) == x)
    return v


@model('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def m_eq(c):
    """== on scalars, strings, PathBuf-like values and BigInt is equality of the abstract values"""
    if c.callee.get('key'):
        return NotImplemented
    a, b = c.val(0), c.val(1)
    x, y = num_of(c, a), num_of(c, b)
    ne = c.path.endswith('::ne')
    if x is not None and y is not None and x.sort() == y.sort():
        r = z3.fpEQ(x, y) if z3.is_fp(x) else x == y
    else:
        r = c.e.eqv(c.st, a, b)
    return z3.Not(r) if ne else r


@model('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge')
def m_cmp(c):
    """<,<=,>,>= on scalars and BigInt; on local types the operator is PartialOrd::partial_cmp"""
    a, b = c.val(0), c.val(1)
    x, y = num_of(c, a), num_of(c, b)
    op = c.path.split('::')[-1]
    if x is not None and y is not None and x.sort() == y.sort():
        return FCMP[op](x, y) if z3.is_fp(x) else CMP[op](x, y)
    if c.callee.get('key'):
        return NotImplemented
    e = c.e
    tids = [e.strip_refs(v.ty) for v in (a, b) if isinstance(v, (Op, Agg)) and v.ty is not None]
    if len(tids) == 2 and tids[0] == tids[1]:
        t = e.types[tids[0]]
        if t['k'] == 'adt' and t.get('kind') == 'enum' and t.get('crate') == '_pydantic_core' and all(not vv['f'] for vv in t['v']):
            # derived order of a field-less enum: by declaration order
            def rank(v):
                d = e.discr(c.st, Op(tids[0], v.t) if isinstance(v, Op) else v, tids[0])
                r = z3.IntVal(len(t['v']))
                for i, vv in reversed(list(enumerate(t['v']))):
                    r = z3.If(d == int(vv['d']), z3.IntVal(i), r)
                return r
            return CMP[op](rank(a), rank(b))
    # uninterpreted order on opaque values
    t = uf('ord.lt', Val, Val, z3.BoolSort())
    ta, tb = c.e.term(c.st, a), c.e.term(c.st, b)
    eq = ta == tb
    return {'lt': t(ta, tb), 'le': z3.Or(t(ta, tb), eq), 'gt': t(tb, ta), 'ge': z3.Or(t(tb, ta), eq)}[op]


def ordering(c, x, y, tid):
    """Ordering value for ints x,y"""
    e = c.e
    t = e.fresh_term('ordering')
    v = Op(tid, t)
    d = e.discr(c.st, v, tid)
    ds = {vv['n']: int(vv['d']) for vv in e.types[tid]['v']}
    e.fact(c.st, d == z3.If(x < y, z3.IntVal(ds['Less']), z3.If(x == y, z3.IntVal(ds['Equal']), z3.IntVal(ds['Greater']))))
    return v


@model('core::cmp::Ord::cmp', 'core::cmp::PartialOrd::partial_cmp')
def m_ord(c):
    """cmp/partial_cmp on integers, floats and BigInt"""
    if c.callee.get('key'):
        return NotImplemented
    a, b = c.val(0), c.val(1)
    x, y = num_of(c, a), num_of(c, b)
    e = c.e
    if x is None or y is None or x.sort() != y.sort():
        return c.pure('cmp')
    if c.path.endswith('partial_cmp'):
        ot = e.types[c.dty]['v'][1]['f'][0][1] if e.types[c.dty]['v'][1]['n'] == 'Some' else e.types[c.dty]['v'][0]['f'][0][1]
        if z3.is_fp(x):
            vi = {v['n']: i for i, v in enumerate(e.types[ot]['v'])}
            return [(z3.fpLT(x, y), c.opt(Agg(ot, vi['Less'], ())), None), (z3.fpGT(x, y), c.opt(Agg(ot, vi['Greater'], ())), None),
                    (z3.fpEQ(x, y), c.opt(Agg(ot, vi['Equal'], ())), None),
                    (z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y)), c.opt(None), None)]
        return c.opt(ordering(c, x, y, ot))
    return ordering(c, x, y, c.dty)


@model('core::cmp::Ord::max', 'core::cmp::Ord::min', 'core::cmp::max', 'core::cmp::min')
def m_maxmin(c):
    """max/min on integers"""
    x, y = num_of(c, c.val(0)), num_of(c, c.val(1))
    if x is None or y is None or not z3.is_int(x):
        return NotImplemented
    return z3.If(x >= y, x, y) if c.path.endswith('max') else z3.If(x <= y, x, y)


# ------------------------------------------------------------------ integer arithmetic through traits
@model('core::ops::arith::Add::add', 'core::ops::arith::Sub::sub', 'core::ops::arith::Mul::mul', 'core::ops::arith::Rem::rem', 'core::ops::arith::Div::div',
       'core::ops::arith::Neg::neg', 'core::ops::bit::Not::not')
def m_arith(c):
    """arithmetic on BigInt is mathematical; on primitive integers through the operator traits it is checked (a panic obligation)"""
    if c.callee.get('key'):
        return NotImplemented
    e, st = c.e, c.st
    op = c.path.split('::')[-1]
    xs = [num_of(c, c.val(i)) for i in range(len(c.args))]
    if any(x is None for x in xs):
        return c.pure()
    dt = e.types[c.dty]
    a = xs[0]
    b = xs[1] if len(xs) > 1 else None
    if op == 'not' and z3.is_bool(a):
        return z3.Not(a)
    if z3.is_fp(a):
        return {'add': lambda: FP.add(a, b), 'sub': lambda: FP.sub(a, b), 'mul': lambda: FP.mul(a, b),
                'div': lambda: FP.div(a, b), 'rem': lambda: e.fmod(st, a, b), 'neg': lambda: z3.fpNeg(a)}[op]()
    f = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'rem': lambda: trem(a, b), 'div': lambda: tdiv(a, b), 'neg': lambda: -a}.get(op)
    if f is None:
        return c.pure()
    r = f()
    if dt['k'] == 'int':
        lo, hi = int_range(dt['b'], dt['sg'])
        if op in ('rem', 'div'):
            panic_if(c, b == 0, f'{op}_by_zero')
            if dt['sg']:
                panic_if(c, z3.And(a == lo, b == -1), f'overflow:{op.capitalize()}')
        else:
            panic_if(c, z3.Not(z3.And(r >= lo, r <= hi)), f'overflow:{op.capitalize()}')
        return r
    if op in ('rem', 'div'):
        panic_if(c, b == 0, f'{op}_by_zero')
    return mk_big(c, r)


def panic_if(c, cond, msg):
    """the callee panics when cond holds: record the obligation and continue under its negation"""
    e, st = c.e, c.st
    e.solver.push()
    e.solver.add(cond)
    r = e.check()
    m = e.solver.model() if r == z3.sat else None
    e.solver.pop()
    if not e.probing:
        e.panic_ob(st, c.fr, msg, c.ln, r, m)
    e.assume(st, z3.Not(cond))


@model('core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into')
def m_tryfrom(c):
    """integer TryFrom: Ok(x) iff x is representable"""
    if c.callee.get('key'):
        return NotImplemented
    e = c.e
    v = c.val(0)
    x = num_of(c, v)
    dt = e.types[c.dty]
    if x is None or not z3.is_int(x) or dt.get('path') != 'core::result::Result':
        return c.pure()
    ok = dt['v'][e.variant_index(c.dty, 'Ok')]['f'][0][1]
    er = dt['v'][e.variant_index(c.dty, 'Err')]['f'][0][1]
    t = e.types[ok]
    if t['k'] == 'int':
        lo, hi = int_range(t['b'], t['sg'])
    elif t['k'] == 'char':
        return c.pure()
    else:
        return c.pure()
    inr = z3.And(x >= lo, x <= hi)
    errv = Op(er, uf('tryfrom.err', Val, Val)(e.term(c.st, v)))
    return [(inr, c.variant('Ok', x), None), (z3.Not(inr), c.variant('Err', errv), None)]


@model('num_bigint::bigint::BigInt::try_from_*')
def m_bigerr(c):
    return c.pure()


# ------------------------------------------------------------------ i64/usize helpers
@model('core::num::<impl *>::checked_add', 'core::num::<impl *>::checked_sub', 'core::num::<impl *>::checked_mul')
def m_checked(c):
    """checked integer arithmetic"""
    x, y = num_of(c, c.val(0)), num_of(c, c.val(1))
    op = c.path.split('_')[-1]
    r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
    it = c.e.types[c.dty]['v'][c.e.variant_index(c.dty, 'Some')]['f'][0][1]
    t = c.e.types[it]
    lo, hi = int_range(t['b'], t['sg'])
    inr = z3.And(r >= lo, r <= hi)
    return [(inr, c.opt(r), None), (z3.Not(inr), c.opt(None), None)]


@model('core::bool::<impl bool>::then_some')
def m_then_some(c):
    """bool::then_some: Some(x) exactly when true"""
    b = c.val(0)
    return [(b, c.opt(c.args[1]), None), (z3.Not(b), c.opt(None), None)]


@model('core::num::<impl *>::saturating_sub', 'core::num::<impl *>::saturating_add')
def m_sat(c):
    """saturating integer arithmetic"""
    x, y = num_of(c, c.val(0)), num_of(c, c.val(1))
    t = c.e.types[c.dty]
    lo, hi = int_range(t['b'], t['sg'])
    r = x - y if c.path.endswith('sub') else x + y
    return z3.If(r < lo, z3.IntVal(lo), z3.If(r > hi, z3.IntVal(hi), r))


@model('core::num::<impl *>::wrapping_sub', 'core::num::<impl *>::wrapping_add', 'core::num::<impl *>::wrapping_mul')
def m_wrapping(c):
    """wrapping integer arithmetic"""
    x, y = num_of(c, c.val(0)), num_of(c, c.val(1))
    t = c.e.types[c.dty]
    op = c.path.split('_')[-1]
    return wrap({'add': x + y, 'sub': x - y, 'mul': x * y}[op], t['b'], t['sg'])


@model('core::num::<impl *>::wrapping_rem', 'core::num::<impl *>::wrapping_div')
def m_wrem(c):
    """wrapping remainder/division: MIN % -1 == 0; a zero divisor panics"""
    x, y = num_of(c, c.val(0)), num_of(c, c.val(1))
    t = c.e.types[c.dty]
    panic_if(c, y == 0, 'rem_by_zero')
    return trem(x, y) if c.path.endswith('rem') else wrap(tdiv(x, y), t['b'], t['sg'])


@model('core::num::<impl *>::abs', 'core::num::<impl *>::unsigned_abs')
def m_iabs(c):
    """integer abs"""
    x = num_of(c, c.val(0))
    if c.path.endswith('::abs'):
        t = c.e.types[c.dty]
        panic_if(c, x == int_range(t['b'], True)[0], 'overflow:Neg')
    return z3.If(x >= 0, x, -x)


@model('core::num::<impl *>::is_negative', 'core::num::<impl *>::is_positive')
def m_isneg(c):
    """integer sign tests"""
    x = num_of(c, c.val(0))
    return x < 0 if c.path.endswith('negative') else x > 0


@model('core::num::<impl *>::div_euclid', 'core::num::<impl *>::rem_euclid')
def m_euclid(c):
    """Euclidean division"""
    x, y = num_of(c, c.val(0)), num_of(c, c.val(1))
    panic_if(c, y == 0, 'div_by_zero')
    return x / y if c.path.endswith('div_euclid') else x % y


# ------------------------------------------------------------------ floats
@model('core::f64::<impl f64>::is_nan', 'std::f64::<impl f64>::is_nan')
def m_isnan(c):
    """f64::is_nan"""
    return z3.fpIsNaN(c.val(0))


@model('core::f64::<impl f64>::is_finite')
def m_isfinite(c):
    """f64::is_finite"""
    x = c.val(0)
    return z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x)))


@model('core::f64::<impl f64>::is_infinite')
def m_isinf(c):
    """f64::is_infinite"""
    return z3.fpIsInf(c.val(0))


@model('core::f64::<impl f64>::abs', 'std::f64::<impl f64>::abs', 'std::num::f64::<impl f64>::abs', 'core::num::f64::<impl f64>::abs')
def m_fabs(c):
    """f64::abs"""
    return z3.fpAbs(c.val(0))


@model('*<impl f64>::floor', '*<impl f64>::ceil', '*<impl f64>::trunc', '*<impl f64>::round')
def m_fround(c):
    """f64 rounding functions"""
    return getattr(FP, c.path.split('::')[-1])(c.val(0))


@model('*<impl f64>::fract')
def m_fract(c):
    """f64::fract"""
    x = c.val(0)
    return FP.sub(x, FP.trunc(x))


@model('*<impl f64>::is_sign_negative', '*<impl f64>::is_sign_positive')
def m_fsign(c):
    """f64 sign tests (NaN sign unspecified)"""
    x = c.val(0)
    b = z3.fpIsNegative(x)
    return b if c.path.endswith('negative') else z3.Not(b)


# ------------------------------------------------------------------ Vec
def vecval(c, i=0):
    v = c.val(i)
    return v


@model('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity', 'core::default::Default::default', 'smallvec::SmallVec::<A>::new',
       'alloc::vec::Vec::<T, A>::with_capacity_in')
def m_vecnew(c):
    """new Vec is empty"""
    t = c.e.types[c.dty]
    if t['k'] == 'adt' and t['path'] in ('alloc::vec::Vec',):
        return VecV(c.dty, None, ())
    if c.callee.get('key'):
        return NotImplemented
    if c.path == 'core::default::Default::default':
        if t['k'] == 'bool':
            return z3.BoolVal(False)
        if t['k'] == 'int':
            return z3.IntVal(0)
        if t['k'] == 'adt' and t['path'] == 'core::option::Option':
            return c.opt(None)
        return c.e.mat(c.st, c.dty, z3.Const('default:' + t['s'], Val))
    return c.opaque()


@model('alloc::vec::Vec::<T, A>::push')
def m_push(c):
    """Vec::push appends"""
    v = c.val(0)
    if not isinstance(v, VecV):
        if isinstance(v, Op):
            v = VecV(v.ty, v, ())
        else:
            raise Unsupported(f'push on {v}')
    c.event(UNIT)
    c.write_ref(0, VecV(v.ty, v.base, v.items + (c.args[1],)))
    return UNIT


@model('pyo3::types::dict::PyDictMethods::len', 'alloc::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', 'pyo3::types::list::PyListMethods::len', 'pyo3::types::tuple::PyTupleMethods::len',
       'pyo3::types::set::PySetMethods::len', 'pyo3::types::frozenset::PyFrozenSetMethods::len', 'core::str::<impl str>::len', 'alloc::string::String::len')
def m_len(c):
    """len() is the length of the sequence (deterministic between mutations)"""
    return c.e.seq_len(c.st, c.val(0))


@model('alloc::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty', 'alloc::string::String::is_empty',
       'pyo3::types::list::PyListMethods::is_empty', 'pyo3::types::tuple::PyTupleMethods::is_empty')
def m_isempty(c):
    """is_empty() iff len()==0"""
    return c.e.seq_len(c.st, c.val(0)) == 0


@model('alloc::vec::Vec::<T, A>::last', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::first')
def m_last(c):
    """first/last element"""
    e = c.e
    v = c.val(0)
    it = e.types[c.dty]['v'][e.variant_index(c.dty, 'Some')]['f'][0][1]
    n = e.seq_len(c.st, v)
    et = e.types[it]['to']
    def some(s):
        ix = z3.IntVal(0) if c.path.endswith('first') else z3.simplify(n - 1)
        if isinstance(v, VecV) and v.items and c.path.endswith('last'):
            return Agg(c.dty, e.variant_index(c.dty, 'Some'), (Ref(('val', v.items[-1]), (), et),))
        x = e.index(s, v, ix, et)
        return Agg(c.dty, e.variant_index(c.dty, 'Some'), (Ref(('val', x), (), et) if not isinstance(x, Op) else Op(it, x.t),))
    return [(n > 0, some, None), (n == 0, c.opt(None), None)]


@model('core::slice::<impl [T]>::get', 'pyo3::types::tuple::PyTupleMethods::get_borrowed_item_opt')
def m_get(c):
    """slice.get(i)"""
    e = c.e
    v = c.val(0)
    ix = c.val(1)
    if not is_z3(ix):
        return NotImplemented if c.callee.get('key') else c.pure()
    it = e.types[c.dty]['v'][e.variant_index(c.dty, 'Some')]['f'][0][1]
    et = e.types[it].get('to', it)
    n = e.seq_len(c.st, v)
    def some(s):
        x = e.index(s, v, ix, et)
        return Agg(c.dty, e.variant_index(c.dty, 'Some'), (Ref(('val', x), (), et) if not isinstance(x, Op) else Op(it, x.t),))
    return [(ix < n, some, None), (ix >= n, c.opt(None), None)]


@model('core::ops::index::Index::index')
def m_index(c):
    """v[i] (panics out of range)"""
    if c.callee.get('key') and c.callee['local']:
        return NotImplemented
    e = c.e
    v, ix = c.val(0), c.val(1)
    if not is_z3(ix):
        return c.pure()
    n = e.seq_len(c.st, v)
    panic_if(c, z3.Not(z3.And(ix >= 0, ix < n)), 'bounds')
    et = e.types[c.dty]['to']
    x = e.index(c.st, v, ix, et)
    return Ref(('val', x), (), et) if not isinstance(x, Op) else Op(c.dty, x.t)


@model('alloc::vec::Vec::<T, A>::clear', 'alloc::vec::Vec::<T, A>::truncate')
def m_clear(c):
    """clear"""
    v = c.val(0)
    c.event(UNIT)
    if c.path.endswith('clear') and isinstance(v, VecV):
        c.write_ref(0, VecV(v.ty, None, ()))
    else:
        c.havoc_muts()
    return UNIT


@model('core::iter::traits::collect::Extend::extend', 'alloc::vec::Vec::<T, A>::extend*', 'alloc::vec::Vec::<T, A>::append')
def m_extend(c):
    """extend appends all items of its argument, in order"""
    v = c.val(0)
    src = c.args[1]
    ev = c.event(UNIT)
    if isinstance(v, VecV):
        t = uf('vec.extend', Val, Val, Val)(c.e.term(c.st, v), c.e.term(c.st, src))
        nv = VecV(v.ty, Op(v.ty, t), ())
        n0 = c.e.seq_len(c.st, v)
        n1 = c.e.seq_len(c.st, nv)
        try:
            add = c.e.seq_len(c.st, base_seq(c.e.load(c.st, src)))
            kind = iter_kinds(c.e.load(c.st, src))
            if kind <= {'seq', 'map', 'enumerate', 'cloned'}:
                c.e.fact(c.st, n1 == n0 + add)
            else:
                c.e.fact(c.st, n1 >= n0)
        except Unsupported:
            c.e.fact(c.st, n1 >= n0)
        ev.x = nv
        ev.post = {'summary': map_summary(c, c.e.load(c.st, src)), 'src': c.e.load(c.st, src)}
        c.write_ref(0, nv)
    else:
        c.havoc_muts(skip=(1,))
    return UNIT


def base_seq(v):
    while isinstance(v, ItV):
        v = v.src
    return v


def iter_kinds(v):
    s = set()
    while isinstance(v, ItV):
        s.add(v.kind)
        v = v.src
    return s


# ------------------------------------------------------------------ iterators
def as_iter(c, v, ty=None):
    e = c.e
    if isinstance(v, ItV):
        return v
    if isinstance(v, (Op, VecV, Agg)):
        return ItV(ty, 'seq', v, z3.IntVal(0))
    raise Unsupported(f'iterate {v}')


ITER_SRC = ['core::iter::traits::collect::IntoIterator::into_iter', 'core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'pyo3::types::list::PyListMethods::iter',
            'pyo3::types::tuple::PyTupleMethods::iter', 'pyo3::types::dict::PyDictMethods::iter', 'alloc::vec::Vec::<T, A>::drain', 'pyo3::types::set::PySetMethods::iter',
            'pyo3::types::frozenset::PyFrozenSetMethods::iter', 'pyo3::types::tuple::PyTupleMethods::iter_borrowed', 'core::iter::traits::iterator::Iterator::by_ref',
            'smallvec::SmallVec::<A>::iter']


@model(*ITER_SRC)
def m_iter(c):
    """iterating a sequence visits elem(seq,0), elem(seq,1), ... elem(seq,len-1) in order"""
    if c.callee.get('key') and c.callee['local'] and c.path == 'core::iter::traits::collect::IntoIterator::into_iter':
        if not (c.callee['res'] or '').startswith('<I as core'):
            return NotImplemented
    if c.path.endswith('by_ref'):
        return c.args[0]
    a = c.args[0]
    v = c.val(0)
    if isinstance(v, ItV):
        if isinstance(a, Ref) and c.e.types[c.dty]['k'] == 'ref':
            return a
        return v
    if isinstance(v, Agg) and v.ty is not None and c.e.types[v.ty]['k'] == 'adt' and 'Range' in c.e.types[v.ty]['path']:
        return v
    if isinstance(v, Agg) and v.ty is not None and c.e.types[v.ty]['k'] == 'adt' and c.e.types[v.ty]['path'] == 'core::option::Option':
        return v
    if isinstance(v, Op) and v.ty is not None and c.e.types[c.e.strip_refs(v.ty)].get('path') == 'core::option::Option':
        return c.pure('opt.iter')
    if is_z3(v):
        raise Unsupported('iterate scalar')
    if isinstance(a, Ref) and (c.callee['res'] or '').startswith('<I as core'):
        tt = c.e.types[c.e.strip_refs(a.ty)]
        if tt['k'] == 'adt' and tt['crate'] == '_pydantic_core':
            if isinstance(v, Op):
                r = a
                while isinstance(c.e.read(c.st, r.root, r.proj), Ref):
                    r = c.e.read(c.st, r.root, r.proj)
                c.e.write(c.st, r.root, r.proj, c.e.open_struct(c.st, v, v.ty))
            return a
    return as_iter(c, v, c.dty)


@model('core::mem::maybe_uninit::MaybeUninit::<T>::write')
def m_uninit_write(c):
    """MaybeUninit::write stores its argument"""
    c.write_ref(0, c.args[1])
    return c.args[0]


@model('core::iter::traits::iterator::Iterator::take')
def m_take(c):
    """take"""
    it = as_iter(c, c.val(0))
    if it.kind != 'seq':
        raise Unsupported('take of an adaptor')
    return ItV(c.dty, 'take', it, None, z3.simplify(it.pos + c.val(1)))


@model('core::iter::traits::iterator::Iterator::enumerate')
def m_enum(c):
    """enumerate"""
    if iter_local(c):
        return NotImplemented
    return ItV(c.dty, 'enumerate', as_iter(c, c.val(0)), z3.IntVal(0))


def iter_local(c):
    return False


def closure_fn(e, st, clos):
    """(closure value, its MIR function) or (value, None)"""
    f = e.load(st, clos)
    if isinstance(f, Agg) and f.ty is not None and e.types[f.ty]['k'] == 'closure':
        return f, e.fns.get(e.types[f.ty]['fn'])
    return f, None


def map_summary(c, it):
    """what the closure of a map adaptor does to an arbitrary element: [(extra path condition, element, result, events, state)]"""
    e, st = c.e, c.st
    if not isinstance(it, ItV) or it.kind != 'map':
        return None
    f, fn = closure_fn(e, st, it.x)
    if e.opts.get('debug'):
        0 and print('map_summary of', f, fn and fn['path'])
    if fn is None:
        return None
    out = []
    s = st.fork()
    e.solver.push()
    try:
        inner = fn['locals'][2]
        item = e.mat(s, inner, z3.Const(f'map.elem.{inner}', Val))
        a = Ref(e.alloc(s, f.ty, f), (), f.ty) if e.types[fn['locals'][1]]['k'] == 'ref' else f
        n0, ne = len(s.pc), len(s.events)

        def hook(s2, val):
            out.append((z3.And([z3.BoolVal(True)] + [x for x in s2.pc[n0:] if z3.is_expr(x)]), item, val, s2.events[ne:], s2))
            return True
        e.push_fn(s, fn, [a, item], None, None, hook)
        e.run(s)
    except Unsupported as x:
        if e.opts.get('debug'):
            0 and print('map_summary', x)
        return None
    finally:
        e.solver.pop()
    return out


@model('core::iter::traits::iterator::Iterator::map')
def m_map(c):
    """lazy map"""
    return ItV(c.dty, 'map', as_iter(c, c.val(0)), None, c.args[1])


@model('core::iter::traits::iterator::Iterator::cloned', 'core::iter::traits::iterator::Iterator::copied', 'core::iter::traits::iterator::Iterator::fuse')
def m_cloned(c):
    """cloned/copied/fuse keep the items"""
    return ItV(c.dty, 'cloned', as_iter(c, c.val(0)), None)


def reversed_seq(c, src):
    """the sequence src read from its end"""
    o = Op(src.ty, uf('rev', Val, Val)(c.e.term(c.st, src)))
    c.e.fact(c.st, c.e.seq_len(c.st, o) == c.e.seq_len(c.st, src))
    c.e.fact(c.st, uf('rev', Val, Val)(o.t) == c.e.term(c.st, src))
    return o


def m_rev(c):
    """rev visits a whole sequence from its end"""
    it = as_iter(c, c.val(0))
    if it.kind == 'seq' and z3.is_int_value(it.pos) and it.pos.as_long() == 0:
        return ItV(c.dty, 'seq', reversed_seq(c, it.src), z3.IntVal(0))
    raise Unsupported('rev of an adapted iterator')


def m_reverse(c):
    """reverse turns the sequence around in place"""
    v = c.val(0)
    if not isinstance(v, (VecV, Op)):
        raise Unsupported(f'reverse of {v}')
    o = reversed_seq(c, v)
    c.event(UNIT)
    c.write_ref(0, VecV(v.ty, o, ()) if isinstance(v, VecV) else o)
    return UNIT


@model('core::iter::traits::iterator::Iterator::zip')
def m_zip(c):
    """zip pairs items"""
    b = c.val(1)
    if not isinstance(b, ItV):
        b = as_iter(c, b)
    return ItV(c.dty, 'zip', as_iter(c, c.val(0)), None, b)


@model('core::iter::traits::iterator::Iterator::skip')
def m_skip(c):
    """skip(n) starts n items later"""
    n = c.val(1)
    def adv(it):
        if it.kind == 'seq':
            ln = c.e.seq_len(c.st, it.src)
            p = z3.If(it.pos + n <= ln, it.pos + n, ln)
            d = c.e.decide(c.st, it.pos + n <= ln)
            if d is True:
                p = it.pos + n
            return ItV(it.ty, 'seq', it.src, z3.simplify(p), it.x), p - it.pos
        inner, k = adv(it.src)
        pos = None if it.pos is None else z3.simplify(it.pos + k)
        if it.kind in ('map', 'zip'):
            raise Unsupported('skip after map')
        return ItV(it.ty, it.kind, inner, pos, it.x), k
    return adv(as_iter(c, c.val(0)))[0]


def next_outcomes(c, st, it, item_ty):
    """[(cond, new_iter, item value or None)]; items by value or reference according to item_ty"""
    e = c.e
    if it.kind == 'seq':
        n = e.seq_len(st, it.src)
        def item(s):
            src = it.src
            t = e.types[item_ty]
            et = t['to'] if t['k'] == 'ref' else item_ty
            x = e.index(s, src, it.pos, et) if not isinstance(src, Op) else e.mat(s, et, uf('elem', Val, z3.IntSort(), Val)(src.t, it.pos))
            if t['k'] == 'ref' and not isinstance(x, Op):
                return Ref(('val', x), (), et)
            if t['k'] == 'ref':
                return Op(item_ty, x.t)
            return x
        return [(it.pos < n, ItV(it.ty, 'seq', it.src, z3.simplify(it.pos + 1), it.x), item), (it.pos >= n, it, None)]
    if it.kind == 'enumerate':
        t = e.types[item_ty]
        outs = []
        for cnd, ni, itf in next_outcomes(c, st, it.src, t['f'][1]):
            if itf is None:
                outs.append((cnd, ItV(it.ty, 'enumerate', ni, it.pos), None))
            else:
                outs.append((cnd, ItV(it.ty, 'enumerate', ni, z3.simplify(it.pos + 1)), lambda s, itf=itf: Agg(item_ty, 0, (it.pos, itf(s)))))
        return outs
    if it.kind == 'take':
        outs = [(it.src.pos >= it.x, it, None)]
        for cnd, ni, itf in next_outcomes(c, st, it.src, item_ty):
            outs.append((z3.And(it.src.pos < it.x, cnd), ItV(it.ty, 'take', ni, None, it.x), itf))
        return outs
    if it.kind == 'cloned':
        # item type by value
        return [(cnd, ItV(it.ty, 'cloned', ni), itf) for cnd, ni, itf in next_outcomes(c, st, it.src, item_ty)]
    if it.kind == 'zip':
        t = e.types[item_ty]
        outs = []
        for c1, n1, i1 in next_outcomes(c, st, it.src, t['f'][0]):
            if i1 is None:
                outs.append((c1, ItV(it.ty, 'zip', n1, None, it.x), None))
                continue
            for c2, n2, i2 in next_outcomes(c, st, it.x, t['f'][1]):
                if i2 is None:
                    outs.append((z3.And(c1, c2), ItV(it.ty, 'zip', n1, None, n2), None))
                else:
                    outs.append((z3.And(c1, c2), ItV(it.ty, 'zip', n1, None, n2), lambda s, i1=i1, i2=i2: Agg(item_ty, 0, (i1(s), i2(s)))))
        return outs
    if it.kind == 'elp':
        t = e.types[item_ty]
        outs = []
        b = it
        while b.kind != 'seq':
            b = b.src
        last = z3.And(it.x, b.pos + 1 == e.seq_len(st, b.src))
        for cnd, ni, itf in next_outcomes(c, st, it.src, t['f'][2]):
            if itf is None:
                outs.append((cnd, ItV(it.ty, 'elp', ni, it.pos, it.x), None))
            else:
                outs.append((cnd, ItV(it.ty, 'elp', ni, z3.simplify(it.pos + 1), it.x), lambda s, itf=itf: Agg(item_ty, 0, (it.pos, last, itf(s)))))
        return outs
    raise Unsupported(f'next on {it.kind}')


@model('core::iter::traits::iterator::Iterator::next')
def m_next(c):
    """Iterator::next"""
    e, st = c.e, c.st
    v = deref1(c, 0)
    n = 0
    ref = c.args[0]
    while isinstance(v, Ref) and n < 4:
        ref = v
        v = e.read(st, v.root, v.proj)
        n += 1
    if not isinstance(v, ItV) and c.callee.get('key') in e.fns and '_pydantic_core' in c.callee['key'].split(' @ ')[0]:
        return NotImplemented
    t = e.types[c.dty]
    item_ty = t['v'][e.variant_index(c.dty, 'Some')]['f'][0][1]
    if isinstance(v, Agg) and v.ty is not None and e.types[v.ty]['k'] == 'adt' and e.types[v.ty]['crate'] == '_pydantic_core':
        # <&mut I as Iterator>::next forwards to the crate's iterator
        ks = [k for k, f in e.fns.items() if f['path'].startswith('<' + e.types[v.ty]['path']) and f['path'].endswith('Iterator>::next')]
        if ks and len({e.fns[k]['path'] for k in ks}) == 1:
            c.callee = dict(c.callee, key=ks[0])
            c.args = [ref]
            return NotImplemented
    if isinstance(v, Agg) and v.ty is not None and e.types[v.ty]['k'] == 'adt' and e.types[v.ty]['path'].endswith('range::Range'):
        lo, hi = v.f[0], v.f[1]
        def adv(s):
            e.write(s, ref.root, ref.proj, Agg(v.ty, 0, (z3.simplify(lo + 1), hi)))
            return c.opt(lo)
        return [(lo < hi, adv, 'next=Some'), (lo >= hi, c.opt(None), 'next=None')]
    if isinstance(v, Op):
        v = ItV(v.ty, 'seq', v, z3.IntVal(0))
    if not isinstance(v, ItV):
        raise Unsupported(f'next on {v}')
    # map adaptors call their closure on the item of the inner iterator
    if v.kind == 'map':
        return next_map(c, v, ref, item_ty)
    outs = []
    for cnd, ni, itf in next_outcomes(c, st, v, item_ty):
        def g(s, ni=ni, itf=itf):
            r = c.opt(None) if itf is None else c.opt(itf(s))
            e.write(s, ref.root, ref.proj, ni)
            ev = c_event(c, s, 'next', [base_seq(v)], r)
            ev.x = (v, ni)
            return r
        outs.append((cnd, g, 'next=Some' if itf is not None else 'next=None'))
    return outs


def c_event(c, s, name, args, ret):
    from .engine import Event
    ev = Event('<' + name + '>', None, c.callee['full'], args, args, ret, c.ln, c.fr.fn['path'], c.callee)
    s.events.append(ev)
    return ev


def next_map(c, v, ref, item_ty):
    e, st = c.e, c.st
    clos = v.x
    f = e.load(st, clos)
    fn = None
    if isinstance(f, Agg) and f.ty is not None and e.types[f.ty]['k'] == 'closure':
        fn = e.fns.get(e.types[f.ty]['fn'])
    if fn is None:
        raise Unsupported('map with an opaque function')
    inner_ty = fn['locals'][2]
    outs = []
    dst, bb, dty = c.dst, c.bb, c.dty
    for cnd, ni, itf in next_outcomes(c, st, v.src, inner_ty):
        nit = ItV(v.ty, 'map', ni, None, v.x)
        outs.append((cnd, nit, itf))
    todo = []
    for cnd, nit, itf in outs:
        todo.append((cnd, nit, itf))

    def run_some(s, nit, itf):
        e.write(s, ref.root, ref.proj, nit)
        item = itf(s)
        a = Ref(e.alloc(s, f.ty, f), (), f.ty) if e.types[fn['locals'][1]]['k'] == 'ref' else f
        e.push_fn(s, fn, [a, item], dst, bb, lambda s2, val: c.opt(val))
    for k, (cnd, nit, itf) in enumerate(todo):
        e.solver.push()
        try:
            s = st.fork()
            e.assume(s, cnd)
            if e.check() != z3.unsat:
                if itf is None:
                    e.write(s, ref.root, ref.proj, nit)
                    e.write(s, dst[0], dst[1], c.opt(None))
                    s.frames[-1].bb = bb
                else:
                    run_some(s, nit, itf)
                e.run(s)
        finally:
            e.solver.pop()
    return True


@model('core::iter::traits::iterator::Iterator::collect', 'core::iter::traits::iterator::Iterator::count', 'core::iter::traits::iterator::Iterator::sum')
def m_collect(c):
    """collect of seq/map/cloned iterators keeps the number and order of items"""
    e = c.e
    v = c.val(0)
    dt = e.types[c.dty]
    if isinstance(v, ItV):
        ks = iter_kinds(v)
        if c.path.endswith('count') and ks <= {'seq', 'map', 'cloned', 'enumerate'}:
            b = v
            while b.kind != 'seq':
                b = b.src
            return z3.simplify(e.seq_len(c.st, b.src) - b.pos)
        if dt['k'] == 'adt' and dt['path'] == 'alloc::vec::Vec' and ks <= {'seq', 'cloned'}:
            b = v
            while b.kind != 'seq':
                b = b.src
            if z3.is_int_value(b.pos) and b.pos.as_long() == 0:
                if isinstance(b.src, VecV):
                    return VecV(c.dty, b.src.base, b.src.items)
                if isinstance(b.src, Op):
                    return VecV(c.dty, Op(c.dty, b.src.t), ())
        r = c.fresh('collect')
        ev = c.event(r)
        ev.x = v
        ev.post = {'summary': map_summary(c, v), 'src': v}
        if isinstance(r, VecV) and ks <= {'seq', 'map', 'cloned', 'enumerate'}:
            b = v
            while b.kind != 'seq':
                b = b.src
            e.fact(c.st, e.seq_len(c.st, r) == e.seq_len(c.st, b.src) - b.pos)
        return r
    return c.opaque()


# ------------------------------------------------------------------ strings, formatting (silent)
@model('alloc::fmt::format', 'core::fmt::*', 'alloc::string::ToString::to_string', 'core::fmt::Arguments*', 'alloc::slice::<impl [T]>::join', 'alloc::slice::<impl [[]T]>::join',
       'core::str::<impl str>::to_lowercase', 'alloc::str::<impl str>::to_lowercase', 'alloc::str::<impl str>::to_uppercase', 'alloc::str::join*')
def m_fmt(c):
    """formatting has no observable effect; its result is a function of the arguments"""
    if c.callee.get('key') and c.callee['local'] and 'to_string' not in c.path:
        return NotImplemented
    if c.path.endswith('to_string'):
        a = c.val(0)
        if isinstance(a, Op) and e_is_str(c, a):
            return Op(c.dty, a.t)
    try:
        return c.pure(c.path, log=c.path.endswith('to_string'))
    except Unsupported:
        return c.fresh('fmt')


def e_is_str(c, a):
    t = c.e.types[c.e.strip_refs(a.ty)]
    return t['k'] == 'str' or (t['k'] == 'adt' and t['path'] == 'alloc::string::String')


@model('core::str::<impl str>::trim', 'core::str::<impl str>::chars', 'core::str::<impl str>::bytes', 'core::str::<impl str>::starts_with', 'core::str::<impl str>::ends_with',
       'core::str::<impl str>::strip_prefix', 'core::str::<impl str>::strip_suffix', 'core::str::<impl str>::contains', 'core::str::<impl str>::parse', 'core::str::<impl str>::split*',
       'core::str::<impl str>::eq_ignore_ascii_case', 'core::str::<impl str>::find', 'core::str::<impl str>::trim_*', 'core::str::<impl str>::is_ascii')
def m_strfn(c):
    """string functions are functions of their arguments"""
    return c.pure()


# ------------------------------------------------------------------ pyo3: read-only queries are functions of the object
PURE_PY = ['pyo3::types::any::PyAnyMethods::is_instance_of', 'pyo3::types::any::PyAnyMethods::is_exact_instance_of', 'pyo3::types::any::PyAnyMethods::get_type',
           'pyo3::types::any::PyAnyMethods::is_none', 'pyo3::types::any::PyAnyMethods::is', 'pyo3::types::any::PyAnyMethods::as_ptr', 'pyo3::types::any::PyAnyMethods::is_callable',
           'pyo3::types::any::PyAnyMethods::get_type_ptr', 'pyo3::types::any::PyAnyMethods::is_exact_instance', 'pyo3::types::any::PyAnyMethods::py', 'pyo3::instance::Bound::<*>::py',
           'pyo3::instance::Py::<T>::is', 'pyo3::instance::Py::<T>::is_none', 'pyo3::instance::Bound::<*>::as_ptr', 'pyo3::instance::Py::<T>::as_ptr', 'pyo3::marker::Python::<*>::None',
           'pyo3::marker::Python::<*>::NotImplemented', 'pyo3::types::any::PyAnyMethods::downcast', 'pyo3::types::any::PyAnyMethods::downcast_exact', 'pyo3::types::any::PyAnyMethods::downcast_into',
           'pyo3::types::any::PyAnyMethods::downcast_into_exact', 'pyo3::types::typeobject::*', 'pyo3::types::float::PyFloatMethods::value', 'pyo3::types::boolobject::PyBoolMethods::is_true',
           'pyo3::types::bytes::PyBytesMethods::as_bytes', 'pyo3::types::string::PyString::new', 'pyo3::types::any::PyAnyMethods::is_instance', 'pyo3::type_object::PyTypeInfo::*',
           'pyo3::types::bytes::PyBytes::new', 'pyo3::types::float::PyFloat::new', 'pyo3::types::boolobject::PyBool::new', 'pyo3::instance::Py::<T>::downcast_bound',
           'pyo3::types::datetime::*', 'pyo3::types::any::PyAnyMethods::hash', 'pyo3::types::mappingproxy::*', 'pyo3::types::string::PyStringMethods::to_str',
           'pyo3::types::string::PyStringMethods::to_cow', 'pyo3::err::PyErr::is_instance_of', 'pyo3::err::PyErr::get_type', 'pyo3::err::PyErr::value', 'pyo3::types::complex::*',
           'pyo3::types::dict::PyDictMethods::is_empty']


@model(*PURE_PY)
def m_purepy(c):
    """read-only queries on Python objects are functions of their arguments"""
    if c.path.split('::')[-1] in ('downcast', 'downcast_exact', 'downcast_into', 'downcast_into_exact', 'downcast_bound'):
        return m_downcast(c)
    return c.pure(log=True)


def m_downcast(c):
    """downcast returns the same object or an error, as a function of the object"""
    e = c.e
    ts = e.term(c.st, c.args[0])
    ok = uf('pure:' + c.callee['full'], Val, z3.BoolSort())(ts)
    dt = e.types[c.dty]
    okt = dt['v'][e.variant_index(c.dty, 'Ok')]['f'][0][1]
    ert = dt['v'][e.variant_index(c.dty, 'Err')]['f'][0][1]
    return [(ok, c.variant('Ok', e.mat(c.st, okt, ts)), 'downcast=Ok'),
            (z3.Not(ok), c.variant('Err', e.mat(c.st, ert, uf('downcast.err', Val, Val)(ts))), 'downcast=Err')]


@model('pyo3::conversion::IntoPyObjectExt::into_py_any', 'pyo3::conversion::IntoPyObjectExt::into_bound_py_any', 'pyo3::conversion::IntoPyObjectExt::into_pyobject_or_pyerr',
       'pyo3::conversion::IntoPyObject::into_pyobject')
def m_intopy(c):
    """converting to a Python object: Ok(topy(v)); py objects convert to themselves; failures (MemoryError) may also happen"""
    if c.callee.get('key') and c.callee['local'] and c.path.endswith('IntoPyObject::into_pyobject'):
        return NotImplemented
    e = c.e
    v = c.val(0)
    dt = e.types[c.dty]
    okt = dt['v'][e.variant_index(c.dty, 'Ok')]['f'][0][1]
    ert = dt['v'][e.variant_index(c.dty, 'Err')]['f'][0][1]
    if isinstance(v, Op) and is_pyobj(e, v.ty):
        r = Op(okt, v.t)
    else:
        r = Op(okt, uf('topy', Val, Val)(e.term(c.st, v)))
    outs = [(None, c.variant('Ok', r), None)]
    if 'Infallible' in e.tys(ert):
        return outs[0][1]
    return [(z3.Bool(e.fresh_name('topy.fails')) == False, outs[0][1], None)] if True else outs


def is_pyobj(e, tid):
    t = e.types[e.strip_refs(tid)]
    return t['k'] == 'adt' and t['path'] in ('pyo3::instance::Py', 'pyo3::instance::Bound', 'pyo3::instance::Borrowed')


# ------------------------------------------------------------------ panics
@model('core::panicking::*', 'std::panicking::*', 'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed', 'std::rt::panic_fmt',
       'core::panicking::panic*')
def m_panic(c):
    """reaching a panic is an obligation"""
    if not c.e.probing:
        c.e.panic_ob(c.st, c.fr, 'panic', c.ln, z3.sat, None)
    return True


@model('_pydantic_core::input::input_abstract::BorrowInput::borrow_input')
def m_borrow(c):
    """BorrowInput::borrow_input is the item itself, seen as an input"""
    v = c.val(0)
    return c.e.mat(c.st, c.dty, c.e.term(c.st, v)) if c.e.types[c.dty]['k'] not in ('ref',) else Op(c.dty, c.e.term(c.st, v))


@model('core::slice::<impl [T]>::split_at')
def m_split_at(c):
    """slice::split_at: (v[..mid], v[mid..]); panics if mid > len"""
    e, st = c.e, c.st
    v, mid = deref1(c, 0), c.val(1)
    n = e.seq_len(st, v)
    panic_if(c, mid > n, 'split_at out of bounds')
    t = e.types[c.dty]
    out = []
    for lo, hi, ft in ((z3.IntVal(0), mid, t['f'][0]), (mid, n, t['f'][1])):
        out.append(Ref(('val', e.subslice(st, v, e.types[ft]['to'], lo, hi)), (), e.types[ft]['to']))
    return Agg(c.dty, 0, tuple(out))
