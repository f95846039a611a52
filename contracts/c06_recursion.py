"""C06: cycles are detected exactly, validations leave no trace"""
from contracts.common import *

DUMP = {'roots': ['<_pydantic_core::serializers::type_serializers::definitions::DefinitionRefSerializer as *TypeSerializer>::to_python', '<_pydantic_core::serializers::type_serializers::definitions::DefinitionRefSerializer as *TypeSerializer>::serde_serialize'],
        'stop': ['*RecursionGuard*::new', '*access_recursion_state', '*RecursionState::insert', '*RecursionState::remove', '*RecursionState::incr_depth', '*RecursionState::decr_depth', '*RecursionState::detached',
                 '*RecursionStack::insert', '*RecursionStack::remove', '*DefinitionRef*::read', '*InternalValidator::new', '*DefinitionRef*::id', '*Extra*::recursion_guard', '*prepare_validation_err']}
ASSUMPTIONS = ['AHashSet::{insert, remove} are set operations', 'the address of a Python object identifies it while it is alive', 'guards are dropped when they go out of scope (Rust), also while a panic unwinds',
               'the depth limit of the verified build is that of a build with debug assertions (235); the release variant of incr_depth (limit 255) is not in the verified program']
G = '_pydantic_core::recursion_guard::'
V_ = '_pydantic_core::validators::'
ELEM = uf('elem', Val, z3.IntSort(), Val)


def cap(p, i):
    env = p.arg(0)
    return p.V(env.v.f[i]) if isinstance(env.v, Agg) else V(p, p.e.project(p.st, env.v, env.ty, 0, i))


def caps(p):
    """captured integers of the closure, by name of their type"""
    env = p.arg(0)
    n = len(p.e.types[env.ty]['up'])
    return [cap(p, i) for i in range(n)]


@contract('C06', G + 'RecursionGuard::<*>::new', 'RecursionGuard::new', expect=('a guard is for its object and node', 'a failure of the guard is returned'))
class New(Contract):
    def ret(self, p, r):
        ac = p.events('*access_recursion_state')
        if len(ac) != 1 or not isinstance(p.V(ac[0].args[1]).v, Agg):
            raise Lost('the access of the state')
        c = p.V(ac[0].args[1]).v.f
        p.require('a guard is for its object and node', AND(p.V(ac[0].args[0]).t == p.arg(0).t, len(c) == 2, p.V(c[0]).z == p.arg(1).z, p.V(c[1]).z == p.arg(2).z))
        a = p.V(ac[0].ret)
        if p.holds(r.is_('Ok')):
            g = r.as_('Ok')
            p.require('a guard is for its object and node', AND(a.is_('Ok'), g.f('obj_id').z == p.arg(1).z, g.f('node_id').z == p.arg(2).z))
        else:
            p.require('a failure of the guard is returned', AND(r.is_('Err'), a.is_('Err'), r.as_('Err').eq(a.as_('Err'))))


@contract('C06', G + 'RecursionGuard::<*>::new::{closure#0}', 'RecursionGuard::new (entry)', expect=('an object being validated by the node is a cycle', 'the depth limit releases the entry', 'anything else is entered'))
class NewC(Contract):
    def ret(self, p, r):
        ins, inc, rem = p.events('*RecursionState::insert'), p.events('*RecursionState::incr_depth'), p.events('*RecursionState::remove')
        dec = p.events('*RecursionState::decr_depth')
        if len(ins) != 1:
            raise Lost('the entry')
        p.require('the object is entered for the node', AND(p.V(ins[0].args[1]).z == cap(p, 0).z, p.V(ins[0].args[2]).z == cap(p, 1).z))
        i = p.V(ins[0].ret).z
        if p.holds(NOT(i)):
            p.require('an object being validated by the node is a cycle', AND(r.is_('Err'), r.as_('Err').is_('Cyclic'), len(rem) + len(inc) + len(dec) == 0))
            return
        p.require('the depth is counted once', len(inc) == 1)
        lim = p.V(inc[0].ret).z
        if p.holds(lim):
            p.require('the depth limit releases the entry', AND(r.is_('Err'), r.as_('Err').is_('Depth'), len(dec) == 0, len(rem) == 1, *([p.V(rem[0].args[1]).z == cap(p, 0).z, p.V(rem[0].args[2]).z == cap(p, 1).z] if rem else [])))
        else:
            p.require('anything else is entered', AND(r.is_('Ok'), NOT(lim), len(rem) + len(dec) == 0))


@contract('C06', '<' + G + 'RecursionGuard<*> as *Drop>::drop', 'RecursionGuard::drop', expect=('the guard releases what it is for',))
class DropG(Contract):
    def ret(self, p, r):
        ac = p.events('*access_recursion_state')
        if len(ac) != 1 or not isinstance(p.V(ac[0].args[1]).v, Agg):
            raise Lost('the access of the state')
        self.want(p, [p.V(x) for x in p.V(ac[0].args[1]).v.f])

    def want(self, p, c):
        g = p.arg(0)
        if len(c) == 1:
            p.require('the guard releases what it is for', c[0].t == g.t)
        else:
            p.require('the guard releases what it is for', AND(len(c) == 2, c[0].z == g.f('obj_id').z, c[1].z == g.f('node_id').z))


@contract('C06', '<' + G + 'RecursionGuard<*> as *Drop>::drop::{closure#0}', 'RecursionGuard::drop (release)', expect=('the depth and the entry are released',))
class DropC(Contract):
    def ret(self, p, r):
        rem, dec, ins, inc = p.events('*RecursionState::remove'), p.events('*RecursionState::decr_depth'), p.events('*RecursionState::insert'), p.events('*RecursionState::incr_depth')
        c = caps(p)
        if len(c) == 1 and c[0].has('obj_id'):
            c = [c[0].f('obj_id'), c[0].f('node_id')]
        p.require('the depth and the entry are released', AND(len(rem) == 1, len(dec) == 1, len(ins) + len(inc) == 0, *([p.V(rem[0].args[1]).z == c[0].z, p.V(rem[0].args[2]).z == c[1].z] if rem and len(c) == 2 else [])))


@contract('C06', [G + 'RecursionState::insert', G + 'RecursionState::remove'], 'RecursionState entries', expect=('the stack is asked for the object and node',))
class Pair(Contract):
    def ret(self, p, r):
        ev = p.events('*RecursionStack::insert', '*RecursionStack::remove')
        if len(ev) != 1:
            raise Lost('the stack')
        k = p.V(ev[0].args[1])
        same = ev[0].name.split('::')[-1] in ('insert', 'remove')
        p.require('the stack is asked for the object and node', AND(same, p.V(ev[0].args[0]).t == p.arg(0).f('ids').t, k.f(0).z == p.arg(1).z, k.f(1).z == p.arg(2).z, *([r.z == p.V(ev[0].ret).z] if is_z3(r.v) else [])))


@contract('C06', G + 'RecursionState::incr_depth', 'RecursionState::incr_depth', expect=('the depth grows by one below the limit', 'at the limit nothing changes'))
class Incr(Contract):
    def ret(self, p, r):
        a, b = p.arg(0).f('depth').z, p.arg_now(0).f('depth').z
        p.require('the depth grows by one below the limit', IMP(NOT(r.z), AND(b == a + 1, b <= 255)))
        p.require('at the limit nothing changes', IMP(r.z, AND(b == a, a >= 235)))


@contract('C06', G + 'RecursionState::decr_depth', 'RecursionState::decr_depth', expect=('the depth shrinks by one',))
class Decr(Contract):
    def ret(self, p, r):
        a, b = p.arg(0).f('depth').z, p.arg_now(0).f('depth').z
        p.require('the depth shrinks by one', IMP(a > 0, b == a - 1))


@contract('C06', G + 'RecursionState::detached', 'RecursionState::detached', optional=True, expect=('a detached state has no entries and the depth',))
class Detached(Contract):
    def ret(self, p, r):
        p.require('a detached state has no entries and the depth', AND(r.f('depth').z == p.arg(0).f('depth').z, r.f('ids').is_('Array'), r.f('ids').as_('Array', 'len').z == 0))


def pair_eq(p, a, b):
    """term a is the pair view b"""
    x = uf('fld:tuple:0', Val, Val)(a), uf('fld:tuple:1', Val, Val)(a)
    return AND(x[0] == uf('mk.int', z3.IntSort(), Val)(b.f(0).z), x[1] == uf('mk.int', z3.IntSort(), Val)(b.f(1).z))


@contract('C06', G + 'RecursionStack::insert', 'RecursionStack::insert',
          expect=('an entry already on the stack is reported', 'a new entry is put on top', 'a full array becomes a set of the same entries', 'a set is a set', 'the search goes through all entries'))
class Insert(Contract):
    def key(self, p, k):
        return AND(k.f(0).z == p.arg(1).f(0).z, k.f(1).z == p.arg(1).f(1).z)

    def iter(self, p, L):
        """going on to the next entry: this one is not the key / this one was copied"""
        evs = p.iter_events()
        nx = [ev for ev in evs if ev.name == '<next>']
        if len(nx) != 1:
            raise Lost('loop')
        it = nx[0].x[0]
        while it.kind != 'seq':
            it = it.src
        src = p.arg(0).as_('Array', 'data')
        ins = [ev for ev in evs if ev.name.endswith('::insert')]
        if any(ev.name.endswith('drop_in_place') for ev in evs):
            return      # drop of the array
        p.require('the search goes through all entries', p.V(it.src).t == src.t)
        x = ELEM(src.t, it.pos)
        if ins:
            p.require('a full array becomes a set of the same entries', AND(len(ins) == 1, self.same(p, p.V(ins[0].args[1]), x)))
        else:
            kx = p.V(p.V(nx[0].ret).as_('Some').v)
            p.require('an entry that is not the key is passed over', NOT(AND(kx.f(0).z == p.arg(1).f(0).z, kx.f(1).z == p.arg(1).f(1).z)) if self.tuple(p, kx) else NOT(pair_is(p, x, p.arg(1))))

    def tuple(self, p, v):
        return v.ty is not None and p.e.types[v.ty]['k'] == 'tuple'

    def same(self, p, v, x):
        return pair_is(p, x, v)

    def ret(self, p, r):
        a = p.arg(0)
        now = p.arg_now(0)
        if p.holds(a.is_('Set')):
            i = [ev for ev in p.st.events if ev.name.endswith('::insert')]
            p.require('a set is a set', AND(len(i) == 1, *([p.V(i[0].args[0]).t == a.as_('Set').t, self.key(p, p.V(i[0].args[1])), r.z == p.V(i[0].ret).z, now.is_('Set')] if i else [])))
            return
        ln = a.as_('Array', 'len').z
        nx = [ev for ev in p.st.events if ev.name == '<next>']
        if not nx:
            raise Lost('search')
        i = [ev for ev in p.st.events if ev.name.endswith('::insert')]
        if p.holds(ln >= 16):
            p.require('a full array becomes a set of the same entries', AND(p.V(nx[0].ret).is_('None'), len(i) == 1, now.is_('Set'), *([self.key(p, p.V(i[0].args[1])), r.z == p.V(i[0].ret).z] if i else [])))
            return
        it = nx[0].x[0]
        q = it
        while q.kind != 'seq':
            q = q.src
        if p.holds(p.V(nx[0].ret).is_('Some')):
            p.require('an entry already on the stack is reported', AND(NOT(r.z), q.pos < ln, pair_is(p, ELEM(a.as_('Array', 'data').t, q.pos), p.arg(1)), now.t == a.t if not isinstance(now.v, Agg) else AND(now.as_('Array', 'len').z == ln, now.as_('Array', 'data').t == a.as_('Array', 'data').t)))
        else:
            d = now.as_('Array', 'data').t
            p.require('a new entry is put on top', AND(r.z, q.pos >= ln, now.is_('Array'), now.as_('Array', 'len').z == ln + 1, d == uf('store', Val, z3.IntSort(), Val, Val)(a.as_('Array', 'data').t, ln, p.e.term(p.st, p.arg(1).v))))


def pair_is(p, x, key):
    return AND(uf('val.int', Val, z3.IntSort())(uf('fld:tuple:0', Val, Val)(x)) == key.f(0).z, uf('val.int', Val, z3.IntSort())(uf('fld:tuple:1', Val, Val)(x)) == key.f(1).z)


@contract('C06', G + 'RecursionStack::remove', 'RecursionStack::remove', expect=('the top entry is taken off', 'a set loses the entry'))
class Remove(Contract):
    def ret(self, p, r):
        a, now = p.arg(0), p.arg_now(0)
        if p.holds(a.is_('Set')):
            i = p.events('*::remove')
            p.require('a set loses the entry', AND(len(i) == 1, *([p.V(i[0].args[0]).t == a.as_('Set').t, p.V(i[0].args[1]).f(0).z == p.arg(1).f(0).z, p.V(i[0].args[1]).f(1).z == p.arg(1).f(1).z] if i else [])))
        else:
            p.require('the top entry is taken off', AND(now.is_('Array'), now.as_('Array', 'len').z == a.as_('Array', 'len').z - 1))


@contract('C06', ['<' + V_ + 'validation_state::ValidationState<*> as *>::access_recursion_state', '<&*Extra<*> as *>::access_recursion_state'], 'access_recursion_state', expect=('the function gets the state of the call',))
class Access(Contract):
    def ret(self, p, r):
        c = p.events('*FnOnce::call_once')
        if len(c) != 1:
            raise Lost('call')
        s = p.V(p.V(c[0].args[1]).f(0))
        lk = p.events('*::lock')
        if lk:
            want = AND(p.V(lk[0].args[0]).t == p.arg(0).f('rec_guard', 'guard').t, s.t == p.V(lk[0].ret).as_('Ok').t)
        else:
            raw, a = p.V(c[0].args[1]).v, p.arg(0).v
            if not isinstance(raw, Agg) or not isinstance(raw.f[0], Op) or not isinstance(a, Agg):
                raise Lost('state')
            x = a.f[p.e.field_index(p.arg(0).ty, 0, 'recursion_guard')]
            want = raw.f[0].t == x.t
        p.require('the function gets the state of the call', AND(want, r.t == p.V(c[0].ret).t))


class Ref_(Contract):
    meth = 'validate'
    always = False

    def names(self, p):
        env = p.arg(0)
        return {p.e.types[env.ty]['up'][i]['n'] if isinstance(p.e.types[env.ty]['up'][i], dict) else i: cap(p, i) for i in range(len(p.e.types[env.ty]['up']))}

    def ret(self, p, r):
        va = p.events('*::' + self.meth)
        g = p.events('*RecursionGuard*::new')
        rel = p.events('*access_recursion_state')
        ap = p.events('*::as_python')
        ids = p.events('*DefinitionRef*::id')
        if not g:
            if self.always:
                p.require('python input is guarded', False)
                return
            p.require('python input is guarded', AND(len(ap) == 1, p.V(ap[0].ret).is_('None') if ap else False))
            p.require('the definition validates the input once', AND(len(va) == 1, r.t == p.V(va[0].ret).t if va else False, len(rel) == 0))
            return
        if not self.always:
            if len(ap) != 1:
                raise Lost('input')
            obj = p.V(ap[0].ret).as_('Some')
            ptr = p.events('*::as_ptr')
            if not ptr:
                raise Lost('identity')
            p.require('the guard is for the object validated', AND(p.V(ptr[0].args[0]).t == obj.t, p.V(g[0].args[1]).z == uf('addr', Val, z3.IntSort())(p.V(ptr[0].ret).t)))
            p.require('the object guarded is the input', p.V(ap[0].args[0]).t == self.input_(p).t)
        if len(ids) != 1:
            raise Lost('node')
        p.require('the guard is for the definition', AND(len(g) == 1, p.V(g[0].args[2]).z == p.V(ids[0].ret).z))
        gr = p.V(g[0].ret)
        if p.holds(gr.is_('Err')):
            et = single_line_error(p, r)
            p.require('a cycle is a recursion error', AND(r.is_('Err'), len(va) == 0, len(rel) == 0, et.is_('RecursionLoop') if et is not None else False))
            return
        p.require('the definition validates the input once', AND(len(va) == 1, r.t == p.V(va[0].ret).t if va else False))
        p.require('the guard is released after the validation', AND(len(rel) == 1, p.st.events.index(rel[0]) > p.st.events.index(va[0]) if rel and va else False))

    def input_(self, p):
        ap = p.events('*::as_python')
        va = p.events('*::validate')
        return p.V(va[0].args[2]) if va else p.V(ap[0].args[0])


D = '<' + V_ + 'definitions::DefinitionRefValidator as *Validator>::'


@contract('C06', D + 'validate::{closure#0}', 'DefinitionRefValidator::validate', models=STATE_MODELS, expect=('python input is guarded', 'the guard is for the object validated', 'a cycle is a recursion error', 'the definition validates the input once', 'the guard is released after the validation'))
class RefV(Ref_):
    pass


@contract('C06', D + 'validate_assignment::{closure#0}', 'DefinitionRefValidator::validate_assignment', models=STATE_MODELS, expect=('a cycle is a recursion error', 'the definition validates the input once', 'the guard is released after the validation'))
class RefA(Ref_):
    meth = 'validate_assignment'
    always = True


@contract('C06', [D + 'validate', D + 'validate_assignment'], 'DefinitionRefValidator', models=STATE_MODELS, expect=('the definition is read once',))
class RefRead(Contract):
    def ret(self, p, r):
        rd = p.events('*DefinitionRef*::read')
        p.require('the definition is read once', AND(len(rd) == 1, *([p.V(rd[0].args[0]).t == p.arg(0).f('definition').t, r.t == p.V(rd[0].ret).t] if rd else [])))


@contract('C06', '<' + V_ + 'generator::GeneratorValidator as *Validator>::validate', 'GeneratorValidator::validate', models=STATE_MODELS, expect=('items are validated without the entries of this validation',))
class Gen(Contract):
    def ret(self, p, r):
        self.check(p, r)

    def check(self, p, r):
        nw = p.events('*InternalValidator::new')
        if not nw:
            return
        dt = p.events('*RecursionState::detached')
        g = uf('fld:_pydantic_core::validators::generator::InternalValidator:InternalValidator:recursion_guard', Val, Val)
        vs = [v for v in subterms(r.t) if v.decl().name().startswith('mk:_pydantic_core::validators::generator::InternalValidator')]
        if p.holds(r.is_('Ok')):
            ok = False
            for v in vs:
                for a in v.children():
                    if dt and any(a.eq(p.V(x.ret).t) for x in dt):
                        ok = True
            p.require('items are validated without the entries of this validation', AND(len(nw) == 1, len(vs) >= 1, ok, len(dt) == 1, p.V(dt[0].args[0]).t == p.arg(3).f('recursion_guard').t if dt else False))


def subterms(t):
    seen, todo, out = set(), [t], []
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
        todo.extend(x.children())
    return out


class Entry(Contract):
    """the state of the validation is fresh"""
    def ret(self, p, r):
        va = [ev for ev in p.st.events if ev.name.endswith(('Validator::validate', 'Validator::validate_assignment', 'Validator::default_value'))]
        if not va:
            return
        p.require('the schema is validated once', len(va) == 1)
        s = p.V([a for a in va[0].args if state_like(p, a)][0])
        g = s.f('recursion_guard')
        if not isinstance(g.v, Agg):
            raise Lost('the guard')
        p.require('every validation starts without entries', AND(g.f('depth').z == 0, g.f('ids').is_('Array'), g.f('ids').as_('Array', 'len').z == 0))
        p.require('every validation starts without exactness and fields set', AND(s.f('exactness').is_('None'), s.f('fields_set_count').is_('None')))


def state_like(p, a):
    try:
        return p.V(a).has('recursion_guard')
    except Exception:
        return False


@contract('C06', ['_pydantic_core::validators::SchemaValidator::_validate', '_pydantic_core::validators::SchemaValidator::validate_assignment', '_pydantic_core::validators::SchemaValidator::get_default_value'], 'entry points', models=STATE_MODELS,
          expect=('every validation starts without entries', 'every validation starts without exactness and fields set'))
class Entries(Entry):
    pass


@contract('C06', ['<_pydantic_core::serializers::type_serializers::definitions::DefinitionRefSerializer as *TypeSerializer>::to_python::{closure#0}', '<_pydantic_core::serializers::type_serializers::definitions::DefinitionRefSerializer as *TypeSerializer>::serde_serialize::{closure#0}'],
          'DefinitionRefSerializer', expect=('a cycle is an error', 'the definition serialises the value once', 'the guard is released after the serialisation'))
class SerRef(Contract):
    def ret(self, p, r):
        g = p.events('*Extra*::recursion_guard')
        if len(g) != 1:
            p.require('the value is guarded', len(g) == 1)
            return
        se = [ev for ev in p.st.events if ev.name.endswith(('TypeSerializer::to_python', 'TypeSerializer::serde_serialize'))]
        rel = p.events('*access_recursion_state')
        ids = p.events('*DefinitionRef*::id')
        if len(ids) != 1:
            raise Lost('node')
        p.require('the value is guarded', AND(p.V(g[0].args[2]).z == p.V(ids[0].ret).z, *[p.V(g[0].args[1]).t == p.V(e.args[1]).t for e in se]))
        gr = p.V(g[0].ret)
        if p.holds(gr.is_('Err')):
            p.require('a cycle is an error', AND(r.is_('Err'), len(se) == 0, len(rel) == 0))
        else:
            p.require('the definition serialises the value once', AND(len(se) == 1, r.t == p.V(se[0].ret).t if se else False))
            p.require('the guard is released after the serialisation', AND(len(rel) == 1, p.st.events.index(rel[0]) > p.st.events.index(se[0]) if rel and se else False))


@contract('C06', '*Extra*::recursion_guard', 'Extra::recursion_guard', expect=('the guard is for the value and node', 'a failure of the guard is an error'))
class ExtraGuard(Contract):
    def ret(self, p, r):
        g, ptr = p.events('*RecursionGuard*::new'), p.events('*::as_ptr')
        if len(g) != 1 or len(ptr) != 1:
            raise Lost('guard')
        p.require('the guard is for the value and node', AND(p.V(ptr[0].args[0]).t == p.arg(1).t, p.V(g[0].args[1]).z == uf('addr', Val, z3.IntSort())(p.V(ptr[0].ret).t), p.V(g[0].args[2]).z == p.arg(2).z))
        v = p.V(g[0].ret)
        p.require('a failure of the guard is an error', v.is_('Ok') == r.is_('Ok'))
