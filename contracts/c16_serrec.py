"""C16: serializing cyclic data raises, repeated data does not, without residue"""
from contracts.ser import *
from contracts import c06_recursion as c06

INF = SER + 'infer::'
DEF = '<' + T + 'definitions::DefinitionRefSerializer as *TypeSerializer>::'
DUMP = {'roots': [DEF + 'to_python', DEF + 'serde_serialize', DEF + 'json_key'],
        'stop': c06.DUMP['stop'] + ['*key_filter', '*index_filter', '*infer_to_python', '*infer_serialize', '*infer_json_key', '*infer_to_python_known', '*infer_serialize_known', '*infer_json_key_known', '*Extra*::recursion_guard', '*Extra*::key_recursion_guard', '*access_recursion_state', '*RecursionGuard*::new',
                 '*serialize_pairs_python', '*serialize_pairs_json', '*any_dataclass_iter', '*SerializationIterator::new', '*datetime_to_string', '*date_to_string', '*time_to_string', '*either_delta_to_json', '*bytes_to_string', '*uuid_to_string', '*complex_to_str', '*extract_int',
                 '*serialize_unknown', '*unknown_type_error', '*build_extra', '*serialize_f64', '*serialize_bytes', '*timedelta_serialize', '*__str__', '*safe_repr', '*serialize_py_str', '*Url*', '*EitherTimedelta*', '*to_json_bytes', '*SerializationConfig*', '*CollectWarnings*', '*ObTypeLookup*', '*RecursionState::detached', '*SerializationState*::new', '*SerializationState*::extra'],
        'descend': ['*SerRecursionState*']}
ASSUMPTIONS = c06.ASSUMPTIONS + ['Python objects as user code sees them (fallback functions, hashing, str()) are arbitrary', 'the mutex of a recursion state is not poisoned: no panic happens while it is held']
MAX = 2 ** 64 - 1
NEST = ('infer_to_python', 'infer_serialize', 'infer_json_key', 'infer_to_python_known', 'infer_serialize_known', 'infer_json_key_known', 'serialize_pairs_python', 'serialize_pairs_json', 'to_python', 'serde_serialize', 'json_key', 'serialize_element', 'serialize_entry', 'build_extra', 'call1')


def nest(evs):
    return [ev for ev in evs if ev.name.split('::')[-1] in NEST]


def extra_like(p, v):
    """the settings handed on by an argument: itself an Extra, or a struct (nested serializer) that carries one"""
    if v.ty is None:
        return None
    t = p.e.types[p.e.strip_refs(v.ty)]
    if (t.get('path') or '').endswith('::Extra'):
        return v
    if t['k'] == 'adt' and v.has('extra'):
        return v.f('extra')
    return None


def given(p, ev):
    """the settings an event hands on (None: not visible)"""
    if not ev.args:
        return None
    for a in reversed(ev.args):
        try:
            x = extra_like(p, p.V(a))
        except (Lost, Unsupported):
            x = None
        if x is not None:
            return x
    return None


class Guarded(Contract):
    """value (or key) and node are entered before anything nested runs, and left after it"""
    key = False
    node = MAX
    always = True       # guarded on every path; otherwise only where something nested runs
    self_ = False
    vi, ei = 1, 4       # value / extra argument
    CYC = 'a repeated object is an error'

    def value(self, p):
        return p.arg(self.vi)

    def node_is(self, p, n):
        return n.z == self.node

    def guard(self, p):
        return [ev for ev in p.st.events if ev.name.endswith('::key_recursion_guard' if self.key else '::recursion_guard')]

    def check(self, p, evs, released):
        g = self.guard(p)
        ns = nest(evs)
        if not g:
            if self.always:
                p.require('the value is guarded', False)
            else:
                p.require('nothing nested runs without a guard', len(ns) == 0)
            return None
        ev = g[0]
        gr = p.V(ev.ret)
        p.require('the guard is for the value and node', AND(len(g) == 1, p.V(ev.args[1]).t == self.value(p).t, self.node_is(p, p.V(ev.args[2]))))
        if p.holds(gr.is_('Err')):
            return gr
        rel = p.events('*access_recursion_state')
        at = p.st.events.index
        p.require('what is nested runs while the guard is held', AND(gr.is_('Ok'), *[at(x) > at(ev) for x in ns], *[at(x) < at(r) for x in ns for r in rel]))
        if released:
            p.require('the guard is released once', len(rel) == 1)
        for x in ns:
            s = given(p, x)
            if s is None:
                continue
            name = x.name.split('::')[-1]
            if name in ('build_extra', 'call1'):
                continue
            b = [y for y in p.st.events if y.name.endswith('::build_extra')]
            if b and p.holds(s.t == p.V(b[-1].ret).t):
                continue
            p.require('nested serialization knows what is being serialized', s.t == self.state(p, ev))
        for x in ns:
            if x.name.endswith('build_extra'):
                w = uf('fld:_pydantic_core::serializers::extra::Extra:Extra:rec_guard', Val, Val)(self.state(p, ev))
                p.require('nested serialization knows what is being serialized', OR(*[p.V(a).t == w for a in x.args if not is_z3(a) and p.V(a).ty is not None and 'SerRecursionState' in p.e.types[p.V(a).ty]['s']]))
        return gr

    def state(self, p, ev):
        """the settings the guard was taken on, as returned with it"""
        g = uf('fld:core::result::Result:Ok:0', Val, Val)(ev.ret.t)
        return uf('fld:_pydantic_core::recursion_guard::RecursionGuard:RecursionGuard:state', Val, Val)(g)

    def iter(self, p, L):
        self.check(p, p.st.events, False)

    def ret(self, p, r):
        gr = self.check(p, p.st.events, True)
        if gr is not None and p.holds(gr.is_('Err')):
            p.require('nothing nested runs for a repeated object', len(nest(p.st.events)) == 0)
            self.cyc(p, r, gr)

    def cyc(self, p, r, gr):
        p.require(self.CYC, r.is_('Err'))


EXP = ('the guard is for the value and node', 'what is nested runs while the guard is held', 'the guard is released once', 'nested serialization knows what is being serialized', 'nothing nested runs for a repeated object')


@contract('C16', INF + 'infer_to_python_known', 'infer_to_python_known', expect=EXP + ('a repeated object is an error in JSON mode', 'otherwise it is returned as it is'))
class InferPy(Guarded):
    def cyc(self, p, r, gr):
        j = p.arg(4).f('mode').is_('Json')
        p.require('a repeated object is an error in JSON mode', IMP(j, AND(r.is_('Err'), r.as_('Err').eq(gr.as_('Err')))))
        p.require('otherwise it is returned as it is', IMP(NOT(j), AND(r.is_('Ok'), r.as_('Ok').t == p.arg(1).t)))


@contract('C16', INF + 'infer_serialize_known', 'infer_serialize_known', expect=EXP + ('a repeated object is an error', 'with serialize_unknown it is written as "..."'))
class InferSer(Guarded):
    ei = 5

    def cyc(self, p, r, gr):
        w = [ev for ev in p.st.events if ev.name.endswith('serialize_str')]
        u = p.arg(5).f('serialize_unknown').z
        if w:
            p.require('with serialize_unknown it is written as "..."', AND(u, r.t == p.V(w[0].ret).t))
        else:
            p.require('a repeated object is an error', AND(NOT(u), r.is_('Err')))


@contract('C16', INF + 'infer_json_key_known', 'infer_json_key_known', expect=('nothing nested runs without a guard',) + EXP + ('a repeated object is an error',))
class InferKey(Guarded):
    key, always, ei = True, False, 2


class DefRef(Guarded):
    """inside the definition: the value is the one the definition's serializer gets, the node is the definition's"""

    def value(self, p):
        g = self.guard(p)
        ns = nest(p.st.events)
        return p.V(ns[0].args[1]) if ns else p.V(g[0].args[1])

    def node_is(self, p, n):
        ids = p.events('*DefinitionRef*::id')
        return AND(len(ids) == 1, n.z == p.V(ids[0].ret).z) if ids else False


@contract('C16', [DEF + 'to_python::{closure#0}', DEF + 'serde_serialize::{closure#0}'], 'DefinitionRefSerializer', expect=EXP + ('a repeated object is an error',))
class DefRefValue(DefRef):
    pass


@contract('C16', DEF + 'json_key::{closure#0}', 'DefinitionRefSerializer::json_key', expect=EXP + ('a repeated object is an error',))
class DefRefKey(DefRef):
    key = True


class Through(Contract):
    """everything nested gets the settings of the caller"""
    ei = 0

    def ex(self, p):
        x = p.arg(self.ei)
        return x.f('extra') if x.has('extra') else x

    def chk(self, p, evs):
        ns = [(ev, given(p, ev)) for ev in nest(evs)]
        p.require('nested serialization knows what is being serialized', AND(*[s.t == self.ex(p).t for ev, s in ns if s is not None]))

    def iter(self, p, L):
        self.chk(p, p.iter_events())

    def ret(self, p, r):
        self.chk(p, p.st.events)
        if any(s is not None for s in [given(p, ev) for ev in nest(p.st.events)]):
            p.require('something is serialized', True)


for fn, i in ((INF + 'infer_to_python', 3), (INF + 'infer_serialize', 4), (INF + 'infer_json_key', 1), (INF + 'serialize_pairs_python', 4), (INF + 'serialize_pairs_json', 5), ('<' + INF + 'SerializeInfer<*> as *Serialize>::serialize', 0)):
    contract('C16', fn, fn.split('::')[-2] + '::' + fn.split('::')[-1] + ' (settings)', expect=('nested serialization knows what is being serialized', 'something is serialized'))(type('Through_', (Through,), {'ei': i}))


@contract('C16', SER + 'extra::Extra::<*>::key_recursion_guard', 'Extra::key_recursion_guard', expect=('keys are guarded apart from values',))
class KeyGuard(Contract):
    def pre(self, p):
        return AND(p.arg(2).z >= 0, p.arg(2).z <= MAX)

    def ret(self, p, r):
        g = p.events('*::recursion_guard')
        if len(g) != 1:
            raise Lost('guard')
        n, m = p.V(g[0].args[2]).z, p.arg(2).z
        half = 2 ** 63
        p.require('keys are guarded apart from values', AND(p.V(g[0].args[1]).t == p.arg(1).t, r.t == p.V(g[0].ret).t, (n >= half) == (m < half), n != m))


def rec_state(x):
    return x.f('guard')


@contract('C16', SER + 'type_serializers::generator::SerializationIterator::new', 'SerializationIterator::new', expect=('what a generator yields later is not taken for what encloses it now',))
class IterNew(Contract):
    def ret(self, p, r):
        ds = p.events('*RecursionState::detached')
        g = r.f('extra_owned', 'rec_guard')
        p.require('what a generator yields later is not taken for what encloses it now', OR(*[AND(g.t == p.V(d.ret).t, p.V(d.args[0]).t == p.arg(5).f('rec_guard').t) for d in ds]))


@contract('C16', SER + 'extra::SerRecursionState::detached', 'SerRecursionState::detached', optional=True, expect=('a detached state is that of the recursion state',))
class SerDetached(Contract):
    def ret(self, p, r):
        ds, nw, lk = p.events('*RecursionState::detached'), p.events('*Mutex*::new'), p.events('*Mutex*::lock')
        if len(ds) != 1 or len(nw) != 1 or len(lk) != 1:
            raise Lost('the state')
        p.require('a detached state is that of the recursion state', AND(r.f('guard').t == p.V(nw[0].ret).t, p.V(nw[0].args[0]).t == p.V(ds[0].ret).t, p.V(lk[0].args[0]).t == p.arg(0).f('guard').t))


@contract('C16', SER + 'extra::ExtraOwned::to_extra', 'ExtraOwned::to_extra', expect=('the settings are the owned ones',))
class ToExtra(Contract):
    def ret(self, p, r):
        p.require('the settings are the owned ones', AND(r.f('rec_guard').t == p.arg(0).f('rec_guard').t, r.f('warnings').t == p.arg(0).f('warnings').t))


class Lazy(Contract):
    """each call collects its own warnings and serializes with the owned settings"""

    def chk(self, p, evs):
        for ev in nest(evs):
            x = given(p, ev)
            fr = p.events('*CollectWarnings::fresh', '*CollectWarnings::new')
            p.require('a call only reports its own warnings', AND(len(fr) >= 1, OR(*[x.f('warnings').t == p.V(f.ret).t for f in fr])))
            p.require('the recursion state is the owned one', x.f('rec_guard').t == p.arg(0).f('extra_owned', 'rec_guard').t)

    def iter(self, p, L):
        self.chk(p, p.iter_events())

    def ret(self, p, r):
        self.chk(p, p.st.events)


for fn in (T + 'generator::SerializationIterator::__next__', T + 'function::SerializationCallable::__call__'):
    contract('C16', fn, '::'.join(fn.split('::')[-2:]), expect=('a call only reports its own warnings', 'the recursion state is the owned one'))(type('Lazy_', (Lazy,), {}))


def rec_arg(p, ev):
    for a in ev.args:
        v = p.V(a)
        if v.ty is not None and (p.e.types[p.e.strip_refs(v.ty)].get('path') or '').endswith('SerRecursionState'):
            return v
    raise Lost('the recursion state')


class Entry(Contract):
    """serialization starts without entries"""

    def ret(self, p, r):
        ns = [ev for ev in p.st.events if ev.name.split('::')[-1] in ('to_python', 'to_json_bytes', 'infer_to_python')]
        if not ns:
            return
        be = p.events('*::build_extra')
        if not be:
            raise Lost('settings')
        g = rec_arg(p, be[0]).f('guard')
        p.require('every serialization starts without entries', g.t == z3.Const('default:' + p.e.types[g.ty]['s'], Val))


for fn in (SER + 'SchemaSerializer::to_python', SER + 'SchemaSerializer::to_json'):
    contract('C16', fn, fn.split('::')[-1] + (' (method)' if 'Schema' in fn else ''), expect=('every serialization starts without entries',))(type('Entry_', (Entry,), {}))


@contract('C16', '<_pydantic_core::recursion_guard::RecursionState as *Default>::default', 'RecursionState::default', expect=('a default state has no entries',))
class DefState(Contract):
    def ret(self, p, r):
        p.require('a default state has no entries', AND(r.f('depth').z == 0, r.f('ids').is_('Array'), r.f('ids').as_('Array', 'len').z == 0))


@contract('C16', [SER + 'SchemaSerializer::build_extra', SER + 'extra::Extra::<*>::new'], 'settings', expect=('the recursion state and the warnings are the ones given',))
class BuildExtra(Contract):
    def ret(self, p, r):
        n = len(p.args) if hasattr(p, 'args') else 14
        def arg(path):
            for i in range(14):
                a = p.arg(i)
                if a.ty is not None and (p.e.types[p.e.strip_refs(a.ty)].get('path') or '').endswith(path):
                    return a
            raise Lost(path)
        p.require('the recursion state and the warnings are the ones given', AND(r.f('rec_guard').t == arg('::SerRecursionState').t, r.f('warnings').t == arg('::CollectWarnings').t, r.f('check').is_('None')))


class State(Contract):
    """to_json and to_jsonable_python: a state of their own"""

    def ret(self, p, r):
        ns = [ev for ev in p.st.events if ev.name.split('::')[-1] in ('to_json_bytes', 'infer_to_python')]
        if not ns:
            return
        sn, se = p.events('*SerializationState::new'), p.events('*SerializationState::extra')
        if len(sn) != 1 or len(se) != 1:
            raise Lost('state')
        p.require('every serialization starts without entries', AND(p.V(se[0].args[0]).t == p.V(sn[0].ret).as_('Ok').t, given(p, ns[0]).t == p.V(se[0].ret).t))


for fn in (SER + 'to_json', SER + 'to_jsonable_python'):
    contract('C16', fn, fn.split('::')[-1] + ' (function)', expect=('every serialization starts without entries',))(type('State_', (State,), {}))


@contract('C16', SER + 'extra::SerializationState::new', 'SerializationState::new', expect=('every serialization starts without entries',))
class StateNew(Contract):
    def ret(self, p, r):
        if p.holds(r.is_('Ok')):
            g = r.as_('Ok').f('rec_guard', 'guard')
            p.require('every serialization starts without entries', g.t == z3.Const('default:' + p.e.types[g.ty]['s'], Val))


@contract('C16', SER + 'extra::SerializationState::extra', 'SerializationState::extra', expect=('the recursion state and the warnings are the ones given',))
class StateExtra(Contract):
    def ret(self, p, r):
        p.require('the recursion state and the warnings are the ones given', AND(r.f('rec_guard').t == p.arg(0).f('rec_guard').t, r.f('warnings').t == p.arg(0).f('warnings').t))


# the guard itself: the same contracts as for validation, discharged again from the source
for cls in (c06.New, c06.NewC, c06.DropG, c06.DropC, c06.Pair, c06.Incr, c06.Decr, c06.Detached, c06.Insert, c06.Remove, c06.Access, c06.ExtraGuard):
    contract('C16', cls.fn, cls.title, expect=cls.expect)(type(cls.__name__, (cls,), {}))


@contract('C16', c06.G + 'RecursionGuard::<*>::new', 'RecursionGuard::new (state)', expect=('a guard gives the state it was taken on',))
class NewState(Contract):
    def ret(self, p, r):
        if p.holds(r.is_('Ok')):
            g = r.as_('Ok').v
            if not isinstance(g, Agg) or not isinstance(p._args[0][0], Ref):
                raise Lost('the guard')
            same = [x for x in g.f if isinstance(x, Ref) and x.root == p._args[0][0].root and x.proj == p._args[0][0].proj]
            p.require('a guard gives the state it was taken on', bool(same))


@contract('C16', '*Extra*::recursion_guard', 'Extra::recursion_guard (state)', expect=('the guard is taken on these settings',))
class ExtraState(Contract):
    def ret(self, p, r):
        g = p.events('*RecursionGuard*::new')
        if len(g) != 1:
            raise Lost('guard')
        p.require('the guard is taken on these settings', AND(p.V(g[0].args[0]).t == p.arg(0).t, IMP(r.is_('Ok'), r.as_('Ok').t == p.V(g[0].ret).as_('Ok').t)))
