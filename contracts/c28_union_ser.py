"""C28: union serialization picks a member that accepts the value"""
from contracts.ser import *

U = T + 'union::'
UN = '<' + U + 'UnionSerializer as *TypeSerializer>::'
TU = '<' + U + 'TaggedUnionSerializer as *TypeSerializer>::'
DUMP = {'roots': [a + b for a in (UN, TU) for b in ('to_python', 'json_key', 'serde_serialize')],
        'stop': ['*infer_to_python', '*infer_serialize', '*infer_json_key', '*infer_json_key_known', '*infer_serialize_known', '*infer_to_python_known', '*CollectWarnings*', '*ObTypeLookup*', '*SchemaDict*', '*DuckTyping*', '*PydanticSerializationUnexpectedValue*', '*get_discriminator_value',
                 '*::union_serialize', '*::tagged_union_serialize', '*LookupKey*::py_get_dict_item', '*LookupKey*::simple_py_get_attr', '*main_to_python', '*known_dataclass_iter', '*add_computed_fields*', '*main_serde_serialize', '*get_inner_value', '*ModelSerializer::allow_value', '*DataclassSerializer::allow_value']}
ASSUMPTIONS = ['a member serializer is arbitrary: any result, any effect on the warnings collected']


def calls(evs):
    return [ev for ev in evs if ev.name.endswith('::call_mut')]


def same_extra(p, a, b, but=('check',)):
    t = p.e.types[p.e.strip_refs(a.ty)]
    return AND(*[a.f(n).eq(b.f(n)) for n, _ in t['v'][0]['f'] if n not in but])

def passes(p):
    """(check, exhausted) for each pass over the members of the path so far; the warnings loop is no pass"""
    out = []
    ls = loops(p)
    for k, (L, i) in enumerate(ls):
        end = ls[k + 1][1] if k + 1 < len(ls) else len(p.st.events)
        out.append((L, p.st.events[i + 1:end]))
    return out


@contract('C28', U + 'union_serialize', 'union_serialize',
          expect=('a member is tried once', 'the first pass is strict', 'the second pass allows subclasses', 'nothing but the check differs from the settings of the union', 'a pass goes over all members in order', 'only a failure lets the search go on', 'a strict failure is recorded',
                  'the first member that succeeds is used', 'subclasses are tried exactly where allowed', 'a nested union reports its failure', 'without a member the outermost union leaves the value to inference', 'every failure is a warning of the outermost union'))
class Select(Contract):
    def extra_of(self, c):
        return c

    def attempt(self, p, L, k, evs):
        nx, ca = nexts(evs), calls(evs)
        ok = len(nx) == 1 and len(ca) == 1
        p.require('a member is tried once', ok)
        if not ok:
            return None
        it = p.V(nx[0].ret).as_('Some')
        a = p.V(ca[0].args[1])
        ser, ex = a.f(0), a.f(1)
        p.require('a member is tried once', ser.eq(it))
        p.require('a pass goes over all members in order', from_start(p, L, p.arg(2)))
        p.require('nothing but the check differs from the settings of the union', same_extra(p, ex, p.arg(1)))
        if k == 0:
            p.require('the first pass is strict', ex.f('check').is_('Strict'))
        elif k == 1:
            p.require('the second pass allows subclasses', AND(ex.f('check').is_('Lax'), self.lax(p)))
        else:
            p.require('there are two passes at most', False)
        return p.V(ca[0].ret)

    def lax(self, p):
        return AND(NOT(p.arg(1).f('check').is_('Strict')), p.arg(3).z)

    def is_pass(self, evs):
        return bool(calls(evs))

    def iter(self, p, L):
        ls = loops(p)
        evs = p.iter_events()
        if not calls(evs):
            rw = [ev for ev in evs if ev.name.endswith('register_warning')]
            p.require('every failure is a warning of the outermost union', AND(len(rw) == 1, p.arg(1).f('check').is_('None'), p.V(rw[0].args[0]).t == p.arg(1).f('warnings').t if rw else False))
            ns = [ev for ev in evs if ev.name.endswith(('::extract', '::new_from_msg'))]
            p.require('the warning is the failure', AND(len(ns) == 1, *([OR(p.V(rw[0].args[1]).t == p.V(ns[0].ret).t, p.V(rw[0].args[1]).t == p.V(ns[0].ret).as_('Ok').t if ns[0].name.endswith('extract') else False)] if ns and rw else [])))
            return
        res = self.attempt(p, L, len(ls) - 1, evs)
        if res is None:
            return
        p.require('only a failure lets the search go on', res.is_('Err'))
        if len(ls) == 1:
            pu = [ev for ev in evs if ev.name.endswith('::push')]
            p.require('a strict failure is recorded', AND(len(pu) == 1, p.V(pu[0].args[1]).t == res.as_('Err').t if pu else False))

    def ret(self, p, r):
        ls = passes(p)
        if not ls:
            raise Lost('no pass')
        L, evs = ls[-1]
        if calls(evs):
            res = self.attempt(p, L, len(ls) - 1, evs)
            if res is not None:
                p.require('the first member that succeeds is used', AND(res.is_('Ok'), r.is_('Ok'), r.as_('Ok').is_('Some'), r.as_('Ok').as_('Some').t == res.as_('Ok').t))
            return
        ex = p.arg(1).f('check')
        # which of the exhausted loops were passes over the members: those that end with the iterator over them
        n = len([1 for L, _ in ls if p.holds(from_start_or(p, L, p.arg(2)))])
        p.require('subclasses are tried exactly where allowed', AND(n in (1, 2), self.lax(p) == (n == 2)))
        ext = [ev for ev in evs if ev.name.endswith('::extract')]
        if ext and p.holds(AND(r.is_('Err'), p.V(ext[-1].ret).is_('Err'))):
            p.require('an unreadable warning is raised', r.as_('Err').t == p.V(ext[-1].ret).as_('Err').t)
            return
        em = [ev for ev in p.st.events if ev.name.endswith('::is_empty')]
        none = OR(False, *[p.V(ev.ret).z for ev in em])
        p.require('a nested union reports its failure', IMP(NOT(ex.is_('None')), OR(r.is_('Err'), none)))
        p.require('without a member the outermost union leaves the value to inference', IMP(ex.is_('None'), AND(r.is_('Ok'), r.as_('Ok').is_('None'))))
        if p.feasible(ex.is_('None')):
            p.require('every failure is a warning of the outermost union', IMP(ex.is_('None'), len(ls) == n + 1))


def from_start_or(p, L, src):
    try:
        return from_start(p, L, src)
    except Lost:
        return z3.BoolVal(False)


INFER = {'to_python': 'infer_to_python', 'json_key': 'infer_json_key', 'serde_serialize': 'infer_serialize'}


class Outer(Contract):
    """the members are asked through the selection, an undecided value is inferred, an error is handed on"""
    stop = ['*::union_serialize', '*::tagged_union_serialize', '*TypeSerializer*::retry_with_lax_check']
    method = 'to_python'
    tagged = False

    def ret(self, p, r):
        m = self.method
        ev = p.events('*::tagged_union_serialize' if self.tagged else '*::union_serialize')
        if len(ev) != 1:
            p.require('the members are asked once', False)
            return
        ev = ev[0]
        ex = p.arg(2) if m == 'json_key' else p.arg(5 if m == 'serde_serialize' else 4)
        value = p.arg(1)
        a = [p.V(x) for x in ev.args]
        sel = a[2] if self.tagged else a[0]
        p.require('the members are asked with the settings of the union', a[3].t == ex.t if self.tagged else a[1].t == ex.t)
        if self.tagged:
            p.require('the members are asked about the value', AND(a[0].t == p.arg(0).t, a[1].t == value.t))
        else:
            rl = p.events('*::retry_with_lax_check')
            p.require('all members are asked, with subclasses where a member allows them', AND(a[2].t == p.arg(0).f('choices').t, len(rl) == 1, *([p.V(rl[0].args[0]).t == p.arg(0).t, a[3].z == p.V(rl[0].ret).z] if rl else [])))
        cap = sel.v
        if not isinstance(cap, Agg):
            raise Lost('the selector')
        want = [value] if m == 'json_key' else [value, p.arg(3 if m == 'serde_serialize' else 2), p.arg(4 if m == 'serde_serialize' else 3)]
        p.require('the selector carries the value and its filters', AND(len(cap.f) == len(want), *[p.V(x).t == y.t for x, y in zip(cap.f, want)]))
        res = p.V(ev.ret)
        inf = [e for e in p.st.events if e.name.split('::')[-1].startswith('infer_')]
        err = AND(len(inf) == 0, r.is_('Err'), r.as_('Err').t == res.as_('Err').t if m != 'serde_serialize' else True)
        p.require('an error is handed on', IMP(res.is_('Err'), err))
        if not p.feasible(res.is_('Ok')):
            return
        some = AND(res.is_('Ok'), res.as_('Ok').is_('Some'))
        none = AND(res.is_('Ok'), res.as_('Ok').is_('None'))
        if m != 'serde_serialize':
            if p.feasible(some):
                p.require('the result of the member is the result', IMP(some, AND(len(inf) == 0, r.is_('Ok'), r.as_('Ok').t == res.as_('Ok').as_('Some').t)))
            if p.feasible(none):
                p.require('without a member the value is inferred', IMP(none, AND(len(inf) == 1, *([p.V(inf[0].args[0]).t == value.t, p.V(inf[0].args[-1]).t == ex.t, r.eq(p.V(inf[0].ret))] if inf else []),
                          *([p.V(x).t == y.t for x, y in zip(inf[0].args[1:3], want[1:])] if inf and m == 'to_python' else []))))
            return
        ok = len(inf) == 1 and inf[0].name.endswith('infer_serialize')
        p.require('the result of the member is the result' if p.holds(some) else 'without a member the value is inferred', IMP(res.is_('Ok'), ok))
        if ok:
            x = [p.V(y) for y in inf[0].args]
            p.require('what is written is the output', r.eq(p.V(inf[0].ret)))
            p.require('the same settings are used', AND(x[4].t == ex.t, x[1].t == p.arg(2).t))
            if p.feasible(some):
                p.require('the result of the member is the result', IMP(some, AND(x[0].t == res.as_('Ok').as_('Some').t, x[2].is_('None'), x[3].is_('None'))))
            if p.feasible(none):
                p.require('without a member the value is inferred', IMP(none, AND(x[0].t == value.t, x[2].t == want[1].t, x[3].t == want[2].t)))


class Selector(Contract):
    """the closure handed to the selection asks the member it is given about the captured value"""
    method = 'to_python'

    def ret(self, p, r):
        evs = [e for e in p.st.events if e.name.endswith('::' + self.method)]
        p.require('the member is asked about the value', len(evs) == 1)
        if len(evs) != 1:
            return
        a = [p.V(x) for x in evs[0].args]
        env = p.arg(0)
        if isinstance(env.v, Agg):
            cap = [p.V(x) for x in env.v.f]
        else:
            cap = [p.V(p.e.project(p.st, env.v, env.ty, 0, i), p.e.field_ty(env.ty, 0, i)) for i in range(1 if self.method == 'json_key' else 3)]
        p.require('the member is asked about the value', AND(a[0].t == p.arg(1).t, a[-1].t == p.arg(2).t, *[x.t == y.t for x, y in zip(a[1:-1], cap)], len(cap) == len(a) - 2, r.eq(p.V(evs[0].ret))))


OEXP = ('an error is handed on', 'the result of the member is the result', 'without a member the value is inferred', 'the selector carries the value and its filters')
for tagged, base in ((False, UN), (True, TU)):
    for m in ('to_python', 'json_key', 'serde_serialize'):
        contract('C28', base + m, ('tagged ' if tagged else '') + 'union ' + m, expect=OEXP, optional=False)(type('O', (Outer,), {'method': m, 'tagged': tagged}))
        contract('C28', base + m + '::{closure#0}', ('tagged ' if tagged else '') + 'union ' + m + ' selector', expect=('the member is asked about the value',))(type('S', (Selector,), {'method': 'json_key' if m == 'json_key' else 'to_python'}))


@contract('C28', U + 'TaggedUnionSerializer::tagged_union_serialize', 'tagged_union_serialize',
          expect=('the member named by the discriminator is asked first, strictly', 'it is asked again with subclasses allowed', 'its success is the result', 'otherwise the members are asked from left to right', 'a missing discriminator is a warning of the outermost union'))
class Tagged(Contract):
    stop = Outer.stop

    def ret(self, p, r):
        s, value, ex = p.arg(0), p.arg(1), p.arg(3)
        dv = p.events('*::get_discriminator_value')
        p.require('the discriminator is read from the value', AND(len(dv) == 1, *([p.V(dv[0].args[0]).t == s.t, p.V(dv[0].args[1]).t == value.t] if dv else [])))
        if len(dv) != 1:
            return
        tag = p.V(dv[0].ret)
        rw = p.events('*register_warning')
        p.require('a missing discriminator is a warning of the outermost union', AND((len(rw) == 1) == AND(tag.is_('None'), ex.f('check').is_('None')), len(rw) <= 1, p.V(rw[0].args[0]).t == ex.f('warnings').t if rw else True))
        ca = [c for c in calls(p.st.events)]
        g = [ev for ev in p.st.events if ev.name.endswith('::get') and 'HashMap' in ev.name]
        un = p.events('*::union_serialize')
        if ca:
            if len(g) != 1:
                raise Lost('the lookup of the tag')
            ts = [ev for ev in p.st.events if ev.name.endswith('::to_string')]
            p.require('the member is the one named by the discriminator', AND(tag.is_('Some'), len(ts) == 1, *([p.V(ts[0].args[0]).t == tag.as_('Some').t, p.V(g[0].args[1]).t == p.V(ts[0].ret).t] if ts else []), p.V(g[0].args[0]).t == s.f('lookup').t, p.V(g[0].ret).is_('Some')))
            idx = p.V(g[0].ret).as_('Some')
            rl = p.events('*::retry_with_lax_check')
            before = lambda c: [x for x in rl if p.st.events.index(x) < p.st.events.index(c)]
            for k, c in enumerate(ca):
                a = p.V(c.args[1])
                what = 'the member named by the discriminator is asked first, strictly' if k == 0 else 'it is asked again with subclasses allowed'
                p.require(what, AND(k < 2, a.f(0).t == uf('elem', Val, z3.IntSort(), Val)(s.f('choices').t, idx.z), same_extra(p, a.f(1), ex), a.f(1).f('check').is_('Strict' if k == 0 else 'Lax')))
                if k:
                    p.require(what, AND(p.V(ca[k - 1].ret).is_('Err'), OR(False, *[p.V(x.ret).z for x in before(c)])))
            res = p.V(ca[-1].ret)
            p.require('its success is the result', res.is_('Ok') == (len(un) == 0))
            if not un:
                p.require('its success is the result', AND(r.is_('Ok'), r.as_('Ok').is_('Some'), r.as_('Ok').as_('Some').t == res.as_('Ok').t))
            elif len(ca) == 1:
                p.require('it is asked again with subclasses allowed', NOT(OR(False, *[p.V(x.ret).z for x in before(un[0])][:1])))
        else:
            p.require('the member named by the discriminator is asked first, strictly', AND(len(un) == 1, OR(tag.is_('None'), p.V(g[0].ret).is_('None') if g else False)))
        if un:
            a = [p.V(x) for x in un[0].args]
            rl = p.events('*::retry_with_lax_check')
            p.require('otherwise the members are asked from left to right', AND(len(un) == 1, a[1].t == ex.t, a[2].t == s.f('choices').t, r.eq(p.V(un[0].ret)), len(rl) > 0, a[3].z == p.V(rl[-1].ret).z if rl else False))


@contract('C28', U + 'TaggedUnionSerializer::get_discriminator_value', 'get_discriminator_value', expect=('the tag of a dict is its item', 'the tag of an object is its attribute', 'a discriminator function decides'))
class Discr(Contract):
    unstop = True

    def ret(self, p, r):
        d = p.arg(0).f('discriminator')
        ge, at, cl = p.events('*py_get_dict_item'), p.events('*simple_py_get_attr'), p.events('*call1')
        n = len(ge) + len(at) + len(cl)
        p.require('one way of reading the tag', AND(n == 1, d.is_('Function') == (len(cl) == 1)))
        if n != 1:
            return
        ev = (ge + at + cl)[0]
        res = p.V(ev.ret)
        if cl:
            p.require('a discriminator function decides', AND(r.is_('Some') == res.is_('Ok'), IMP(res.is_('Ok'), r.as_('Some').t == res.as_('Ok').t)))
            return
        what = 'the tag of a dict is its item' if ge else 'the tag of an object is its attribute'
        dict_ = [x for x in p.st.trail if x.startswith('downcast=')]
        if len(dict_) != 1:
            raise Lost('the kind of the value')
        p.require(what, AND((dict_[0] == 'downcast=Ok') == bool(ge), p.V(ev.args[0]).t == d.as_('LookupKey').t))
        some = AND(res.is_('Ok'), res.as_('Ok').is_('Some'))
        p.require(what, AND(r.is_('Some') == some, IMP(some, r.as_('Some').t == res.as_('Ok').as_('Some').f(1).t)))


class Any(Contract):
    """subclasses are tried when some nested serializer wants them"""
    fields = ()

    def ret(self, p, r):
        evs = [ev for ev in p.st.events if ev.name.endswith(('::retry_with_lax_check', '::any'))]
        p.require('the nested serializers decide', len(evs) > 0)
        p.require('the nested serializers decide', r.z == OR(False, *[p.V(ev.ret).z for ev in evs]))
        if p.feasible(NOT(r.z)):
            p.require('every nested serializer is asked', IMP(NOT(r.z), len(evs) == len(self.fields)))
        for ev, f in zip(evs, self.fields):
            a = p.V(ev.args[0])
            if isinstance(a.v, ItV):
                if a.v.kind != 'seq':
                    continue
                a = p.V(a.v.src)
            p.require('every nested serializer is asked', a.t == p.arg(0).f(f).t)


for st, f in (('union::UnionSerializer', ('choices',)), ('union::TaggedUnionSerializer', ('choices',)), ('dict::DictSerializer', ('key_serializer', 'value_serializer')), ('list::ListSerializer', ('item_serializer',)), ('set_frozenset::SetSerializer', ('item_serializer',)),
              ('set_frozenset::FrozenSetSerializer', ('item_serializer',)), ('nullable::NullableSerializer', ('serializer',)), ('with_default::WithDefaultSerializer', ('serializer',)), ('json::JsonSerializer', ('serializer',)),
              ('json_or_python::JsonOrPythonSerializer', ('json', 'python')), ('function::FunctionWrapSerializer', ('serializer', 'return_serializer'))):
    contract('C28', '<' + T + st + ' as *TypeSerializer>::retry_with_lax_check', st.split('::')[1] + ' retry', expect=('the nested serializers decide', 'every nested serializer is asked'))(type('A', (Any,), {'fields': f}))


class Allow(Contract):
    """a class member matches its class exactly, or with subclasses where allowed"""

    def ret(self, p, r):
        c = p.arg(2).f('check')
        ty, ii, ha = p.events('*::is'), p.events('*::is_instance'), p.events('*::hasattr')
        p.require('the way of matching follows the check', AND(c.is_('Strict') == (len(ty) == 1), c.is_('Lax') == (len(ii) == 1), c.is_('None') == (len(ha) == 1), len(ty) + len(ii) + len(ha) == 1))
        for ev in ty:
            gt = p.events('*::get_type')
            p.require('strictly only the class itself matches', AND(r.is_('Ok'), r.as_('Ok').z == p.V(ev.ret).z, len(gt) == 1, *([p.V(gt[0].args[0]).t == p.arg(1).t, p.V(ev.args[0]).t == p.V(gt[0].ret).t] if gt else [])))
        for ev in ii + ha:
            p.require('otherwise Python decides', AND(p.V(ev.args[0]).t == p.arg(1).t, r.eq(p.V(ev.ret))))


for st in ('model::ModelSerializer', 'dataclass::DataclassSerializer'):
    contract('C28', T + st + '::allow_value', st.split('::')[1] + ' allow_value', expect=('the way of matching follows the check', 'strictly only the class itself matches', 'otherwise Python decides'))(type('Al', (Allow,), {}))


class Member(Contract):
    """a member that does not match the value reports it; only a loose match may be inferred without a report"""
    kind = 'type'          # type: is_type, class: allow_value, downcast
    method = 'to_python'

    def ret(self, p, r):
        m = self.method
        ex = p.arg(2) if m == 'json_key' else p.arg(4)
        value = p.arg(1)
        fb = p.events('*::on_fallback_py')
        inf = [e for e in p.st.events if e.name.split('::')[-1] == INFER[m] and p.holds(p.V(e.args[0]).t == value.t)]
        p.require('a mismatch is reported once', len(fb) <= 1)
        for ev in fb:
            a = [p.V(x) for x in ev.args]
            res = p.V(ev.ret)
            p.require('the report is about the value, with the check of the union', AND(a[0].t == ex.f('warnings').t, a[2].t == value.t, a[3].f('check').t == ex.f('check').t))
            p.require('a report that fails is the failure of the member', AND(res.is_('Err') == (len(inf) == 0), IMP(res.is_('Err'), AND(r.is_('Err'), r.as_('Err').t == res.as_('Err').t))))
        self.match(p, r, ex, value, fb, inf)

    def match(self, p, r, ex, value, fb, inf):
        m = self.method
        if self.kind == 'type':
            it = p.events('*::is_type')
            if len(it) != 1:
                raise Lost('the type of the value')
            t = p.V(it[0].ret)
            p.require('the type asked for is the one of the member', p.V(it[0].args[1]).t == value.t)
            p.require('a mismatch is reported', t.is_('False') == (len(fb) == 1))
            sub = AND(t.is_('Subclass'), ex.f('check').is_('Strict'))
            p.require('strictly a subclass does not match', IMP(sub, AND(r.is_('Err'), len(inf) == 0)))
            p.require('an exact match is no failure', IMP(t.is_('Exact'), len(inf) == 0))
        elif self.kind == 'class':
            al = p.events('*::allow_value')
            if not al:
                p.require('without asking for the class only inference is done', p.holds(OR(*[r.eq(p.V(e.ret)) for e in inf])) if inf else True)
                return
            a = p.V(al[0].ret)
            p.require('the class asked for is the one of the value', AND(p.V(al[0].args[1]).t == value.t, p.V(al[0].args[2]).f('check').t == ex.f('check').t))
            p.require('a mismatch is reported', AND(a.is_('Ok'), NOT(a.as_('Ok').z)) == (len(fb) == 1) if not self.root(p) else True)

    def root(self, p):
        return False


MEXP = ('a mismatch is reported', 'the report is about the value, with the check of the union', 'a report that fails is the failure of the member')
for st in ('simple::IntSerializer', 'simple::BoolSerializer', 'float::FloatSerializer'):
    for m in ('to_python', 'json_key'):
        contract('C28', '<' + T + st + ' as *TypeSerializer>::' + m, st.split('::')[1] + ' ' + m, expect=MEXP + ('strictly a subclass does not match',))(type('M', (Member,), {'method': m}))


class Rooted(Member):
    """a root model is told apart by its class while members are tried"""
    kind = 'class'

    def root(self, p):
        s = p.arg(0)
        return s.has('root_model') and p.holds(s.f('root_model').z)

    def match(self, p, r, ex, value, fb, inf):
        Member.match(self, p, r, ex, value, fb, inf)
        if not self.root(p):
            return
        nested = [e for e in p.st.events if e.name.endswith('::to_python')]
        al = p.events('*::allow_value')
        ok = OR(False, *[AND(p.V(a.ret).is_('Ok'), p.V(a.ret).as_('Ok').z) for a in al])
        p.require('the root of another class is not serialized while members are tried', IMP(NOT(ex.f('check').is_('None')), OR(len(nested) == 0, ok)))
        if al and not nested:
            p.require('a root model of another class is a failure', r.is_('Err'))


contract('C28', '<' + T + 'model::ModelSerializer as *TypeSerializer>::to_python', 'ModelSerializer to_python', expect=MEXP + ('the class asked for is the one of the value', 'the root of another class is not serialized while members are tried'))(type('R', (Rooted,), {}))
contract('C28', '<' + T + 'dataclass::DataclassSerializer as *TypeSerializer>::to_python', 'DataclassSerializer to_python', expect=MEXP + ('the class asked for is the one of the value',))(type('D', (Member,), {'kind': 'class'}))


@contract('C28', SER + 'extra::CollectWarnings::on_fallback_py', 'on_fallback_py', expect=('None is no mismatch', 'while members are tried a mismatch is a failure', 'otherwise it is a warning'))
class OnFallback(Contract):
    def ret(self, p, r):
        c = p.arg(3).f('check')
        nn = p.events('*::is_none')
        if len(nn) != 1:
            raise Lost('the check for None')
        none = p.V(nn[0].ret).z
        rw = [e for e in p.st.events if e.name.endswith(('::fallback_warning', '::register_warning'))]
        p.require('None is no mismatch', IMP(none, AND(r.is_('Ok'), len(rw) == 0)))
        p.require('while members are tried a mismatch is a failure', IMP(AND(NOT(none), NOT(c.is_('None'))), r.is_('Err')))
        p.require('otherwise it is a warning', IMP(AND(NOT(none), c.is_('None')), AND(r.is_('Ok'), len(rw) == 1, p.V(rw[0].args[-1]).t == p.arg(2).t if rw and rw[0].name.endswith('fallback_warning') else True)))
