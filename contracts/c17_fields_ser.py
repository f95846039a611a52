"""C17: field serialization drops and renames exactly as requested"""
from contracts.ser import *

DUMP = {'stop': ['*key_filter', '*index_filter', '*infer_to_python', '*infer_serialize', '*on_fallback_py', '*on_fallback_ser', '*infer_json_key_known', '*infer_json_key', '*fields::exclude_default', '*SerField::get_key_py', '*SerField::get_key_json', '*fields::key_str',
                 '*SerField::new', '*get_default', '*extract_dicts', '*main_to_python', '*main_serde_serialize', '*add_computed_fields_*', '*serialize_by_alias_or', '*model_type_name', '*dict_items', '*known_dataclass_iter', '*SchemaDict*', '*ComputedFields::new', '*CombinedSerializer*::build',
                 '*ComputedField::to_python', '*allow_value', '*get_inner_value', '*from_schema_or_config', '*DefaultType::default_value'], 'roots': ['*GeneralFieldsSerializer::new']}
ASSUMPTIONS = ['the nested serializers are arbitrary', 'Python equality decides whether a value equals its default', 'the filters decide which keys are kept (C15)']
FS = SER + 'fields::'
G = FS + 'GeneralFieldsSerializer::'




def same_extra(p, x, base, fname=None):
    """the settings passed down are the ones in effect; only the field name (and the names in but) may differ"""
    e = p.e
    out = []
    for fi, f in enumerate(e.types[base.ty]['v'][0]['f']):
        n = f[0]
        if n == 'field_name':
            if fname is not None:
                out.append(AND(x.f(n).is_('Some'), x.f(n).as_('Some').t == fname.t))
        else:
            out.append(x.f(n).eq(base.f(n)))
    return AND(*out)


def about(p, evs, suffix, view, i=0):
    return [ev for ev in evs if ev.name.endswith(suffix) and p.holds(p.V(ev.args[i]).t == view.t)]


WRITES = ('PyDictMethods::set_item', '::serialize_entry')


class Loop(Contract):
    """what one iteration over the fields (or extras) writes"""
    json = False
    extras = False         # the loop over __pydantic_extra__
    inc, exc, extra = 3, 4, 5
    EXP = ('None is dropped exactly under exclude_none', 'a field excluded by the filters is dropped', 'a field excluded by the schema is dropped', 'a default is dropped exactly under exclude_defaults', 'a kept field is written once, with its serializer',
           'the key is the one of the field', 'an extra is written when extras are allowed', 'an unknown field is never written')

    def ex(self, p):
        return p.arg(self.extra)

    def pair(self, p, nx):
        it = p.V(nx.ret).as_('Some')
        if not self.extras:
            it = it.as_('Ok')
        return it.f(0), it.f(1)

    def iter(self, p, L):
        evs = p.iter_events()
        me, ex = p.arg(0), self.ex(p)
        nx = nexts(evs)
        if len(nx) != 1:
            raise Lost('the items')
        key, val = self.pair(p, nx[0])
        wr = [ev for ev in evs if ev.name.endswith(WRITES)]
        ns = nested_of(p, evs)
        nn = about(p, evs, '::is_none', val)
        fl = filter_calls(evs)
        gf = [ev for ev in evs if ev.name.endswith('::get') and p.holds(p.V(ev.args[0]).t == me.f('fields').t)]
        ks = about(p, evs, 'fields::key_str', key)
        if not self.extras:
            for g in gf:
                p.require('the field is the one named by the key', AND(len(ks) == 1, p.V(g.args[1]).t == p.V(ks[0].ret).as_('Ok').t if ks else False))
        N = AND(ex.f('exclude_none').z, p.V(nn[0].ret).z if nn else z3.Bool(p.e.fresh_name('none')))
        field = p.V(gf[0].ret) if gf else None
        if not fl:
            p.require('None is dropped exactly under exclude_none', AND(N, len(wr) + len(ns) == 0))
            self.count(p, field, True)
            return
        a = [p.V(x) for x in fl[0].args]
        p.require('the filters are asked for the key', AND(len(fl) == 1, a[0].eq(me.f('filter')), a[1].t == key.t, ref_opt_eq(a[2], p.arg(self.inc)), ref_opt_eq(a[3], p.arg(self.exc))))
        if p.feasible(N):
            p.require('None is dropped exactly under exclude_none', IMP(N, len(wr) + len(ns) == 0))
            if p.holds(N):
                return
        F = p.V(fl[0].ret).as_('Ok')
        if p.holds(F.is_('None')):
            p.require('a field excluded by the filters is dropped', len(wr) + len(ns) == 0)
            self.count(p, field, False)
            return
        nf = F.as_('Some')
        if self.extras:
            return self.extra_item(p, evs, key, val, nf, wr, ns, None)
        if not gf:
            raise Lost('the lookup of the field')
        if p.holds(field.is_('Some')):
            self.count(p, field, True)
            f = field.as_('Some')
            sr = f.f('serializer')
            if p.holds(sr.is_('None')):
                p.require('a field excluded by the schema is dropped', len(wr) + len(ns) == 0)
                return
            ed = about(p, evs, 'exclude_default', val)
            p.require('a default is dropped exactly under exclude_defaults', AND(len(ed) == 1, p.V(ed[0].args[2]).eq(sr.as_('Some')) if ed else False, same_extra(p, p.V(ed[0].args[1]), ex) if ed else False))
            if not ed:
                return
            if not ns:
                p.require('a default is dropped exactly under exclude_defaults', AND(p.V(ed[0].ret).as_('Ok').z, len(wr) == 0))
                return
            p.require('a default is dropped exactly under exclude_defaults', NOT(p.V(ed[0].ret).as_('Ok').z))
            self.written(p, 'a kept field is written once, with its serializer', ns, wr, val, nf, p.V(ks[0].ret).as_('Ok'))
            p.require('a kept field is written once, with its serializer', ns[0].ser is not None and p.holds(ns[0].ser.eq(sr.as_('Some'))))
            gk = [ev for ev in evs if ev.name.endswith(('get_key_py', 'get_key_json'))]
            k = p.V(gk[0].args[0]) if gk else None
            p.require('the key is the one of the field', AND(len(gk) == 1, *([k.eq(f), p.V(wr[0].args[1]).t == p.V(gk[0].ret).t, same_extra(p, p.V(gk[0].args[-1]), ex), p.V(gk[0].args[1]).t == p.V(ks[0].ret).as_('Ok').t if self.json else True] if gk and wr else [])))
            return
        self.count(p, field, False)
        td = me.f('mode').is_('TypedDictAllow')
        if ns or wr:
            p.require('an unknown field is never written', AND(field.is_('None'), td))
            self.extra_item(p, evs, key, val, nf, wr, ns, p.V(ks[0].ret).as_('Ok'))
        else:
            p.require('an extra is written when extras are allowed', NOT(td))
            if not self.json:
                p.require('an unknown field is reported when the value is checked strictly', NOT(ex.f('check').is_('Strict')))

    def extra_item(self, p, evs, key, val, nf, wr, ns, fname):
        W = 'an extra is written when extras are allowed'
        self.written(p, W, ns, wr, val, nf, fname)
        if not ns or not wr:
            return
        es = p.arg(0).f('extra_serializer')
        n = ns[0]
        p.require('extras are serialized with the declared schema', z3.If(es.is_('Some'), n.ser.eq(es.as_('Some').unbox()) if n.ser is not None else False, n.ser is None))
        w = p.V(wr[0].args[1])
        ik = about(p, evs, 'infer_json_key', key)
        p.require(W, p.V(ik[0].ret).as_('Ok').t == w.t if ik else w.t == key.t)

    def written(self, p, what, ns, wr, val, nf, fname):
        p.require(what, AND(len(ns) == 1, len(wr) == 1))
        if len(ns) != 1 or len(wr) != 1:
            return
        n = ns[0]
        p.require(what, AND(n.value.t == val.t, ref_opt_eq(n.inc, nf.f(0)), ref_opt_eq(n.exc, nf.f(1)), same_extra(p, n.extra, self.ex(p), fname)))
        if not n.json:
            p.require(what, AND(n.out.is_('Ok'), p.V(wr[0].args[2]).t == n.out.as_('Ok').t))

    def count(self, p, field, seen):
        if self.json or self.extras:
            return
        vs = loop_vars(p, p.L, '^usize$')
        if len(vs) != 1:
            return          # several counters: the required fields are counted in a way not followed here
        if field is None:
            return
        inc = vs[0].cur.z - vs[0].head.z
        if seen:
            p.require('a required field that is present is counted once', inc == z3.If(AND(field.is_('Some'), field.as_('Some').f('required').z), 1, 0))
        else:
            p.require('only a required field is counted', OR(inc == 0, AND(inc == 1, field.is_('Some'), field.as_('Some').f('required').z)))

    def ret(self, p, r):
        evs, done = done_loop(p)
        if evs is None:
            return self.noloop(p, r)
        if not done:
            p.require('an early return is an error', r.is_('Err'))
            return
        self.finish(p, r, loops(p)[-1][0])

    def noloop(self, p, r):
        pass

    def finish(self, p, r, L):
        new = p.events('*PyDict::new')
        ex, me = self.ex(p), p.arg(0)
        if p.holds(r.is_('Ok')):
            p.require('the result is the written dict', r.as_('Ok').t == p.V(new[0].ret).t)
        vs = loop_vars(p, L, '^usize$')
        if len(vs) == 1:
            off = OR(ex.f('exclude_defaults').z, ex.f('exclude_unset').z, ex.f('exclude_none').z, p.arg(self.inc).is_('Some'), p.arg(self.exc).is_('Some'))
            p.require('a missing required field is reported when the value is checked', r.is_('Err') == AND(NOT(ex.f('check').is_('None')), NOT(off), me.f('required_fields').z > vs[0].head.z))
            p.require('counting starts at zero', vs[0].entry.z == 0)


contract('C17', G + 'main_to_python', 'main_to_python', expect=Loop.EXP + ('a missing required field is reported when the value is checked',))(Loop)


class LoopJs(Loop):
    json = True
    inc, exc, extra = 4, 5, 6

    def finish(self, p, r, L):
        sm = [ev for ev in p.st.events if ev.name.endswith('::serialize_map')]
        p.require('the result is the written map', AND(len(sm) == 1, r.is_('Ok')))


contract('C17', G + 'main_serde_serialize', 'main_serde_serialize', expect=Loop.EXP)(LoopJs)


@contract('C17', FS + 'exclude_default', 'exclude_default', expect=('a value equal to the default is dropped', 'nothing else is dropped'))
class ExDef(Contract):
    def ret(self, p, r):
        on = p.arg(1).f('exclude_defaults').z
        gd = p.events('*get_default')
        eq = [ev for ev in p.st.events if ev.name.endswith('PyAnyMethods::eq')]
        if p.holds(r.is_('Err')):
            p.require('an error comes from the default or the comparison', AND(on, OR(*[p.V(ev.ret).is_('Err') for ev in gd + eq])))
            return
        res = r.as_('Ok').z
        if not gd:
            p.require('nothing else is dropped', AND(NOT(on), NOT(res)))
            return
        d = p.V(gd[0].ret)
        p.require('the default is the one of the serializer', AND(on, p.V(gd[0].args[0]).eq(p.arg(2)), d.is_('Ok')))
        if not eq:
            p.require('nothing else is dropped', AND(d.as_('Ok').is_('None'), NOT(res)))
            return
        p.require('a value equal to the default is dropped', AND(d.as_('Ok').is_('Some'), p.V(eq[0].args[0]).t == p.arg(0).t, p.V(eq[0].args[1]).t == d.as_('Ok').as_('Some').t, res == p.V(eq[0].ret).as_('Ok').z))


def alias_on(p, extra, own):
    ev = p.events('*serialize_by_alias_or')
    if len(ev) != 1:
        raise Lost('the alias setting')
    p.require('the alias setting is the one of the call, else of the schema', AND(p.V(ev[0].args[0]).eq(extra), p.V(ev[0].args[1]).eq(own)))
    return p.V(ev[0].ret).z


class GetKey(Contract):
    json = False

    def ret(self, p, r):
        me = p.arg(0)
        on = alias_on(p, p.arg(2), me.f('serialize_by_alias'))
        al = me.f('alias' if self.json else 'alias_py')
        use = AND(on, al.is_('Some'))
        t = r.t
        if self.json:
            if not p.holds(r.is_('Borrowed')):
                raise Lost('the key')
            t = r.as_('Borrowed').t
        p.require('the key is the alias exactly when aliases are in effect', t == z3.If(use, al.as_('Some').t, (p.arg(1) if self.json else me.f('key_py')).t))


contract('C17', FS + 'SerField::get_key_py', 'SerField::get_key_py', expect=('the key is the alias exactly when aliases are in effect',))(GetKey)
contract('C17', FS + 'SerField::get_key_json', 'SerField::get_key_json', expect=('the key is the alias exactly when aliases are in effect',))(type('GetKeyJs', (GetKey,), {'json': True}))


@contract('C17', SER + 'extra::Extra::*serialize_by_alias_or', 'serialize_by_alias_or', expect=('the call decides, then the schema, then not',))
class ByAlias(Contract):
    def ret(self, p, r):
        c, s = p.arg(0).f('by_alias'), p.arg(1)
        p.require('the call decides, then the schema, then not', r.z == z3.If(c.is_('Some'), c.as_('Some').z, z3.If(s.is_('Some'), s.as_('Some').z, False)))


class Top(Loop):
    """GeneralFieldsSerializer: declared fields, then extras, then computed fields"""
    extras = True
    inc, exc, extra = 2, 3, 4
    main = '::main_to_python'
    off = 0

    def ret(self, p, r):
        me, ex = p.arg(0), p.arg(self.extra)
        mt, cf, xd = p.events('*' + self.main), p.events('*add_computed_fields_*'), p.events('*extract_dicts')
        evs, done = done_loop(p)
        if not mt:
            inf = p.events('*infer_to_python', '*infer_serialize')
            if p.holds(r.is_('Err')):
                return
            p.require('other values are serialized by their type', AND(len(inf) == 1, len(cf) == 0, r.eq(p.V(inf[0].ret)) if inf else False))
            return
        o = self.off
        a = [p.V(x) for x in mt[0].args]
        d = p.V(xd[0].ret).as_('Some') if xd else None
        n = len(a)
        p.require('the fields of the value are written first', AND(len(mt) == 1, a[0].eq(me), ref_opt_eq(a[n - 3], p.arg(self.inc)), ref_opt_eq(a[n - 2], p.arg(self.exc))))
        m = ex.f('model')
        x = a[n - 1]
        p.require('the settings in effect are passed on', AND(*[x.f(f[0]).eq(ex.f(f[0])) for f in p.e.types[ex.ty]['v'][0]['f'] if f[0] != 'model'], x.f('model').is_('Some'), z3.If(m.is_('Some'), x.f('model').as_('Some').t == m.as_('Some').t, x.f('model').as_('Some').t == p.arg(1).t)))
        di = p.events('*dict_items')
        p.require('the fields come from the dict of the value', AND(len(di) == 1, p.V(di[0].args[0]).t == d.f(0).t) if di and d is not None else False)
        if d is not None and evs is None and p.holds(AND(p.V(mt[0].ret).is_('Ok'), d.f(1).is_('Some'))):
            p.require('extras are written when there are some', False)
        if evs is not None and not done:
            p.require('an early return is an error', r.is_('Err'))
            return
        if p.holds(r.is_('Ok')) or (self.json and p.events('*SerializeMap::end', '*::end')):
            p.require('computed fields are written last', AND(len(cf) == 1, p.V(cf[0].ret).is_('Ok') if cf else False))
            if cf:
                c = [p.V(z) for z in cf[0].args]
                p.require('computed fields are written last', AND(c[0].eq(me), c[1].is_('Some'), ref_opt_eq(c[3], p.arg(self.inc)), ref_opt_eq(c[4], p.arg(self.exc)), c[5].eq(ex)))
            self.result(p, r, mt)

    def result(self, p, r, mt):
        p.require('the result is the written dict', AND(p.V(mt[0].ret).is_('Ok'), r.as_('Ok').t == p.V(mt[0].ret).as_('Ok').t))


TEXP = ('the fields of the value are written first', 'computed fields are written last', 'an extra is written when extras are allowed', 'other values are serialized by their type')
contract('C17', '<' + FS + 'GeneralFieldsSerializer as *TypeSerializer>::to_python', 'fields to_python', expect=TEXP)(Top)


class TopJs(Top):
    json = True
    inc, exc, extra = 3, 4, 5
    main = '::main_serde_serialize'

    def result(self, p, r, mt):
        pass


contract('C17', '<' + FS + 'GeneralFieldsSerializer as *TypeSerializer>::serde_serialize', 'fields serde_serialize', expect=TEXP)(TopJs)


@contract('C17', G + 'new', 'GeneralFieldsSerializer::new', expect=('the required fields are counted over all fields', 'the fields are the given ones'))
class New(Contract):
    def ret(self, p, r):
        co = [ev for ev in p.st.events if ev.name.endswith('::count')]
        if len(co) != 1:
            raise Lost('the count')
        vs, fi = [ev for ev in p.st.events if ev.name.endswith('::values')], p.events('*Iterator::filter')
        if len(vs) != 1 or len(fi) != 1:
            raise Lost('the count')
        p.require('the required fields are counted over all fields', AND(p.V(vs[0].args[0]).t == p.arg(0).t, p.V(fi[0].args[0]).t == p.V(vs[0].ret).t, p.V(co[0].args[0]).t == p.V(fi[0].ret).t, r.f('required_fields').z == p.V(co[0].ret).z))
        p.require('the fields are the given ones', AND(r.f('fields').t == p.arg(0).t, r.f('mode').eq(p.arg(1)), r.f('computed_fields').eq(p.arg(3))))


@contract('C17', G + 'new::{closure#0}', 'GeneralFieldsSerializer::new closure', optional=True, expect=('a field counts exactly when it is required',))
class NewC(Contract):
    def ret(self, p, r):
        p.require('a field counts exactly when it is required', r.z == p.arg(1).f('required').z)


CF = SER + 'computed_fields::'


@contract('C17', CF + 'ComputedField::to_python', 'ComputedField::to_python', expect=('a computed field that is kept is written once', 'a computed field excluded by the filters is dropped', 'a computed None is dropped exactly under exclude_none', 'the key is the alias exactly when aliases are in effect'))
class Computed(Contract):
    def ret(self, p, r):
        me, ex = p.arg(0), p.arg(6)
        evs = p.st.events
        fl, ga = filter_calls(evs), [ev for ev in evs if ev.name.endswith('::getattr')]
        if len(fl) != 1:
            raise Lost('the filter')
        a = [p.V(x) for x in fl[0].args]
        p.require('the filters are asked for the name', AND(a[0].eq(p.arg(3)), a[1].t == me.f('property_name_py').t, ref_opt_eq(a[2], p.arg(4)), ref_opt_eq(a[3], p.arg(5))))
        F = p.V(fl[0].ret)
        wr, ns = [ev for ev in evs if ev.name.endswith(WRITES)], nested_of(p, evs)
        if p.holds(F.is_('Err')):
            p.require('a failing filter is raised', r.is_('Err'))
            return
        if p.holds(F.as_('Ok').is_('None')):
            p.require('a computed field excluded by the filters is dropped', AND(len(wr) + len(ns) == 0, r.is_('Ok')))
            return
        if len(ga) != 1:
            raise Lost('the value')
        p.require('the value is the attribute of the instance', AND(p.V(ga[0].args[0]).t == p.arg(1).t, p.V(ga[0].args[1]).t == me.f('property_name_py').t))
        g = p.V(ga[0].ret)
        if p.holds(g.is_('Err')):
            p.require('a failing attribute is raised', AND(r.is_('Err'), len(wr) == 0))
            return
        val = g.as_('Ok')
        nn = about(p, evs, '::is_none', val)
        N = AND(ex.f('exclude_none').z, p.V(nn[0].ret).z if nn else z3.Bool(p.e.fresh_name('none')))
        if not wr:
            if p.holds(r.is_('Ok')):
                p.require('a computed None is dropped exactly under exclude_none', N)
            return
        p.require('a computed None is dropped exactly under exclude_none', NOT(N))
        W = 'a computed field that is kept is written once'
        p.require(W, AND(len(wr) == 1, len(ns) == 1))
        if len(ns) == 1:
            n, nf = ns[0], F.as_('Ok').as_('Some')
            p.require(W, AND(n.ser is not None and n.ser.eq(me.f('serializer')), n.value.t == val.t, ref_opt_eq(n.inc, nf.f(0)), ref_opt_eq(n.exc, nf.f(1)), n.extra.eq(ex), p.V(wr[0].args[0]).t == p.arg(2).t, p.V(wr[0].args[2]).t == n.out.as_('Ok').t))
        on = alias_on(p, ex, me.f('serialize_by_alias'))
        p.require('the key is the alias exactly when aliases are in effect', p.V(wr[0].args[1]).t == z3.If(on, me.f('alias_py').t, me.f('property_name_py').t))


class ComputedAll(Contract):
    json = False
    inc, exc, extra = 4, 5, 6

    def iter(self, p, L):
        evs = p.iter_events()
        nx = nexts(evs)
        if len(nx) != 1:
            raise Lost('the computed fields')
        f = p.V(nx[0].ret).as_('Some')
        ex = p.arg(self.extra)
        p.require('a round trip writes no computed field', NOT(ex.f('round_trip').z))
        if not self.json:
            tp = [ev for ev in evs if ev.name.endswith('ComputedField::to_python')]
            a = [p.V(x) for x in tp[0].args] if tp else None
            p.require('every computed field is written once', AND(len(tp) == 1, *([a[0].eq(f), a[1].t == p.arg(1).t, a[2].t == p.arg(2).t, a[3].eq(p.arg(3)), ref_opt_eq(a[4], p.arg(4)), ref_opt_eq(a[5], p.arg(5)),
                                                                                 same_extra(p, a[6], ex), a[6].f('field_name').is_('Some')] if tp else [])))
            return
        fl, ga, wr = filter_calls(evs), [ev for ev in evs if ev.name.endswith('::getattr')], [ev for ev in evs if ev.name.endswith(WRITES)]
        if len(fl) != 1:
            raise Lost('the filter')
        a = [p.V(x) for x in fl[0].args]
        p.require('every computed field is written once', AND(a[0].eq(p.arg(3)), a[1].t == f.f('property_name_py').t, ref_opt_eq(a[2], p.arg(4)), ref_opt_eq(a[3], p.arg(5))))
        F = p.V(fl[0].ret).as_('Ok')
        if p.holds(F.is_('None')):
            p.require('every computed field is written once', len(wr) == 0)
            return
        if len(ga) != 1:
            raise Lost('the value')
        nn = about(p, evs, '::is_none', p.V(ga[0].ret).as_('Ok'))
        N = AND(ex.f('exclude_none').z, p.V(nn[0].ret).z if nn else z3.Bool(p.e.fresh_name('none')))
        p.require('a computed None is dropped exactly under exclude_none', N == (len(wr) == 0))
        if wr:
            x = p.V(wr[0].args[2])
            on = alias_on(p, ex, f.f('serialize_by_alias'))
            w = p.V(wr[0].args[1])
            p.require('every computed field is written once', AND(len(wr) == 1, x.f('model').t == p.arg(1).t, x.f('computed_field').eq(f), ref_opt_eq(x.f('include'), F.as_('Some').f(0)), ref_opt_eq(x.f('exclude'), F.as_('Some').f(1)), same_extra(p, x.f('extra'), ex)))
            p.require('the key is the alias exactly when aliases are in effect', w.t == z3.If(on, f.f('alias').t, f.f('property_name').t))

    def ret(self, p, r):
        evs, done = done_loop(p)
        if evs is None:
            p.require('a round trip writes no computed field', AND(p.arg(self.extra).f('round_trip').z, r.is_('Ok')))
        else:
            p.require('every computed field is visited', r.is_('Ok') if done else r.is_('Err'))


contract('C17', CF + 'ComputedFields::to_python', 'ComputedFields::to_python', expect=('every computed field is written once', 'a round trip writes no computed field'))(ComputedAll)
contract('C17', CF + 'ComputedFields::serde_serialize', 'ComputedFields::serde_serialize', expect=('every computed field is written once', 'a round trip writes no computed field', 'a computed None is dropped exactly under exclude_none'))(type('ComputedAllJs', (ComputedAll,), {'json': True}))


MO = T + 'model::ModelSerializer::'


@contract('C17', MO + 'get_inner_value', 'model: get_inner_value', expect=('unset fields are dropped exactly under exclude_unset', 'extras go with the fields'))
class Inner(Contract):
    def iter(self, p, L):
        evs = p.iter_events()
        nx, co, de = nexts(evs), named(evs, '::contains'), named(evs, '::del_item')
        cp = p.events('*PyDictMethods::copy')
        if len(nx) != 1 or len(co) != 1 or len(cp) != 1:
            raise Lost('the keys')
        k = p.V(nx[0].ret).as_('Some')
        fs = [ev for ev in p.events('*::getattr') if p.holds(p.V(ev.args[1]).eq('__pydantic_fields_set__'))]
        p.require('unset fields are dropped exactly under exclude_unset', AND(p.arg(2).f('exclude_unset').z, len(fs) == 1, p.V(co[0].args[0]).t == p.V(fs[0].ret).as_('Ok').t if fs else False, p.V(co[0].args[1]).t == k.t,
                  NOT(p.V(co[0].ret).as_('Ok').z) == (len(de) == 1), *([p.V(de[0].args[0]).t == p.V(cp[0].ret).as_('Ok').t, p.V(de[0].args[1]).t == k.t] if de else [])))

    def ret(self, p, r):
        evs, done = done_loop(p)
        if not p.holds(r.is_('Ok')):
            return
        ga = p.events('*::getattr')
        dd = [ev for ev in ga if p.holds(p.V(ev.args[1]).eq('__dict__'))]
        xx = [ev for ev in ga if p.holds(p.V(ev.args[1]).eq('__pydantic_extra__'))]
        if len(dd) != 1:
            raise Lost('the dict')
        base = p.V(dd[0].ret).as_('Ok').t
        unset = p.arg(2).f('exclude_unset').z
        cp = p.events('*PyDictMethods::copy')
        p.require('unset fields are dropped exactly under exclude_unset', unset == (evs is not None))
        if cp:
            p.require('the instance is not modified', p.V(cp[0].args[0]).t == base)
            base = p.V(cp[0].ret).as_('Ok').t
        has = p.arg(0).f('has_extra').z
        p.require('extras go with the fields', has == (len(xx) == 1))
        if not xx:
            p.require('the fields are the result', r.as_('Ok').t == base)


class Model(Contract):
    """the fields of an allowed instance are serialized with the declared schema"""
    inc, exc, extra = 2, 3, 4

    def ret(self, p, r):
        me, ex = p.arg(0), p.arg(self.extra)
        iv, av = p.events('*get_inner_value'), p.events('*allow_value')
        inf = p.events('*infer_to_python', '*infer_serialize')
        ns = [ev for ev in p.st.events if ev.name.endswith(('::to_python', '::serde_serialize')) and p.holds(p.V(ev.args[0]).eq(me.f('serializer').unbox()))]
        if p.holds(r.is_('Err')) and not ns:
            return
        if ns:
            a = [p.V(x) for x in ns[0].args]
            n = len(a)
            src = a[1]
            root = me.f('root_model').z
            ok = OR(*[src.t == p.V(ev.ret).as_('Ok').t for ev in iv + [ev for ev in p.events('*::getattr') if p.holds(p.V(ev.args[1]).eq('root'))]])
            p.require('an allowed instance is serialized with the declared schema', AND(len(ns) == 1, ok, OR(root, AND(len(av) == 1, p.V(av[0].ret).as_('Ok').z if av else False)), root == (len(iv) == 0), ref_opt_eq(a[n - 3], p.arg(self.inc)), ref_opt_eq(a[n - 2], p.arg(self.exc)), r.eq(p.V(ns[0].ret))))
            x = a[n - 1]
            p.require('the settings in effect are passed on', AND(*[x.f(f[0]).eq(ex.f(f[0])) for f in p.e.types[ex.ty]['v'][0]['f'] if f[0] not in ('model', 'field_name', 'duck_typing_ser_mode')], x.f('model').is_('Some'), x.f('model').as_('Some').t == p.arg(1).t))
        else:
            p.require('other values are serialized by their type', AND(len(inf) == 1, r.eq(p.V(inf[0].ret)) if inf else False))


MEXP = ('an allowed instance is serialized with the declared schema', 'other values are serialized by their type')
contract('C17', '<' + T + 'model::ModelSerializer as *TypeSerializer>::to_python', 'model to_python', expect=MEXP)(Model)
contract('C17', '<' + T + 'model::ModelSerializer as *TypeSerializer>::serde_serialize', 'model serde_serialize', expect=MEXP)(type('ModelJs', (Model,), {'inc': 3, 'exc': 4, 'extra': 5}))


@contract('C17', '<' + T + 'with_default::WithDefaultSerializer as *TypeSerializer>::get_default', 'get_default', expect=('the default is the declared one',))
class GetDefault(Contract):
    def ret(self, p, r):
        d = p.arg(0).f('default')
        dv = p.events('*DefaultType::default_value')
        takes = AND(d.is_('DefaultFactory'), d.as_('DefaultFactory', 1).z)
        if dv:
            p.require('the default is the declared one', AND(NOT(takes), p.V(dv[0].args[0]).eq(d), r.eq(p.V(dv[0].ret))))
        else:
            p.require('a default that depends on other fields is not compared', AND(takes, r.is_('Ok'), r.as_('Ok').is_('None')))
