"""shared contracts of the field loops of model fields and typed dicts"""
from contracts.common import *


def is_validate(ev):
    return ev.name.endswith('Validator::validate')


def nexts(evs):
    return [ev for ev in evs if ev.name == '<next>']


def named(evs, s):
    return [ev for ev in evs if ev.name.endswith(s)]


def one_vec(p, L, ty, what):
    v = loop_vecs(p, L, ty)
    if len(v) != 1:
        raise Lost(what)
    return v[0]


class Inner:
    """a loop over the errors of one step: every error is appended exactly once, relocated by wrap"""
    def inner(self, p, L, name, wrap):
        evs = p.iter_events()
        er = one_vec(p, L, 'ValLineError', 'error vector')
        nx = nexts(evs)
        if len(nx) != 1:
            raise Lost('error loop')
        one = p.V(nx[0].ret).as_('Some')
        p.require(name, AND(er.appended is not None and len(er.appended) == 1, wrap(evs, one, er.appended[0]) if er.appended else False))


def located_at(p, evs, one, out, what):
    w = named(evs, 'with_outer_location')
    if not w:
        return False
    return AND(len(w) == 1, p.V(w[0].args[0]).eq(one), loc_is(p, p.V(w[0].args[1]), what), out.eq(p.V(w[0].ret)))


def loc_is(p, l, what):
    """the location item is what (given directly, or already converted to a LocItem)"""
    if l.ty is not None and p.e.types[l.ty].get('path', '').endswith('::LocItem') and what.ty is not None and not p.e.types[what.ty].get('path', '').endswith('::LocItem'):
        return AND(l.is_('S'), l.as_('S').eq(what))
    return l.eq(what)


class NoVec:
    starts_empty = unchanged = True
    appended = None


class Fields(Contract, Inner):
    """the loop over the declared fields"""
    vec_name = 'Py<pyo3::types::(string::)?PyString>'

    typed_dict = False     # typed dicts do not track the fields set, have optional fields and partial mode

    def fs(self, p, L):
        return NoVec() if self.typed_dict else one_vec(p, L, r'PyString', 'fields set vector')

    def iter(self, p, L):
        ls = loops(p)
        me = p.arg(0)
        if ls and len(ls) > 1 and ls[-1][0] is L:
            return self.error_loop(p, L, ls)
        evs = p.iter_events()
        self.step(p, L, evs)

    def error_loop(self, p, L, ls):
        outer = p.st.events[ls[0][1] + 1:]
        nx = nexts(outer)
        fld = p.V(nx[0].ret).as_('Some')
        gi, va, dv = named(outer, '::get_item'), [ev for ev in outer if is_validate(ev)], named(outer, '::default_value')
        me = p.arg(0)
        if dv:
            self.inner(p, L, 'errors of a default are kept', lambda evs, one, out: out.eq(one))
        elif va:
            path = p.V(gi[0].ret).as_('Ok').as_('Some').f(0)

            def w(evs, one, out):
                a = named(evs, 'apply_error_loc')
                return AND(len(a) == 1, *([p.V(a[0].args[0]).eq(path), p.V(a[0].args[1]).eq(one), p.V(a[0].args[2]).z == me.f('loc_by_alias').z, p.V(a[0].args[3]).eq(fld.f('name')), out.eq(p.V(a[0].ret))] if a else []))
            self.inner(p, L, 'errors of a field are located under the path used', w)
        else:
            self.inner(p, L, 'errors of reading a field are located under its name', lambda evs, one, out: located_at(p, evs, one, out, fld.f('name')))

    def step(self, p, L, evs):
        me = p.arg(0)
        nx = nexts(evs)
        fld = p.V(nx[0].ret).as_('Some')
        se, gi, va, dv, si, er_, ins = named(evs, 'LookupKeyCollection::select'), named(evs, 'ValidatedDict::get_item'), [ev for ev in evs if is_validate(ev)], named(evs, '::default_value'), named(evs, '::set_item'), \
            named(evs, 'LookupKey::error'), [ev for ev in evs if ev.name.endswith('::insert')]
        st = p.events('*validate_by_alias_or')
        sn = p.events('*validate_by_name_or')
        ok = len(se) == 1 and len(gi) == 1
        if len(st) != 1 or len(sn) != 1:
            raise Lost('by alias / by name')
        p.require('each field is looked up once', ok)
        if not ok:
            return
        p.require('the names in effect select the lookup key', AND(p.V(se[0].args[0]).eq(fld.f('lookup_key_collection')), p.V(se[0].args[1]).eq(p.V(st[0].ret)), p.V(se[0].args[2]).eq(p.V(sn[0].ret)),
                  p.V(st[0].args[1]).eq(me.f('validate_by_alias')), p.V(sn[0].args[1]).eq(me.f('validate_by_name'))))
        p.require('the field is looked up under its key', p.V(gi[0].args[1]).eq(p.V(se[0].ret).as_('Ok')))
        g = p.V(gi[0].ret)
        fs = self.fs(p, L)
        ers = one_vec(p, L, 'ValLineError', 'error vector')
        p.require('both lists start empty', fs.starts_empty and ers.starts_empty)
        cnt = [v for v in loop_vars(p, L, '^usize$')]
        # the number of set fields
        if p.holds(g.is_('Err')):
            p.require('an unreadable field is only an error', AND(len(va) + len(dv) + len(si) == 0, fs.unchanged, g.as_('Err').is_('LineErrors')))
            if self.typed_dict and not named(evs, '<loop>'):
                p.require('errors are only dropped for the last partial key of an optional field', AND(self.partial(p), NOT(fld.f('required').z)))
            return
        pair = g.as_('Ok').as_('Some')
        if p.holds(g.as_('Ok').is_('Some')):
            p.require('a given field is validated exactly once', AND(len(va) == 1, len(dv) == 0, *([p.V(va[0].args[0]).eq(fld.f('validator')), p.V(va[0].args[2]).t == pair.f(1).t] if va else [])))
            if not va:
                return
            sv = p.V(va[0].args[3])
            fn = sv.f('extra', 'field_name')
            p.require('the validator sees the name of its field', AND(fn.is_('Some'), fn.as_('Some').eq(fld.f('name_py'))))
            uk = self.used(p, L)
            if uk is not None and p.feasible(uk):
                fk = named(evs, '::first_key')
                p.require('a found key counts as used', IMP(uk, AND(len(ins) == 1, OR(*[AND(p.V(k.args[0]).eq(pair.f(0)), p.V(ins[0].args[1]).eq(p.V(k.ret))) for k in fk]) if ins and fk else False)))
            res = p.V(va[0].ret)
            if p.holds(res.is_('Ok')):
                p.require('a valid field is stored under its name', AND(len(si) == 1, *([p.V(si[0].args[1]).eq(fld.f('name_py')), p.V(si[0].args[2]).eq(res.as_('Ok')), self.target(p, si[0])] if si else []), ers.unchanged))
                if not self.typed_dict:
                    p.require('a given field is reported as set', AND(fs.appended is not None and len(fs.appended) == 1, fs.appended[0].eq(fld.f('name_py')) if fs.appended else False))
                p.require('the number of set fields is counted', len(cnt) == 1 and AND(cnt[0].entry.z == 0, cnt[0].cur.z == cnt[0].head.z + 1))
            else:
                p.require('a field that is not valid is neither stored nor set', AND(len(si) == 0, fs.unchanged))
                p.require('the number of set fields is counted', len(cnt) == 1 and cnt[0].cur.z == cnt[0].head.z)
                e = res.as_('Err')
                p.require('other errors end the validation', e.is_('LineErrors', 'Omit'))
                if p.holds(e.is_('Omit')):
                    p.require('an omitted field leaves no trace', ers.unchanged)
                elif self.typed_dict and not named(evs, '<loop>'):
                    p.require('errors are only dropped for the last partial key of an optional field', AND(self.partial(p), NOT(fld.f('required').z)))
            return
        p.require('an absent field takes its default', AND(len(va) == 0, len(dv) == 1, fs.unchanged, *([p.V(dv[0].args[0]).eq(fld.f('validator')), p.V(dv[0].args[2]).is_('Some'), p.V(dv[0].args[2]).as_('Some').eq(fld.f('name'))] if dv else [])))
        p.require('the number of set fields is counted', len(cnt) == 1 and cnt[0].cur.z == cnt[0].head.z)
        if not dv:
            return
        d = p.V(dv[0].ret)
        if p.holds(d.is_('Err')):
            p.require('other errors end the validation', d.as_('Err').is_('LineErrors', 'Omit'))
            if p.holds(d.as_('Err').is_('Omit')):
                p.require('an omitted field leaves no trace', AND(ers.unchanged, len(si) == 0))
        elif p.holds(d.as_('Ok').is_('Some')):
            p.require('the default is stored under the name', AND(len(si) == 1, ers.unchanged, *([p.V(si[0].args[1]).eq(fld.f('name_py')), p.V(si[0].args[2]).eq(d.as_('Ok').as_('Some')), self.target(p, si[0])] if si else [])))
        elif self.typed_dict and p.holds(NOT(fld.f('required').z)):
            p.require('an absent optional field leaves no trace', AND(len(er_) == 0, len(si) == 0, ers.unchanged))
        else:
            p.require('a missing field is reported', AND(len(er_) == 1, len(si) == 0, ers.appended is not None and len(ers.appended) == 1,
                      *([p.V(er_[0].args[0]).eq(p.V(se[0].ret).as_('Ok')), p.V(er_[0].args[1]).is_('Missing'), p.V(er_[0].args[3]).z == me.f('loc_by_alias').z, p.V(er_[0].args[4]).eq(fld.f('name')), ers.appended[0].eq(p.V(er_[0].ret))] if er_ and ers.appended else [])))

    def used(self, p, L):
        return None

    def partial(self, p):
        ia = p.events('*is_active')
        return p.V(ia[0].ret).z if ia else NOT(p.arg(3).f('allow_partial').is_('Off'))

    def target(self, p, si):
        new = p.events('*PyDict::new')
        return p.V(si.args[0]).eq(p.V(new[0].ret)) if new else False


class Extras(Contract, Inner):
    set_tracking = True
    keys = True

    def iter(self, p, L):
        ls = loops(p)
        me = p.arg(0)
        outer = p.st.events[ls[0][1] + 1:] if ls else p.iter_events()
        nx = nexts(outer)
        item = p.V(nx[0].ret).as_('Some')
        if not p.holds(item.is_('Ok')):
            p.require('an unreadable entry ends the validation', False)
            return
        key, value = item.as_('Ok').f(0), item.as_('Ok').f(1)
        vs, co, va, si = named(outer, '::validate_str'), named(outer, '::contains'), [ev for ev in outer if is_validate(ev)], named(outer, '::set_item')
        if len(vs) != 1:
            raise Lost('reading of the key')
        if ls and len(ls) > 1 and ls[-1][0] is L:
            if va:
                self.inner(p, L, 'errors of an extra are located under its key', lambda evs, one, out: located_at(p, evs, one, out, key))
            else:
                def w(evs, one, out):
                    wl, wt = named(evs, 'with_outer_location'), named(evs, 'with_type')
                    return AND(len(wl) == 1, len(wt) == 1, *([p.V(wl[0].args[0]).eq(one), p.V(wl[0].args[1]).eq(key), p.V(wt[0].args[0]).eq(p.V(wl[0].ret)), p.V(wt[0].args[1]).is_('InvalidKey'), out.eq(p.V(wt[0].ret))] if wl and wt else []))
                self.inner(p, L, 'a key that is no string is an error at the key', w)
            return
        ers, fs = self.vecs(p, L)
        kr = p.V(vs[0].ret)
        if p.holds(kr.is_('Err')):
            p.require('a key that is no string is no extra', AND(len(va) + len(si) == 0, fs.unchanged, kr.as_('Err').is_('LineErrors')))
            return
        if len(co) != 1:
            raise Lost('used keys')
        used = p.V(co[0].ret).z
        p.require('used keys are looked up under the key', p.V(co[0].args[0]).eq(me.f('used_keys')))
        if p.feasible(used):
            p.require('a used key is no extra', IMP(used, AND(len(va) + len(si) == 0, fs.unchanged, ers.unchanged)))
            if p.holds(used):
                return
        eb = me.f('extra_behavior')
        if p.holds(eb.is_('Forbid')):
            ne = named(outer, 'ValLineError::new_with_loc')
            p.require('a forbidden extra is one error at its key', AND(len(ne) == 1, len(va) + len(si) == 0, fs.unchanged, ers.appended is not None and len(ers.appended) == 1,
                      *([p.V(ne[0].args[0]).is_('ExtraForbidden'), p.V(ne[0].args[1]).t == value.t, p.V(ne[0].args[2]).t == key.t, ers.appended[0].eq(p.V(ne[0].ret))] if ne and ers.appended else [])))
            return
        if p.holds(eb.is_('Ignore')):
            p.require('an ignored extra leaves no trace', AND(len(va) + len(si) == 0, fs.unchanged, ers.unchanged))
            return
        vv = me.f('extras_validator')
        haskv = self.keys and p.holds(me.f('extras_keys_validator').is_('Some'))
        kv = me.f('extras_keys_validator') if self.keys else None
        kva = va[:1] if haskv else []
        vva = va[len(kva):]
        if kva:
            p.require('an allowed extra is validated once', AND(p.V(kva[0].args[0]).eq(kv.as_('Some')), p.V(kva[0].args[2]).t == key.t))
            if p.holds(p.V(kva[0].ret).is_('Err')):
                p.require('an extra with an invalid key is not kept', AND(len(vva) + len(si) == 0, fs.unchanged, p.V(kva[0].ret).as_('Err').is_('LineErrors')))
                return
        if p.holds(vv.is_('None')):
            p.require('an allowed extra is kept as it is without an extras schema', AND(len(vva) == 0, len(si) == 1, *([p.V(si[0].args[2]).t == self.obj(p, outer, value)] if si else []), ers.unchanged))
        else:
            p.require('an allowed extra is validated once', AND(len(vva) == 1, *([p.V(vva[0].args[0]).eq(vv.as_('Some')), p.V(vva[0].args[2]).t == value.t] if vva else [])))
            if not vva:
                return
            res = p.V(vva[0].ret)
            if p.holds(res.is_('Err')):
                p.require('an invalid extra is not kept', AND(len(si) == 0, fs.unchanged, res.as_('Err').is_('LineErrors')))
                if not self.set_tracking and not named(outer, '<loop>'):
                    p.require('errors of an extra are only dropped for the last partial key', me.f('partial_last_key').is_('Some'))
                return
            p.require('a valid extra is kept', AND(len(si) == 1, *([p.V(si[0].args[2]).eq(res.as_('Ok'))] if si else []), ers.unchanged))
        if self.set_tracking:
            p.require('a kept extra is reported as set', AND(fs.appended is not None and len(fs.appended) == 1, fs.appended[0].t == p.V(si[0].args[1]).t if fs.appended and si else False))

    def obj(self, p, evs, value):
        to = [ev for ev in named(evs, '::to_object') if p.holds(p.V(ev.args[0]).t == value.t)]
        return p.V(to[-1].ret).as_('Ok').t if to else z3.Const('nothing', Val)

    def vecs(self, p, L):
        return one_vec(p, L, 'ValLineError', 'error vector'), (one_vec(p, L, 'PyString', 'fields set vector') if self.set_tracking else NoVec())

    def ret(self, p, r):
        ls = loops(p)
        if not ls:
            raise Lost('no loop')
        nx = nexts(p.st.events[ls[0][1] + 1:])
        if nx and p.holds(p.V(nx[0].ret).is_('None')):
            p.require('all entries were examined', AND(r.is_('Ok'), r.as_('Ok').t == p.V(p.events('*PyDict::new')[0].ret).t if self.set_tracking else True))
        else:
            p.require('an early return is an error', r.is_('Err'))
