"""C14: assignment validation changes one field or nothing"""
from contracts.common import *
from contracts.fields import nexts, named, is_validate

DUMP = {'stop': ['*with_outer_location', '*py_err_string*', '_pydantic_core::build_tools::*', '*force_setattr', '*ValLineError::new_with_loc', '*ValError::new_with_loc', '*dataclass_to_dict', '*::validate_assignment']}
ASSUMPTIONS = ['PyDict::{copy, set_item, del_item, update, clear, contains}, PySet::{new, add} and getattr are the Python operations; force_setattr sets the attribute', 'field validators are arbitrary',
               'Iterator::{find, try_for_each, map, collect} are the standard library\'s']
V_ = '_pydantic_core::validators::'
MUT = ('PyDictMethods::set_item', 'PyDictMethods::del_item', 'PyDictMethods::clear', 'PyDictMethods::update', 'PySetMethods::add', '::force_setattr', 'PyAnyMethods::setattr', 'PyAnyMethods::set_item', 'PySetMethods::discard')


def muts(p, obj, evs=None, inner=True):
    """events that change obj or what its attributes are"""
    own = [obj.t] + ([p.V(ev.ret).as_('Ok').t for ev in p.st.events if ev.name.endswith('::getattr') and p.holds(p.V(ev.args[0]).t == obj.t)] if inner else [])
    fresh = [p.V(ev.ret).t for ev in p.st.events if ev.name.endswith('PyDict::new')] + [p.V(ev.ret).as_('Ok').t for ev in p.st.events if ev.name.endswith(('PyDictMethods::copy', '::dataclass_to_dict'))]
    fresh += [p.V(ev.ret).as_('Ok').f(i).t for ev in p.st.events if ev.name.endswith('::extract') for i in (0, 1)]
    out = []
    for ev in (p.st.events if evs is None else evs):
        if any(ev.name.endswith(m) for m in MUT):
            t = target(p, ev).t
            if any(p.holds(t == o) for o in own):
                out.append(ev)
            elif not any(p.holds(t == o) for o in fresh):
                raise Lost('what ' + ev.name + ' changes')
    return out


def target(p, ev):
    return p.V(ev.args[1 if ev.name.endswith('force_setattr') else 0])


def wl(p, r, ev, ty, value, loc):
    """r is the error made by new_with_loc event ev"""
    return AND(r.is_('Err'), r.as_('Err').eq(p.V(ev.ret)), p.V(ev.args[0]).is_(ty), p.V(ev.args[1]).t == value.t, p.V(ev.args[2]).t == loc.t)


class Fields(Contract):
    """model fields / dataclass arguments: args: self, py, obj, field_name, field_value, state"""
    dc = False

    def ret(self, p, r):
        me, d, name, val = p.arg(0), p.arg(2), p.arg(3), p.arg(4)
        fi = p.events('*Iterator::find')
        if len(fi) > 1:
            raise Lost('search of the field')
        va = [ev for ev in p.st.events if is_validate(ev)]
        mu = muts(p, d)
        if not fi:
            p.require('a failure before the field is known changes nothing', AND(r.is_('Err'), len(va) == 0, len(mu) == 0))
            return
        it, cl = p.V(fi[0].args[0]).v, p.V(fi[0].args[1])
        if not isinstance(it, ItV) or it.kind != 'seq' or not isinstance(cl.v, Agg):
            raise Lost('search of the field')
        p.require('the field is searched by its name among all fields', AND(p.V(it.src).eq(me.f('fields')), it.pos == 0, p.V(cl.v.f[0]).t == name.t))
        f = p.V(fi[0].ret)
        wle = p.events('*ValError::new_with_loc')
        eb = me.f('extra_behavior')
        if p.holds(f.is_('Some')):
            x = f.as_('Some')
            if p.holds(x.f('frozen').z):
                p.require('a frozen field is never assigned', AND(len(wle) == 1, len(va) == 0, len(mu) == 0, wl(p, r, wle[0], 'FrozenField', val, x.f('name')) if wle else False))
                return
            p.require('a field that is not frozen is validated once with its own schema' if va else 'only errors end the assignment early', AND(len(va) == 1, *([p.V(va[0].args[0]).eq(x.f('validator')), p.V(va[0].args[2]).t == val.t] if va else [])) if va else AND(r.is_('Err'), len(mu) == 0))
            if not va:
                return
            fn, data = p.V(va[0].args[3]).f('extra', 'field_name'), p.V(va[0].args[3]).f('extra', 'data')
            cp, de = p.events('*PyDictMethods::copy'), p.events('*PyDictMethods::del_item')
            p.require('the validator sees the name of its field', AND(fn.is_('Some'), fn.as_('Some').eq(x.f('name_py'))))
            p.require('the validator sees the other fields', AND(len(cp) >= 1, data.is_('Some'), p.V(cp[0].args[0]).t == d.t if cp else False, data.as_('Some').t == p.V(cp[0].ret).as_('Ok').t if cp else False))
            if cp:
                own = p.V(cp[0].ret).as_('Ok').t
                ch = [ev for ev in p.st.events[:p.st.events.index(va[0])] if any(ev.name.endswith(m) for m in MUT) and p.holds(target(p, ev).t == own)]
                p.require('the validator sees the other fields', AND(len(ch) == 1, *([ch[0].name.endswith('del_item'), p.V(ch[0].args[1]).t == name.t] if ch else [])))
            vr = p.V(va[0].ret)
            self.after(p, r, va, vr, mu, d, name, vr.as_('Ok'))
            return
        if p.holds(NOT(eb.is_('Allow'))):
            p.require('an unknown field is rejected unless extras are allowed', AND(len(wle) == 1, len(va) == 0, len(mu) == 0, wl(p, r, wle[0], 'NoSuchAttribute', val, name) if wle else False))
            return
        if not self.dc and p.holds(me.f('extras_validator').is_('Some')):
            p.require('an allowed extra is validated once with the extras schema', AND(len(va) == 1, *([p.V(va[0].args[0]).eq(me.f('extras_validator').as_('Some')), p.V(va[0].args[2]).t == val.t] if va else [])))
            if va:
                vr = p.V(va[0].ret)
                self.after(p, r, va, vr, mu, d, name, vr.as_('Ok'))
            return
        p.require('an allowed extra is kept as it is', len(va) == 0)
        self.after(p, r, va, None, mu, d, name, val)

    def after(self, p, r, va, vr, mu, d, name, value):
        if vr is not None and p.holds(vr.is_('Err')):
            p.require('a failing validation changes nothing', AND(r.is_('Err'), len(mu) == 0))
            e, o = vr.as_('Err'), r.as_('Err')
            if p.holds(NOT(e.is_('LineErrors'))):
                p.require('other errors are passed on', o.eq(e))
            else:
                co = p.events('*Iterator::collect')
                if len(co) != 1:
                    raise Lost('located errors')
                m = p.V(co[0].args[0]).v
                if not isinstance(m, ItV) or m.kind != 'map' or not isinstance(m.src, ItV):
                    raise Lost('located errors')
                p.require('all errors of the field are reported', AND(o.is_('LineErrors'), o.as_('LineErrors').t == p.V(co[0].ret).t, p.V(m.src.src).t == e.as_('LineErrors').t))
            return
        p.require('nothing is changed before the validation succeeded', AND(len(mu) >= 1, *([mu[0].name.endswith('set_item'), p.V(mu[0].args[1]).t == name.t, p.V(mu[0].args[2]).t == value.t] if mu else [])))
        if not p.holds(r.is_('Ok')):
            return
        self.result(p, r, mu, d, name)

    def result(self, p, r, mu, d, name):
        raise NotImplementedError


@contract('C14', '<' + V_ + 'model_fields::ModelFieldsValidator as ' + V_ + 'Validator>::validate_assignment', 'ModelFieldsValidator::validate_assignment', models=STATE_MODELS,
          expect=('a frozen field is never assigned', 'a field that is not frozen is validated once with its own schema', 'an unknown field is rejected unless extras are allowed', 'an allowed extra is validated once with the extras schema', 'an allowed extra is kept as it is',
                  'a failing validation changes nothing', 'nothing is changed before the validation succeeded', 'the result is the data, the extras and the assigned name', 'the extras are what is no field'))
class MF(Fields):
    def result(self, p, r, mu, d, name):
        me = p.arg(0)
        sets = p.events('*PySet::new')
        if len(sets) != 1:
            raise Lost('set of fields')
        items = p.V(sets[0].args[1]).v
        if not isinstance(items, (Agg, VecV)):
            raise Lost('set of fields')
        items = items.f if isinstance(items, Agg) else items.items
        p.require('the assigned name is the set field', AND(len(items) == 1, p.V(items[0]).t == name.t if items else False))
        tf = p.events('*Iterator::try_for_each')
        a = p.holds(me.f('extra_behavior').is_('Allow'))
        non = p.events('*Python*::None')
        if not a:
            p.require('only the assigned field is changed', len(mu) == 1)
            extra = p.V(non[0].ret).t if non else None
        else:
            if len(tf) != 1:
                raise Lost('separation of the extras')
            it, cl = p.V(tf[0].args[0]).v, p.V(tf[0].args[1])
            if not isinstance(it, ItV) or it.kind != 'seq' or not isinstance(cl.v, Agg):
                raise Lost('separation of the extras')
            new = p.events('*PyDict::new')
            i = p.st.events.index(tf[0])
            evs = p.st.events[i + 1:]
            cp = named(evs, 'PyDictMethods::copy')
            mm = muts(p, d, evs)
            p.require('the extras are what is no field', AND(p.V(it.src).eq(me.f('fields')), it.pos == 0, len(cp) == 1, len(mm) == 2, len(new) == 1, p.V(cp[0].args[0]).t == d.t if cp else False,
                      *([mm[0].name.endswith('clear'), mm[1].name.endswith('update'), p.V(mm[1].args[1]).t == p.V(new[0].ret).t, p.st.events.index(cp[0]) < p.st.events.index(mm[0]), p.V(cl.v.f[0]).t == d.t, p.V(cl.v.f[1]).t == p.V(new[0].ret).t] if len(mm) == 2 and new and cp else [])))
            extra = p.V(cp[0].ret).as_('Ok').t if cp else None
        if extra is None:
            raise Lost('extras')
        tup = uf('mk:tuple:0:3', Val, Val, Val, Val)(d.t, extra, p.V(sets[0].ret).as_('Ok').t)
        p.require('the result is the data, the extras and the assigned name', r.as_('Ok').t == uf('topy', Val, Val)(tup))


@contract('C14', '<' + V_ + 'dataclass::DataclassArgsValidator as ' + V_ + 'Validator>::validate_assignment', 'DataclassArgsValidator::validate_assignment', models=STATE_MODELS,
          expect=('a frozen field is never assigned', 'a field that is not frozen is validated once with its own schema', 'an unknown field is rejected unless extras are allowed', 'an allowed extra is kept as it is', 'a failing validation changes nothing',
                  'nothing is changed before the validation succeeded', 'only the assigned field is changed'))
class DA(Fields):
    dc = True

    def result(self, p, r, mu, d, name):
        p.require('only the assigned field is changed', len(mu) == 1)


M = '<' + V_ + 'model_fields::ModelFieldsValidator as ' + V_ + 'Validator>::validate_assignment'
D = '<' + V_ + 'dataclass::DataclassArgsValidator as ' + V_ + 'Validator>::validate_assignment'


@contract('C14', [M + '::{closure#*}', D + '::{closure#*}', M + '::{closure#*}::{closure#*}'], 'closures of the search and of the errors', models=STATE_MODELS, optional=True)
class Closures(Contract):
    def cap(self, p, i=0):
        env = p.arg(0)
        return p.V(env.v.f[i]) if isinstance(env.v, Agg) else V(p, p.e.project(p.st, env.v, env.ty, 0, i))

    def ret(self, p, r):
        w = p.events('*with_outer_location')
        co = p.events('*Iterator::collect')
        if w and not co:
            if not len(w) == 1:
                raise Lost('locations')
            p.require('errors are located under the name of the field', AND(p.V(w[0].args[0]).t == p.arg(1).t, p.V(w[0].args[1]).t == self.cap(p).t, r.eq(p.V(w[0].ret))))
            return
        if is_z3(r.v) and z3.is_bool(r.v) and len(p._args) == 2:
            p.require('the field is searched by its name', r.z == (p.arg(1).f('name').t == self.cap(p).t))
            return
        g = p.events('*PyDictMethods::get_item')
        if g:
            # a field moves from the data to the fields
            new, non, f = self.cap(p, 0), self.cap(p, 1), p.arg(1)
            de, si = p.events('*PyDictMethods::del_item'), p.events('*PyDictMethods::set_item')
            p.require('a field is looked up in the data by its name', AND(len(g) == 1, p.V(g[0].args[0]).t == new.t, p.V(g[0].args[1]).eq(f.f('name'))))
            x = p.V(g[0].ret)
            if p.holds(r.is_('Ok')):
                if p.holds(x.as_('Ok').is_('None')):
                    p.require('an absent field is skipped', AND(x.is_('Ok'), len(de) + len(si) == 0))
                else:
                    p.require('a field is no extra and keeps its value', AND(x.is_('Ok'), x.as_('Ok').is_('Some'), len(de) == 1, len(si) == 1,
                              *([p.V(de[0].args[0]).t == new.t, p.V(de[0].args[1]).eq(f.f('name')), p.V(si[0].args[0]).t == non.t, p.V(si[0].args[1]).eq(f.f('name')), p.V(si[0].args[2]).t == x.as_('Ok').as_('Some').t] if de and si else [])))


@contract('C14', '<' + V_ + 'model::ModelValidator as ' + V_ + 'Validator>::validate_assignment', 'ModelValidator::validate_assignment', models=STATE_MODELS,
          expect=('a frozen model is never assigned', 'a root model has only its root', 'the root is validated once', 'the assignment is validated once on a copy of the data', 'a failing assignment leaves the model as it was', 'the validated data becomes the data of the model',
                  'extras never replace fields', 'the fields set are added'))
class Model(Contract):
    def own(self, p):
        model = p.arg(2)
        return [ev for ev in muts(p, model) if not ev.name.endswith('PySetMethods::add')]

    def iter(self, p, L):
        evs = p.iter_events()
        nx = nexts(evs)
        ad, co = named(evs, 'PySetMethods::add'), named(evs, '::contains')
        si = named(evs, 'PyDictMethods::set_item')
        x = p.V(nx[0].ret).as_('Some')
        if ad:
            fs = p.events('*::getattr')[-1]
            p.require('the fields set are added', AND(len(ad) == 1, p.V(ad[0].args[1]).t == x.t, p.V(ad[0].args[0]).t == p.V(fs.ret).as_('Ok').t, len(si) == 0))
        elif co:
            cp = p.events('*PyDictMethods::copy')
            c = p.V(co[0].ret)
            k, v = x.f(0), x.f(1)
            gd = p.events('*::getattr')[0]
            p.require('extras never replace fields', AND(c.is_('Ok'), p.V(co[0].args[0]).t == p.V(gd.ret).as_('Ok').t, p.V(co[0].args[1]).t == k.t, len(si) == 1,
                      *([p.V(si[0].args[1]).t == k.t, p.V(si[0].args[2]).t == v.t, NOT(p.holds(p.V(si[0].args[0]).t == p.V(cp[0].ret).as_('Ok').t)) if p.holds(c.as_('Ok').z) else p.V(si[0].args[0]).t == p.V(cp[0].ret).as_('Ok').t] if si and cp else [False])))
        else:
            raise Lost('loop')

    def ret(self, p, r):
        me, model, name, val = p.arg(0), p.arg(2), p.arg(3), p.arg(4)
        va, aa = [ev for ev in p.st.events if is_validate(ev)], p.events('*::validate_assignment')
        own = self.own(p)
        fset = [ev for ev in p.st.events if ev.name.endswith('PySetMethods::add')]
        if p.holds(me.f('frozen').z):
            e = line_error_types(p, r)
            if e is None:
                raise Lost('error')
            p.require('a frozen model is never assigned', AND(r.is_('Err'), len(e[1]) == 1, e[1][0].is_('FrozenInstance'), len(va) + len(aa) + len(own) + len(fset) == 0))
            return
        if p.holds(me.f('root_model').z):
            if not va:
                w = p.events('*new_with_loc')
                p.require('a root model has only its root', AND(r.is_('Err'), len(own) + len(fset) == 0, NOT(name.eq('root')), wl(p, r, w[0], 'NoSuchAttribute', val, name) if w else False))
                return
            p.require('the root is validated once', AND(name.eq('root'), len(va) == 1, p.V(va[0].args[0]).eq(me.f('validator')), p.V(va[0].args[2]).t == val.t))
            vr = p.V(va[0].ret)
            if p.holds(vr.is_('Err')):
                p.require('a failing assignment leaves the model as it was', AND(r.is_('Err'), r.as_('Err').eq(vr.as_('Err')), len(own) + len(fset) == 0))
            elif p.holds(r.is_('Ok')):
                p.require('the validated root becomes the root', AND(len(own) == 1, p.V(own[0].args[2]).eq('root') if own else False, p.V(own[0].args[3]).t == vr.as_('Ok').t if own else False))
                fs = p.events('*::getattr')
                if len(fs) != 1:
                    raise Lost('fields set')
                p.require('the fields set are added', IMP(p.V(fs[0].ret).is_('Ok'), AND(len(fset) == 1, p.V(fset[0].args[1]).eq('root') if fset else False)))
            return
        if not aa:
            p.require('a failure before the validation leaves the model as it was', AND(r.is_('Err'), len(own) + len(fset) == 0))
            return
        cp = p.events('*PyDictMethods::copy')
        si = [ev for ev in p.st.events[:p.st.events.index(aa[0])] if ev.name.endswith('PyDictMethods::set_item')]
        p.require('the assignment is validated once on a copy of the data', AND(len(aa) == 1, p.V(aa[0].args[0]).eq(me.f('validator')), p.V(aa[0].args[2]).t == p.V(cp[0].ret).as_('Ok').t, p.V(aa[0].args[3]).t == name.t, p.V(aa[0].args[4]).t == val.t,
                  len(si) >= 1, p.V(si[-1].args[1]).t == name.t if si else False, p.V(si[-1].args[2]).t == val.t if si else False))
        ar = p.V(aa[0].ret)
        if p.holds(ar.is_('Err')):
            p.require('a failing assignment leaves the model as it was', AND(r.is_('Err'), r.as_('Err').eq(ar.as_('Err')), len(own) + len(fset) == 0))
            return
        if not p.holds(r.is_('Ok')):
            return
        ex = p.events('*::extract')
        if len(ex) != 1:
            raise Lost('parts')
        t = p.V(ex[0].ret).as_('Ok')
        p.require('the validated data becomes the data of the model', AND(p.V(ex[0].args[0]).t == ar.as_('Ok').t, len(own) == 2, *([p.V(own[0].args[2]).eq('__dict__'), p.V(own[0].args[3]).t == t.f(0).t,
                  p.V(own[1].args[2]).eq('__pydantic_extra__'), p.V(own[1].args[3]).t == t.f(1).t] if len(own) == 2 else [])))
        up = p.events('*PyDictMethods::update')
        new = p.events('*PyDict::new')
        p.require('extras with the name of a field are kept', AND(len(new) == 1, *[AND(p.V(u.args[0]).t == t.f(1).t, p.V(u.args[1]).t == p.V(new[0].ret).t) for u in up]))


@contract('C14', '<' + V_ + 'dataclass::DataclassValidator as ' + V_ + 'Validator>::validate_assignment', 'DataclassValidator::validate_assignment', models=STATE_MODELS,
          expect=('a frozen dataclass is never assigned', 'the assignment is validated once on a copy of the data', 'a failing assignment leaves the dataclass as it was', 'with slots only the field is set', 'the other attributes are kept'))
class DC(Contract):
    def ret(self, p, r):
        me, obj, name, val = p.arg(0), p.arg(2), p.arg(3), p.arg(4)
        aa = p.events('*::validate_assignment')
        own = muts(p, obj)
        if p.holds(me.f('frozen').z):
            e = line_error_types(p, r)
            if e is None:
                raise Lost('error')
            p.require('a frozen dataclass is never assigned', AND(r.is_('Err'), len(e[1]) == 1, e[1][0].is_('FrozenInstance'), len(aa) + len(own) == 0))
            return
        if not aa:
            p.require('a failing assignment leaves the dataclass as it was', AND(r.is_('Err'), len(own) == 0))
            return
        td = p.events('*dataclass_to_dict')
        si = p.events('*PyDictMethods::set_item')
        if len(td) != 1:
            raise Lost('data')
        p.require('the assignment is validated once on a copy of the data', AND(len(aa) == 1, p.V(aa[0].args[0]).eq(me.f('validator')), p.V(td[0].args[1]).t == obj.t, p.V(aa[0].args[2]).t == p.V(td[0].ret).as_('Ok').t, p.V(aa[0].args[3]).t == name.t, p.V(aa[0].args[4]).t == val.t))
        ar = p.V(aa[0].ret)
        if p.holds(ar.is_('Err')):
            p.require('a failing assignment leaves the dataclass as it was', AND(r.is_('Err'), r.as_('Err').eq(ar.as_('Err')), len(own) == 0))
            return
        if not p.holds(r.is_('Ok')):
            return
        ex = p.events('*::extract')
        if len(ex) != 1:
            raise Lost('parts')
        d = p.V(ex[0].ret).as_('Ok').f(0)
        if p.holds(me.f('slots').z):
            g = p.events('*PyDictMethods::get_item')
            p.require('with slots only the field is set', AND(len(own) == 1, len(g) == 1, *([p.V(own[0].args[2]).t == name.t, p.V(g[0].args[0]).t == d.t, p.V(g[0].args[1]).t == name.t, p.V(own[0].args[3]).t == p.V(g[0].ret).as_('Ok').as_('Some').t] if own and g else [])))
        else:
            up, cp, ga = p.events('*PyDictMethods::update'), p.events('*PyDictMethods::copy'), p.events('*::getattr')
            p.require('the other attributes are kept', AND(len(own) == 1, len(up) == 1, len(cp) == 1, len(ga) == 1, *([p.V(own[0].args[2]).eq('__dict__'), p.V(own[0].args[3]).t == p.V(cp[0].ret).as_('Ok').t, p.V(up[0].args[0]).t == p.V(cp[0].ret).as_('Ok').t,
                      p.V(up[0].args[1]).t == d.t, p.V(cp[0].args[0]).t == p.V(ga[0].ret).as_('Ok').t, p.V(ga[0].args[0]).t == obj.t, p.V(ga[0].args[1]).eq('__dict__')] if own and up and cp and ga else [])))
        p.require('the result is the dataclass', r.as_('Ok').t == obj.t)


@contract('C14', '*dataclass::DataclassValidator::dataclass_to_dict', 'dataclass_to_dict', models=STATE_MODELS, expect=('the data are the values of all fields',))
class ToDict(Contract):
    def iter(self, p, L):
        evs = p.iter_events()
        nx, ga, si = nexts(evs), named(evs, '::getattr'), named(evs, '::set_item')
        new = p.events('*PyDict::new')
        x = p.V(nx[0].ret).as_('Some')
        p.require('the data are the values of all fields', AND(len(ga) == 1, len(si) == 1, len(new) == 1, *([p.V(ga[0].args[0]).t == p.arg(1).t, p.V(ga[0].args[1]).t == x.t, p.V(si[0].args[0]).t == p.V(new[0].ret).t, p.V(si[0].args[1]).t == x.t, p.V(si[0].args[2]).t == p.V(ga[0].ret).as_('Ok').t] if ga and si and new else [])))

    def ret(self, p, r):
        ls = loops(p)
        nx = nexts(p.st.events[ls[0][1] + 1:]) if ls else []
        if not nx:
            raise Lost('loop')
        if p.holds(p.V(nx[0].ret).is_('None')):
            p.require('the data are the values of all fields', AND(r.is_('Ok'), r.as_('Ok').t == p.V(p.events('*PyDict::new')[0].ret).t))
        else:
            p.require('an early return is an error', r.is_('Err'))
