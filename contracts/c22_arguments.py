"""C22: call arguments and dataclass arguments bind as a Python call would"""
from contracts.common import *
from contracts.fields import *

V_ = '_pydantic_core::validators::'
VAL = ' as ' + V_ + 'Validator>::validate'
DUMP = {'stop': ['*with_outer_location', '*SchemaDict*', '_pydantic_core::build_tools::*', '*py_err_string*', '*build_validator', '*LookupKeyCollection::new', '*LookupKeyCollection::select', '*LookupKey::error', '*apply_error_loc', '*::validate_args', '*::validate_dataclass_args',
                 '*PositionalArgs*', '*KeywordArgs*', '*with_type', '*ValLineError::new_with_loc', '*validate_by_alias_or', '*validate_by_name_or', '*::first_key', '*ValidationMatch*']}


ASSUMPTIONS = ['the parameter validators are arbitrary: any result, any effect on the state', 'the positional and keyword parts of an input are a sequence and a mapping (Args traits)',
               'a lookup key resolves as in C13; which of alias and name is looked up as in C12']


def applied(p, path, me, name):
    """res_pred: every error is located under the path used"""
    def f(p2, elem, val, events):
        a = [ev for ev in events if ev.name.endswith('apply_error_loc')]
        return AND(len(a) == 1, *([p2.V(a[0].args[0]).eq(path), p2.V(a[0].args[1]).eq(elem), p2.V(a[0].args[2]).z == me.f('loc_by_alias').z, p2.V(a[0].args[3]).eq(name), p2.V(a[0].ret).eq(val)] if a else []))
    return f


def only(p, er, x):
    return AND(er.appended is not None and len(er.appended) == 1, er.appended[0].eq(x) if er.appended else False)


class Bind(Contract):
    """the loop over the parameters, the loop over the remaining positional arguments and the loop over the keyword arguments"""
    dc = False

    def errs(self, p, L):
        return one_vec(p, L, 'ValLineError', 'error vector')

    def iter(self, p, L):
        ls = loops(p)
        evs = p.iter_events()
        if not (evs and evs[0].name == '<next>'):
            raise Lost('loop ' + str([(e.name[-40:]) for e in evs][:6]))
        outer = p.st.events[ls[-2][1] + 1:] if len(ls) > 1 else evs
        if ls[0][0] is L and named(evs, '::kwargs') or (ls[0][0] is L and named(evs, '::default_value')):
            return self.param(p, L, evs)
        if named(evs, '::validate_str'):
            return self.keyword(p, L, evs)
        if len(ls) > 1 and named(outer, '::validate_str') and not named(evs, '::validate_str'):
            return self.key_errors(p, L, outer)
        if len(ls) > 1 and named(outer, '::default_value') and not named(evs, '::default_value'):
            one = p.V(nexts(evs)[0].ret).as_('Some')
            wl = named(evs, 'with_outer_location')
            p.require('errors of a default are reported', only(p, self.errs(p, L), p.V(wl[0].ret) if wl else one))
            return
        return self.rest(p, L, evs)

    # -- one parameter
    def store(self, p, L, evs, par, value, kw):
        """the value is bound to this parameter, and nothing else is stored"""
        si = named(evs, '::set_item')
        if self.dc:
            io = loop_vecs(p, L, 'Py<')
            col = self.collected(p, par)
            a = AND(len(si) == 1, *([p.V(si[0].args[1]).eq(par.f('name_py')), p.V(si[0].args[2]).eq(value)] if si else []))
            if p.holds(col):
                return len(si) == 0
            if p.holds(NOT(col)):
                return a
            return AND(IMP(col, len(si) == 0), IMP(NOT(col), a))
        o = one_vec(p, L, r'Py<', 'positional output')
        if kw is None:      # a default: by keyword where the parameter has one
            kk = par.f('kwarg_key')
            return AND(IMP(kk.is_('Some'), AND(o.unchanged, self.kwset(p, si, par, value))), IMP(kk.is_('None'), AND(len(si) == 0, only(p, o, value))))
        if kw:
            return AND(o.unchanged, self.kwset(p, si, par, value))
        return AND(len(si) == 0, only(p, o, value))

    def kwset(self, p, si, par, value):
        return AND(len(si) == 1, *([p.V(si[0].args[1]).eq(par.f('kwarg_key').as_('Some')), p.V(si[0].args[2]).eq(value)] if si else []))

    def collected(self, p, par):
        return AND(par.f('init_only').z)

    def nothing(self, p, L, evs):
        return AND(len(named(evs, '::set_item')) == 0, *[v.unchanged for v in loop_vecs(p, L, r'Py<')])

    def param(self, p, L, evs):
        me = p.arg(0)
        nx = nexts(evs)
        it = p.V(nx[0].ret).as_('Some')
        idx, par = (None, it) if self.dc else (it.f(0), it.f(1))
        name = par.f('name')
        ar, kr = named(evs, '::args'), named(evs, '::kwargs')
        pg, kg = named(evs, 'PositionalArgs::get_item'), named(evs, 'KeywordArgs::get_item')
        se, va, dv = named(evs, 'LookupKeyCollection::select'), [ev for ev in evs if is_validate(ev)], named(evs, '::default_value')
        er = self.errs(p, L)
        if self.dc:
            init = par.f('init').z
            if p.holds(NOT(init)):
                p.require('a field that is not part of the call takes its default only', AND(len(pg) + len(kg) + len(va) == 0, len(dv) == 1, *([p.V(dv[0].args[0]).eq(par.f('validator'))] if dv else [])))
                self.position(p, L, None, False)
                if dv:
                    self.default(p, L, evs, er, par, dv[0], None, idx, False)
                return
            p.require('a field of the call is looked up in the call', init)
            positional, kwable = NOT(par.f('kw_only').z), True
        else:
            positional, kwable = par.f('positional').z, OR(par.f('mode').eq('keyword_only'), par.f('mode').eq('positional_or_keyword'))
        # where the values come from
        hasargs = p.V(ar[0].ret).is_('Some') if ar else False
        if pg:
            p.require('only a positional parameter is read from the positional arguments', AND(len(pg) == 1, positional))
            if self.dc:
                idx = p.V(pg[0].args[1])
            else:
                p.require('a parameter is read at its own position', p.V(pg[0].args[1]).z == idx.z)
        else:
            p.require('a positional parameter is read from the positional arguments', NOT(AND(positional, hasargs)) if ar else NOT(positional))
        if self.dc:
            self.position(p, L, idx if pg else None, True, positional)
        st, sn = p.events('*validate_by_alias_or'), p.events('*validate_by_name_or')
        if len(st) != 1 or len(sn) != 1:
            raise Lost('by alias / by name')
        if se:
            p.require('the names in effect select the lookup key', AND(len(se) == 1, kwable, p.V(se[0].args[0]).eq(par.f('lookup_key_collection')), p.V(se[0].args[1]).eq(p.V(st[0].ret)), p.V(se[0].args[2]).eq(p.V(sn[0].ret))))
        else:
            p.require('a keyword parameter has a lookup key', NOT(kwable))
        haskw = p.V(kr[0].ret).is_('Some') if kr else False
        if kg:
            p.require('a keyword parameter is read under its key', AND(len(kg) == 1, len(se) == 1, p.V(kg[0].args[1]).eq(p.V(se[0].ret).as_('Ok')) if se else False))
        elif se:
            p.require('a keyword parameter is read from the keyword arguments', NOT(haskw))
        pos = p.V(pg[0].ret) if pg else None
        kw = p.V(kg[0].ret).as_('Ok') if kg else None
        if kg:
            p.require('other errors end the validation', p.V(kg[0].ret).is_('Ok'))
        haspos = pos.is_('Some') if pg else False
        hask = kw.is_('Some') if kg else False
        ins, fk = [ev for ev in evs if ev.name.endswith('::insert')], named(evs, '::first_key')
        if kg and p.feasible(hask):
            path = kw.as_('Some').f(0)
            p.require('a keyword argument found counts as used', IMP(hask, AND(len(ins) == 1, OR(*[AND(p.V(k.args[0]).eq(path), p.V(ins[0].args[1]).eq(p.V(k.ret))) for k in fk]) if ins and fk else False)))
        # what happens to them
        if p.holds(AND(haspos, hask)):
            ne = named(evs, 'ValLineError::new_with_loc')
            p.require('an argument given twice is one error and not bound', AND(len(va) + len(dv) == 0, self.nothing(p, L, evs), len(ne) == 1, *([p.V(ne[0].args[0]).is_('MultipleArgumentValues'), p.V(ne[0].args[1]).t == kw.as_('Some').f(1).t, loc_is(p, p.V(ne[0].args[2]), name), only(p, er, p.V(ne[0].ret))] if ne else [])))
            return
        if p.feasible(AND(haspos, hask)):
            raise Lost('both given')
        if p.holds(haspos):
            self.value(p, L, evs, er, par, va, dv, pos.as_('Some'), False, located(idx))
        elif p.holds(hask):
            self.value(p, L, evs, er, par, va, dv, kw.as_('Some').f(1), True, applied(p, kw.as_('Some').f(0), me, name))
        else:
            p.require('an argument that is not given takes its default', AND(len(va) == 0, len(dv) == 1, *([p.V(dv[0].args[0]).eq(par.f('validator')), p.V(dv[0].args[2]).is_('Some'), p.V(dv[0].args[2]).as_('Some').eq(name)] if dv else [])))
            if dv:
                self.default(p, L, evs, er, par, dv[0], se, idx, True, positional)

    def position(self, p, L, idx, init, positional=None):
        vs = loop_vars(p, L, '^usize$')
        if not vs:
            raise Lost('position')
        step = z3.If(positional, 1, 0) if positional is not None and not isinstance(positional, bool) else (1 if positional else 0)
        p.require('fields that cannot be given positionally take no position', OR(*[AND(v.entry.z == 0, v.cur.z == v.head.z + step, True if idx is None else idx.z == v.head.z) for v in vs]))

    def value(self, p, L, evs, er, par, va, dv, x, kw, locate):
        p.require('a given argument is validated exactly once', AND(len(va) == 1, len(dv) == 0, *([p.V(va[0].args[0]).eq(par.f('validator')), p.V(va[0].args[2]).t == x.t] if va else [])))
        if not va:
            return
        sv = p.V(va[0].args[3])
        fn = sv.f('extra', 'field_name')
        if self.dc:
            p.require('the validator sees the name of its field', AND(fn.is_('Some'), fn.as_('Some').eq(par.f('name_py'))))
        res = p.V(va[0].ret)
        if p.holds(res.is_('Ok')):
            p.require('a valid argument is bound to its parameter', AND(self.store(p, L, evs, par, res.as_('Ok'), kw), er.unchanged))
        else:
            e = res.as_('Err')
            p.require('other errors end the validation', e.is_('LineErrors'))
            p.require('an invalid argument is not bound', self.nothing(p, L, evs))
            p.require('errors of an argument are located at it', extended_by(p, er, lambda b: b.eq(e.as_('LineErrors')), locate))

    def default(self, p, L, evs, er, par, ev, se, idx, call, positional=None):
        d = p.V(ev.ret)
        me = p.arg(0)
        ne, le = named(evs, 'ValLineError::new_with_loc'), named(evs, 'LookupKey::error')
        if p.holds(d.is_('Err')):
            p.require('other errors end the validation', d.as_('Err').is_('LineErrors', 'Omit') if self.dc else d.as_('Err').is_('LineErrors'))
            p.require('an invalid default is not bound', self.nothing(p, L, evs))
            return
        if p.holds(d.as_('Ok').is_('Some')):
            p.require('the default is bound to its parameter', AND(self.store(p, L, evs, par, d.as_('Ok').as_('Some'), None), er.unchanged))
            return
        p.require('a default is used where there is one', d.as_('Ok').is_('None'))
        if not call:
            p.require('a field without default outside the call leaves no trace', AND(self.nothing(p, L, evs), er.unchanged))
        elif se:
            want = [p.V(le[0].args[0]).eq(p.V(se[0].ret).as_('Ok')), p.V(le[0].args[3]).z == me.f('loc_by_alias').z, p.V(le[0].args[4]).eq(par.f('name')), only(p, er, p.V(le[0].ret))] if le else []
            if le:
                t = p.V(le[0].args[1])
                want.append(t.is_('Missing') if self.dc else AND(IMP(positional, t.is_('MissingArgument')), IMP(NOT(positional), t.is_('MissingKeywordOnlyArgument'))))
            p.require('a missing argument is reported', AND(len(le) == 1, self.nothing(p, L, evs), *want))
        else:
            p.require('a missing positional-only argument is reported at its position', AND(len(ne) == 1, self.nothing(p, L, evs), *([p.V(ne[0].args[0]).is_('MissingPositionalOnlyArgument'), p.V(ne[0].args[2]).eq(idx), only(p, er, p.V(ne[0].ret))] if ne else [])))

    # -- the positional arguments that no parameter takes
    def rest(self, p, L, evs):
        me = p.arg(0)
        nx = nexts(evs)
        it = p.V(nx[0].ret).as_('Some')
        if not (it.has(0) and it.has(1)):
            raise Lost('loop')
        idx, item = it.f(0), it.f(1)
        va, ne = [ev for ev in evs if is_validate(ev)], named(evs, 'ValLineError::new_with_loc')
        er = self.errs(p, L)
        vv = None if self.dc else me.f('var_args_validator')
        if va:
            o = one_vec(p, L, r'Py<', 'positional output') if not self.dc else None
            res = p.V(va[0].ret)
            p.require('a further positional argument is validated once with the declared schema', AND(len(va) == 1, vv is not None, *([vv.is_('Some'), p.V(va[0].args[0]).eq(vv.as_('Some').unbox()), p.V(va[0].args[2]).t == item.t] if vv is not None else [])))
            if vv is None:
                return
            if p.holds(res.is_('Ok')):
                p.require('a further positional argument is bound in order', AND(only(p, o, res.as_('Ok')), er.unchanged))
            else:
                p.require('other errors end the validation', res.as_('Err').is_('LineErrors'))
                p.require('errors of a further positional argument are located at its position', AND(o.unchanged, extended_by(p, er, lambda b: b.eq(res.as_('Err').as_('LineErrors')), located(idx))))
        else:
            p.require('an unexpected positional argument is reported at its position', AND(len(ne) == 1, True if vv is None else vv.is_('None'), *([p.V(ne[0].args[0]).is_('UnexpectedPositionalArgument'), p.V(ne[0].args[1]).t == item.t, p.V(ne[0].args[2]).eq(idx), only(p, er, p.V(ne[0].ret))] if ne else [])))

    # -- the keyword arguments that no parameter takes
    def entry(self, p, evs):
        nx = nexts(evs)
        r = p.V(nx[0].ret).as_('Some')
        return r, r.as_('Ok').f(0), r.as_('Ok').f(1)

    def key_errors(self, p, L, outer):
        evs = p.iter_events()
        r, key, value = self.entry(p, outer)
        er = self.errs(p, L)
        one = p.V(nexts(evs)[0].ret).as_('Some')
        wl, wt = named(evs, 'with_outer_location'), named(evs, 'with_type')
        ok = AND(len(wl) == 1, *([p.V(wl[0].args[0]).eq(one), p.V(wl[0].args[1]).eq(key)] if wl else []))
        if any(is_validate(ev) for ev in outer):
            p.require('errors of a further keyword argument are located under its name', AND(ok, len(wt) == 0, only(p, er, p.V(wl[0].ret)) if wl else False))
        else:
            p.require('a key that is no string is an error at the key', AND(ok, len(wt) == 1, *([p.V(wt[0].args[0]).eq(p.V(wl[0].ret)), p.V(wt[0].args[1]).is_('InvalidKey'), only(p, er, p.V(wt[0].ret))] if wl and wt else [])))

    def keyword(self, p, L, evs):
        me = p.arg(0)
        r, key, value = self.entry(p, evs)
        p.require('an unreadable entry ends the validation', r.is_('Ok'))
        vs, co, va, si, ne, to = named(evs, '::validate_str'), named(evs, '::contains'), [ev for ev in evs if is_validate(ev)], named(evs, '::set_item'), named(evs, 'ValLineError::new_with_loc'), named(evs, '::to_object')
        er = self.errs(p, L)
        kr = p.V(vs[0].ret)
        if p.holds(kr.is_('Err')):
            p.require('a key that is no string is no argument', AND(len(va) + len(si) == 0, kr.as_('Err').is_('LineErrors')))
            return
        if len(co) != 1:
            raise Lost('used keys')
        used = p.V(co[0].ret).z
        none = AND(len(va) + len(si) + len(ne) == 0, er.unchanged)
        if p.holds(used):
            p.require('an argument bound to a parameter is not bound again', none)
            return
        if p.feasible(used):
            p.require('an argument bound to a parameter is not bound again', IMP(used, none))
            return
        new = p.events('*PyDict::new')
        if self.dc:
            eb, vv = me.f('extra_behavior'), me.f('extras_validator')
            forbid, ignore, keep, validated, target = eb.is_('Forbid'), eb.is_('Ignore'), AND(eb.is_('Allow'), vv.is_('None')), AND(eb.is_('Allow'), vv.is_('Some')), new[0].ret
        else:
            vv, uni = me.f('var_kwargs_validator'), me.f('var_kwargs_mode').is_('Uniform')
            forbid, ignore = AND(uni, vv.is_('None'), me.f('extra').is_('Forbid')), AND(uni, vv.is_('None'), NOT(me.f('extra').is_('Forbid')))
            validated, keep, target = AND(uni, vv.is_('Some')), NOT(uni), None
        for cond, what, ok in ((forbid, 'an unexpected keyword argument is reported under its name', AND(len(va) + len(si) == 0, len(ne) == 1, *([p.V(ne[0].args[0]).is_('UnexpectedKeywordArgument'), p.V(ne[0].args[1]).t == value.t, p.V(ne[0].args[2]).t == key.t, only(p, er, p.V(ne[0].ret))] if ne else []))),
                               (ignore, 'an ignored keyword argument leaves no trace', none),
                               (keep, 'a further keyword argument without schema of its own is kept as it is', AND(len(va) + len(ne) == 0, er.unchanged, len(si) == 1, *([p.V(si[0].args[2]).t == p.V(to[-1].ret).as_('Ok').t if to else True] if si else []))),
                               (validated, 'a further keyword argument is validated once', AND(len(va) == 1, len(ne) == 0, *([p.V(va[0].args[0]).eq(vv.as_('Some').unbox()), p.V(va[0].args[2]).t == value.t] if va else [])))):
            if p.feasible(cond):
                p.require(what, IMP(cond, ok))
        if va:
            res = p.V(va[0].ret)
            if p.holds(res.is_('Ok')):
                p.require('a valid further keyword argument is bound under its name', AND(er.unchanged, len(si) == 1, *([p.V(si[0].args[2]).eq(res.as_('Ok'))] if si else [])))
            else:
                p.require('other errors end the validation', res.as_('Err').is_('LineErrors'))
                p.require('an invalid further keyword argument is not bound', len(si) == 0)

    def ret(self, p, r):
        ls = loops(p)
        ga = p.events('*::validate_args', '*::validate_dataclass_args')
        p.require('the arguments are read once', len(ga) == 1)
        if not ls:
            p.require('an input without arguments is an error', r.is_('Err'))
            return
        open_ = sum(1 for ev in p.st.events if ev.name == '<loop>') - sum(1 for ev in p.st.events if ev.name == '<endloop>')
        ends = [i for i, ev in enumerate(p.st.events) if ev.name == '<endloop>']
        nt = [ev for ev in p.st.events if ev.name == '<next>']
        done = all(p.holds(p.V(ev.ret).is_('None')) for ev in nt)
        if not done:
            p.require('an early return is an error', r.is_('Err'))
            return
        L = ls[-1][0]
        ers = [self.final_vec(p, x) for x, i in ls]
        ok = p.feasible(r.is_('Ok'))
        er = ers[-1]
        last = p.st.events[ls[-1][1]:]
        tail = [ev for ev in last if is_validate(ev)]
        if ok:
            p.require('success requires that there is no error', IMP(r.is_('Ok'), self.empty(p, er)))
            if tail:
                uni = [ev for ev in tail if not self.dc and p.holds(p.V(ev.args[0]).eq(p.arg(0).f('var_kwargs_validator').as_('Some').unbox()))]
                if not self.dc and p.holds(NOT(p.arg(0).f('var_kwargs_mode').is_('Uniform'))) and p.holds(p.arg(0).f('var_kwargs_validator').is_('Some')):
                    p.require('unpacked keyword arguments are validated as one', IMP(r.is_('Ok'), AND(len(uni) == 1, *[OR(p.V(ev.ret).is_('Ok'), p.e.seq_len(p.st, p.V(ev.ret).as_('Err').as_('LineErrors').v) == 0) for ev in uni])))
        if p.feasible(r.is_('Err')) and not tail and p.holds(r.is_('Err')) and p.feasible(NOT(self.empty(p, er))):
            if p.holds(r.as_('Err').is_('LineErrors')):
                p.require('all errors are reported', r.as_('Err').as_('LineErrors').t == er.cur_term)

    def final_vec(self, p, L):
        return one_vec(p, L, 'ValLineError', 'error vector')

    def empty(self, p, er):
        return p.e.seq_len(p.st, er.cur) == 0


COMMON = ('a given argument is validated exactly once', 'a valid argument is bound to its parameter', 'an argument given twice is one error and not bound', 'errors of an argument are located at it', 'an argument that is not given takes its default',
          'the default is bound to its parameter', 'a missing argument is reported', 'a keyword argument found counts as used', 'an unexpected positional argument is reported at its position', 'an unexpected keyword argument is reported under its name',
          'an argument bound to a parameter is not bound again', 'a further keyword argument is validated once', 'success requires that there is no error')


@contract('C22', '<' + V_ + 'arguments::ArgumentsValidator' + VAL, 'arguments', models=STATE_MODELS, opts={'budget': 300},
          expect=COMMON + ('a parameter is read at its own position', 'a missing positional-only argument is reported at its position', 'a further positional argument is bound in order'))
class Arguments(Bind):
    pass


@contract('C22', '<' + V_ + 'dataclass::DataclassArgsValidator' + VAL, 'dataclass arguments', models=STATE_MODELS, opts={'budget': 300},
          expect=COMMON + ('a field that is not part of the call takes its default only', 'fields that cannot be given positionally take no position'))
class DataclassArgs(Bind):
    dc = True
