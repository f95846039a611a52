"""C27: temporal bounds compare instants exactly"""
from contracts.common import *
from mirv.models import ordering

V_ = '_pydantic_core::validators::'
DT = '_pydantic_core::input::datetime::'
VAL = ' as ' + V_ + 'Validator>::validate'
DUMP = {'stop': ['*::as_raw', '*::to_duration', '*try_into_py', '*date_from_datetime', '*datetime_from_date', '*py_err_string*', '*TZConstraint::tz_check', '*NowConstraint::utc_offset', '_pydantic_core::build_tools::*', '*SchemaDict*',
                 '*pydelta_to_human_readable', '*duration_as_pytimedelta', '*pytime_as_time', '*pydate_as_date', '*pydatetime_as_datetime', '*pytimedelta_exact_as_duration', '*pytimedelta_subclass_as_duration', '*into_pyobject', '*into_py_any', '*::validate_date', '*::validate_datetime', '*::validate_timedelta']}
ASSUMPTIONS = ['the comparison operators of the time library (speedate) on Date, Time, DateTime and Duration are one total comparison each, of instants for aware values; Date::today / DateTime::now give the current date and time at an offset',
               'Input::validate_date / validate_time / validate_datetime / validate_timedelta are arbitrary (their conversions are C18/C19)']
BOUNDS = (('le', 'LessThanEqual'), ('lt', 'LessThan'), ('ge', 'GreaterThanEqual'), ('gt', 'GreaterThan'))


def CMPF(a, b):
    return uf('speedate.cmp', Val, Val, z3.IntSort())(a, b)


def cmp_terms(c):
    a, b = view(c, 0).t, view(c, 1).t
    x = CMPF(a, b)
    c.e.fact(c.st, z3.And(x == -CMPF(b, a), x >= -1, x <= 1))
    return x


def m_op(f):
    def m(c):
        """comparison operators of speedate types: one antisymmetric comparison per pair of values"""
        return f(cmp_terms(c))
    return m


def m_pcmp(c):
    """partial_cmp of speedate types: the same comparison, never None"""
    e = c.e
    ot = next(v['f'][0][1] for v in e.types[c.dty]['v'] if v['n'] == 'Some')
    return c.opt(ordering(c, cmp_terms(c), z3.IntVal(0), ot))


CM = [(('full:*speedate*PartialOrd*::le', 'core::cmp::PartialOrd::le'), m_op(lambda x: x <= 0)), (('core::cmp::PartialOrd::lt',), m_op(lambda x: x < 0)),
      (('core::cmp::PartialOrd::ge',), m_op(lambda x: x >= 0)), (('core::cmp::PartialOrd::gt',), m_op(lambda x: x > 0)),
      (('core::cmp::PartialOrd::partial_cmp',), m_pcmp)]


def holds_bound(k, raw, b):
    """the declared bound, over the comparison of the library"""
    x = CMPF(raw.t, b.as_('Some').t)
    y = CMPF(b.as_('Some').t, raw.t)
    sat = {'le': x <= 0, 'lt': x < 0, 'ge': x >= 0, 'gt': x > 0}[k]
    return AND(IMP(b.is_('Some'), AND(sat, x == -y))), AND(b.is_('Some'), NOT(sat))


class Bounded(Contract):
    conv = fallback = None
    now = None
    tz = False
    prec = True

    def converted(self, p, r):
        """the value the constraints apply to, None when the conversion failed"""
        me = p.arg(0)
        ev = p.ev('*Input::' + self.conv)
        if ev is None:
            raise Lost(self.conv)
        st = p.V(strict_or(p, p.arg(3), me.f('strict')))
        p.require('strict flag', p.V(ev.args[1]).eq(st))
        if self.prec:
            p.require('the declared precision setting is in effect', p.V(ev.args[2]).eq(me.f('microseconds_precision')))
        res = p.V(ev.ret)
        if p.holds(res.is_('Ok')):
            return res.as_('Ok').f(0)
        p.require('conversion is decided', res.is_('Err'))
        fb = p.events('*' + self.fallback) if self.fallback else []
        if not fb:
            if self.fallback:
                p.require('other input of lax mode is tried', OR(st.z, NOT(res.as_('Err').is_('LineErrors'))))
            p.require('conversion error is propagated', AND(r.is_('Err'), r.as_('Err').eq(res.as_('Err'))))
            return None
        p.require('other input is tried in lax mode only', AND(NOT(st.z), len(fb) == 1, res.as_('Err').is_('LineErrors')))
        f = p.V(fb[0].ret)
        if p.holds(AND(f.is_('Ok'), f.as_('Ok').is_('Some'))):
            return f.as_('Ok').as_('Some')
        p.require('an input that is neither is rejected', AND(r.is_('Err'), IMP(f.is_('Err'), r.as_('Err').eq(f.as_('Err'))), IMP(f.is_('Ok'), r.as_('Err').eq(res.as_('Err')))))
        return None

    def ret(self, p, r):
        me = p.arg(0)
        val = self.converted(p, r)
        if val is None:
            return
        ok = r.is_('Ok')
        con = me.f('constraints')
        raws = p.events('*::as_raw', '*::to_duration')
        self.returned(p, r, val)
        if p.holds(con.is_('None')):
            p.require('without constraints nothing more is checked', True)
            return
        p.require('constraints are checked on the value', AND(len(raws) >= 1, *[p.V(ev.args[0]).eq(val) for ev in raws]) if raws else NOT(ok))
        if not raws:
            return
        rr = p.V(raws[0].ret)
        if p.holds(rr.is_('Err')):
            p.require('a value that cannot be compared is rejected', r.is_('Err'))
            return
        raw = rr.as_('Ok')
        c = con.as_('Some')
        if p.feasible(ok):
            for k, _ in BOUNDS:
                p.require(f'accepted => {k} holds', IMP(ok, holds_bound(k, raw, c.f(k))[0]))
        for k, var in BOUNDS:
            if p.feasible(NOT(ok)):
                et = single_line_error(p, r)
                if et is not None and p.feasible(et.is_(var)):
                    ts = p.events('*ToString::to_string', '*pydelta_to_human_readable')
                    b = c.f(k)
                    rep = OR(*[AND(self.reported(p, ev, b), et.as_(var, k).as_('String').eq(p.V(ev.ret))) for ev in ts]) if ts else False
                    p.require(f'a {var} error means {k} is violated and reports the bound', IMP(et.is_(var), AND(holds_bound(k, raw, b)[1], et.as_(var, k).is_('String'), rep)))
        if self.now:
            self.check_now(p, r, ok, raw, c.f(self.now[0]))
        if self.tz:
            tc = p.events('*TZConstraint::tz_check')
            t = c.f('tz')
            off = raw.f('time', 'tz_offset') if self.now else raw.f('tz_offset')
            good = OR(*[AND(p.V(ev.args[0]).eq(t.as_('Some')), p.V(ev.args[1]).eq(off), p.V(ev.ret).is_('Ok')) for ev in tc]) if tc else False
            if p.feasible(ok):
                p.require('accepted => the timezone requirement holds', IMP(ok, OR(t.is_('None'), good)))
            for ev in tc:
                if p.holds(p.V(ev.ret).is_('Err')):
                    p.require('a timezone rejection is reported', AND(r.is_('Err'), r.as_('Err').eq(p.V(ev.ret).as_('Err')), t.is_('Some'), p.V(ev.args[1]).eq(off)))
        if p.feasible(NOT(ok)):
            et = single_line_error(p, r)
            if et is not None:
                names = [v for _, v in BOUNDS] + (list(self.now[1:]) if self.now else [])
                p.require('every rejection is one of the declared reasons', et.is_(*names))

    def reported(self, p, ev, b):
        if ev.name.endswith('human_readable'):
            mk = [x for x in p.events('*duration_as_pytimedelta') if p.holds(AND(p.V(x.ret).is_('Ok'), p.V(x.ret).as_('Ok').eq(p.V(ev.args[0]))))]
            return OR(*[p.V(x.args[1]).eq(b.as_('Some')) for x in mk]) if mk else False
        return p.V(ev.args[0]).eq(b.as_('Some'))

    def check_now(self, p, r, ok, raw, n):
        nw, uo = p.events('*DateTime::now', '*Date::today'), p.events('*utc_offset')
        if not nw:
            p.require('accepted => the past / future requirement holds', IMP(ok, n.is_('None')))
            return
        now = p.V(nw[0].ret)
        p.require('the current time is taken once, at the declared offset', AND(len(nw) == 1, len(uo) == 1, p.V(nw[0].args[0]).eq(p.V(uo[0].ret).as_('Ok')), p.V(uo[0].args[0]).eq(n.as_('Some'))) if uo else False)
        x = CMPF(raw.t, now.as_('Ok').t)
        op = n.as_('Some').f('op')
        sat = AND(IMP(op.is_('Past'), x < 0), IMP(op.is_('Future'), x > 0))
        if p.feasible(ok):
            p.require('accepted => the past / future requirement holds', IMP(ok, AND(now.is_('Ok'), sat)))
        et = single_line_error(p, r) if p.feasible(NOT(ok)) else None
        for o, name in (('Past', self.now[1]), ('Future', self.now[2])):
            if et is not None and p.feasible(et.is_(name)):
                p.require('a past / future rejection is true', IMP(et.is_(name), AND(n.is_('Some'), op.is_(o), NOT(sat))))

    def returned(self, p, r, val):
        ok = r.is_('Ok')
        ev = p.events('*try_into_py', '*into_py_any', '*into_pyobject')
        if p.feasible(ok):
            p.require('accepted => the converted value is returned unchanged', IMP(ok, OR(*[AND(p.V(e.args[0]).eq(val), p.V(e.ret).is_('Ok'), p.V(e.ret).as_('Ok').eq(r.as_('Ok'))) for e in ev]) if ev else uf('topy', Val, Val)(val.t) == r.as_('Ok').t))


ACC = tuple(f'accepted => {k} holds' for k, _ in BOUNDS) + ('accepted => the converted value is returned unchanged', 'strict flag') + tuple(f'a {v} error means {k} is violated and reports the bound' for k, v in BOUNDS)
NOW = ('accepted => the past / future requirement holds', 'a past / future rejection is true')
TZ = ('accepted => the timezone requirement holds',)


def reg(mod, name, title, conv, fallback=None, now=None, tz=False, prec=True):
    cls = type('T', (Bounded,), dict(conv=conv, fallback=fallback, now=now, tz=tz, prec=prec))
    contract('C27', '<' + V_ + mod + '::' + name + VAL, title, models=CM + STATE_MODELS, expect=ACC + (NOW if now else ()) + (TZ if tz else ()))(cls)


reg('date', 'DateValidator', 'date', 'validate_date', 'date_from_datetime', ('today', 'DatePast', 'DateFuture'), prec=False)
reg('time', 'TimeValidator', 'time', 'validate_time', tz=True)
reg('datetime', 'DateTimeValidator', 'datetime', 'validate_datetime', 'datetime_from_date', ('now', 'DatetimePast', 'DatetimeFuture'), tz=True)
reg('timedelta', 'TimeDeltaValidator', 'timedelta', 'validate_timedelta')


@contract('C27', V_ + 'datetime::TZConstraint::tz_check', 'tz_check', expect=('a timezone requirement is decided exactly',))
class TzCheck(Contract):
    def ret(self, p, r):
        me, off = p.arg(0), p.arg(1)
        aware = me.is_('Aware')
        want = me.as_('Aware')
        bad_naive = AND(aware, off.is_('None'))
        bad_off = AND(aware, want.is_('Some'), off.is_('Some'), want.as_('Some').z != off.as_('Some').z)
        bad_aware = AND(me.is_('Naive'), off.is_('Some'))
        p.require('a timezone requirement is decided exactly', r.is_('Ok') == NOT(OR(bad_naive, bad_off, bad_aware)))
        if p.feasible(r.is_('Err')):
            et = single_line_error(p, r)
            if et is None:
                raise Lost('error')
            p.require('the rejection names the requirement', IMP(r.is_('Err'), AND(IMP(bad_naive, et.is_('TimezoneAware')), IMP(bad_aware, et.is_('TimezoneNaive')), IMP(bad_off, et.is_('TimezoneOffset')))))
            if p.feasible(et.is_('TimezoneOffset')):
                p.require('the rejection reports both offsets', IMP(et.is_('TimezoneOffset'), AND(et.as_('TimezoneOffset', 'tz_expected').z == want.as_('Some').z, et.as_('TimezoneOffset', 'tz_actual').z == off.as_('Some').z)))


@contract('C27', V_ + 'datetime::NowConstraint::utc_offset', 'utc_offset', expect=('a declared offset is used',))
class UtcOffset(Contract):
    def ret(self, p, r):
        o = p.arg(0).f('utc_offset')
        if p.feasible(o.is_('Some')):
            p.require('a declared offset is used', IMP(o.is_('Some'), AND(r.is_('Ok'), r.as_('Ok').z == o.as_('Some').z)))
        if p.feasible(AND(o.is_('None'), r.is_('Ok'))):
            p.require('otherwise the local offset is asked for', IMP(AND(o.is_('None'), r.is_('Ok')), len(p.events('*call0')) == 1))


@contract('C27', DT + 'pytimedelta_exact_as_duration', 'pytimedelta_exact_as_duration', no_panic=False, expect=('the length is preserved',))
class ExactDuration(Contract):
    def ret(self, p, r):
        g = {k: p.ev('*get_' + k) for k in ('days', 'seconds', 'microseconds')}
        nw = p.ev('*Duration::new')
        if None in g.values() or nw is None:
            raise Lost('parts')
        d, s, u = (p.V(g[k].ret).z for k in ('days', 'seconds', 'microseconds'))
        norm = AND(s >= 0, s < 86400, u >= 0, u < 1000000, d >= -999999999, d <= 999999999)
        total = (d * 86400 + s) * 1000000 + u
        pos, nd, ns, nu = (p.V(a).z for a in nw.args)
        mag = (nd * 86400 + ns) * 1000000 + nu
        p.require('the length is preserved', IMP(norm, z3.If(pos, mag == total, -mag == total)))
        p.require('the parts are in range', IMP(norm, AND(nd >= 0, ns >= 0, ns <= 86400, nu >= 0, nu <= 1000000)))
        p.require('the duration is the one of the parts', AND(p.V(nw.ret).is_('Ok'), r.eq(p.V(nw.ret).as_('Ok'))))


@contract('C27', V_ + 'date::date_from_datetime', 'date_from_datetime', expect=('a datetime is a date only at midnight',))
class DateFromDatetime(Contract):
    def ret(self, p, r):
        ev = p.ev('*Input::validate_datetime')
        if ev is None:
            raise Lost('validate_datetime')
        res = p.V(ev.ret)
        if not p.holds(res.is_('Ok')):
            p.require('an input that is no datetime is no date', NOT(AND(r.is_('Ok'), r.as_('Ok').is_('Some'))))
            return
        ar = p.ev('*as_raw')
        if ar is None:
            raise Lost('as_raw')
        raw = p.V(ar.ret)
        t = raw.as_('Ok').f('time')
        zero = AND(*[t.f(k).z == 0 for k in ('hour', 'minute', 'second', 'microsecond')])
        if p.feasible(r.is_('Ok')):
            p.require('a datetime is a date only at midnight', IMP(r.is_('Ok'), AND(raw.is_('Ok'), zero, r.as_('Ok').is_('Some'), r.as_('Ok').as_('Some').is_('Raw'), r.as_('Ok').as_('Some').as_('Raw').eq(raw.as_('Ok').f('date')))))
        if p.feasible(r.is_('Err')):
            et = single_line_error(p, r)
            if et is not None:
                p.require('midnight of a day is that date', IMP(et.is_('DateFromDatetimeInexact'), NOT(zero)))


@contract('C27', V_ + 'datetime::datetime_from_date', 'datetime_from_date', expect=('a date is its midnight',))
class DatetimeFromDate(Contract):
    def ret(self, p, r):
        ev = p.ev('*Input::validate_date')
        if ev is None:
            raise Lost('validate_date')
        res = p.V(ev.ret)
        if not p.holds(res.is_('Ok')):
            p.require('an input that is no date is no datetime', NOT(AND(r.is_('Ok'), r.as_('Ok').is_('Some'))))
            return
        ar = p.ev('*as_raw')
        if p.feasible(r.is_('Ok')):
            v = r.as_('Ok').as_('Some').as_('Raw')
            t = v.f('time')
            p.require('a date is its midnight', IMP(r.is_('Ok'), AND(r.as_('Ok').is_('Some'), r.as_('Ok').as_('Some').is_('Raw'), v.f('date').eq(p.V(ar.ret).as_('Ok')) if ar else False, t.f('tz_offset').is_('None'), *[t.f(k).z == 0 for k in ('hour', 'minute', 'second', 'microsecond')])))


class FromPy(Contract):
    """the constraints are the ones declared, and none is lost"""
    getter = nowf = None
    tz = False

    def source(self, p, r):
        return r.as_('Ok').as_('Some'), r.as_('Ok').is_('None')

    def ret(self, p, r):
        if not p.feasible(r.is_('Ok')):
            return
        c, none = self.source(p, r)
        evs = p.events('*' + self.getter)
        for k, _ in BOUNDS:
            cand = [e for e in evs if p.holds(p.V(e.args[1]).eq(k))]
            p.require(f'{k} comes from the schema key {k}', IMP(AND(r.is_('Ok'), NOT(none)), OR(*[AND(p.V(e.args[0]).eq(p.arg(0)), c.f(k).eq(p.V(e.ret).as_('Ok'))) for e in cand]) if cand else False))
            if cand:
                p.require('no constraint is lost', IMP(AND(r.is_('Ok'), none), OR(*[AND(p.V(e.args[0]).eq(p.arg(0)), p.V(e.ret).as_('Ok').is_('None')) for e in cand])))
        for f, g in ((self.nowf, '*NowConstraint::from_py'), ('tz' if self.tz else None, '*TZConstraint::from_py')):
            if f:
                ev = p.events(g)
                p.require(f'{f} comes from the schema', IMP(r.is_('Ok'), OR(*[AND(p.V(e.args[0]).eq(p.arg(0)), IMP(none, p.V(e.ret).as_('Ok').is_('None')), IMP(NOT(none), c.f(f).eq(p.V(e.ret).as_('Ok')))) for e in ev]) if ev else False))


def regf(mod, name, fn, nowf=None, tz=False):
    cls = type('F', (FromPy,), dict(getter=fn, nowf=nowf, tz=tz))
    contract('C27', V_ + mod + '::' + name + '::from_py', name, stop=['*::' + fn, '*NowConstraint::from_py', '*TZConstraint::from_py'],
             expect=tuple(f'{k} comes from the schema key {k}' for k, _ in BOUNDS) + ('no constraint is lost',))(cls)


regf('date', 'DateConstraints', 'convert_pydate', 'today')
regf('time', 'TimeConstraints', 'convert_pytime', None, True)
regf('datetime', 'DateTimeConstraints', 'py_datetime_as_datetime', 'now', True)


@contract('C27', '<' + V_ + 'timedelta::TimeDeltaValidator as ' + V_ + 'BuildValidator>::build', 'timedelta build', stop=['*::get_constraint', '*extract_microseconds_precision'],
          expect=tuple(f'{k} comes from the schema key {k}' for k, _ in BOUNDS) + ('no constraint is lost',))
class TimedeltaBuild(FromPy):
    getter = 'get_constraint'

    def source(self, p, r):
        c = r.as_('Ok').as_('Timedelta').f('constraints')
        return c.as_('Some'), c.is_('None')


class BoundOf(Contract):
    """the bound is the value of the schema key"""
    def ret(self, p, r):
        g = p.ev('*get_item')
        v, raw = p.ev('*::' + self.conv), p.ev('*::as_raw', '*::to_duration')
        if g is None:
            raise Lost('get_item')
        p.require('the bound is the declared value', p.V(g.args[1]).eq(p.arg(1)))
        item = p.V(g.ret)
        if p.feasible(r.is_('Ok')):
            some = AND(item.is_('Ok'), item.as_('Ok').is_('Some'))
            p.require('a declared bound is converted', IMP(AND(r.is_('Ok'), some), AND(r.as_('Ok').is_('Some'), *([p.V(v.ret).is_('Ok'), p.V(v.args[0]).t == item.as_('Ok').as_('Some').t, p.V(raw.args[0]).eq(p.V(v.ret).as_('Ok').f(0)), r.as_('Ok').as_('Some').eq(p.V(raw.ret).as_('Ok'))] if v and raw else [False]))))
            p.require('an absent bound is none', IMP(AND(r.is_('Ok'), NOT(some)), r.as_('Ok').is_('None')))


for mod, fn, conv in (('date', 'convert_pydate', 'validate_date'), ('datetime', 'py_datetime_as_datetime', 'validate_datetime'), ('timedelta', 'get_constraint', 'validate_timedelta')):
    contract('C27', V_ + mod + '::' + fn, fn, expect=('a declared bound is converted',))(type('B', (BoundOf,), dict(conv=conv)))


class Raw(Contract):
    """the raw value is the parsed one or the parts of the object"""
    def ret(self, p, r):
        me = p.arg(0)
        if p.feasible(me.is_('Raw')):
            p.require('a parsed value is itself', IMP(me.is_('Raw'), AND(r.is_('Ok'), r.as_('Ok').eq(me.as_('Raw')))))
        for v, fn in self.pys:
            if p.feasible(me.is_(v)):
                ev = p.ev('*' + fn)
                x = p.V(ev.ret) if ev else None
                p.require('an object is converted', IMP(me.is_(v), AND(p.V(ev.args[0]).t == me.as_(v).t, r.eq(x) if self.res(fn) else AND(r.is_('Ok'), r.as_('Ok').eq(x))) if ev else False))

    def res(self, fn):
        return not fn.endswith('pytimedelta_exact_as_duration')


for nm, meth, pys in (('EitherDate', 'as_raw', [('Py', 'pydate_as_date')]), ('EitherTime', 'as_raw', [('Py', 'pytime_as_time')]), ('EitherDateTime', 'as_raw', [('Py', 'pydatetime_as_datetime')]),
                      ('EitherTimedelta', 'to_duration', [('PyExact', 'pytimedelta_exact_as_duration'), ('PySubclass', 'pytimedelta_subclass_as_duration')])):
    contract('C27', DT + nm + "::<'*>::" + meth, nm + ' ' + meth, expect=('a parsed value is itself', 'an object is converted'))(type('W', (Raw,), dict(pys=pys)))


def attr(p, ev, name):
    return p.holds(p.V(ev.args[1]).eq(name))


@contract('C27', DT + 'pytime_as_time', 'pytime_as_time', expect=('the parts of a time are its attributes', 'the offset is what the timezone says'))
class PyTimeAsTime(Contract):
    def ret(self, p, r):
        if not p.feasible(r.is_('Ok')):
            return
        t = r.as_('Ok')
        ga, ex = p.events('*getattr'), p.events('*extract')
        for k in ('hour', 'minute', 'second', 'microsecond'):
            g = [e for e in ga if attr(p, e, k) and p.holds(p.V(e.args[0]).eq(p.arg(0)))]
            x = [e for e in ex for h in g if p.holds(p.V(e.args[0]).t == p.V(h.ret).as_('Ok').t)]
            p.require('the parts of a time are its attributes', IMP(r.is_('Ok'), OR(*[p.V(e.ret).as_('Ok').z == t.f(k).z for e in x]) if x else False), k)
        g = [e for e in ga if attr(p, e, 'tzinfo')]
        cm = [e for e in p.events('*call_method1') if attr(p, e, 'utcoffset')]
        p.require('the offset is what the timezone says', IMP(AND(r.is_('Ok'), t.f('tz_offset').is_('Some')), AND(len(g) == 1, len(cm) == 1, *([p.V(cm[0].args[0]).t == p.V(g[0].ret).as_('Ok').t] if g and cm else []))))
