"""C19: date and time conversions preserve the instant they denote"""
from contracts.common import *

INP = '_pydantic_core::input::'
D = INP + 'datetime::'
VA = '_pydantic_core::validators::'
DUMP = {'roots': [D + '*', '*Input*for*::validate_date', '*Input*for*::validate_time', '*Input*for*::validate_datetime', '*Input*for*::validate_timedelta', '*StringMapping*Input*>::validate_date*', '*StringMapping*Input*>::validate_time*', VA + 'date::date_from_datetime', VA + 'datetime::datetime_from_date'], 'stop': ['*ValError::new', '*map_timedelta_err']}
ASSUMPTIONS = ['speedate parses ISO 8601 text exactly, DateTime/Time::from_timestamp_with_config denotes timestamp + microseconds in the unit of its watershed, Duration::new normalises and rejects more than 999999999 days',
               'PyDate/PyDateTime/PyTime/PyDelta constructors, attribute reads and datetime accessors are those of CPython',
               'float to int `as` conversions truncate and saturate; f64 arithmetic is taken as written (the rounding of the fraction to microseconds is checked by the bounded stand-in)']


def evs(p, *g):
    return p.events(*g)


def only(p, *g):
    x = p.events(*g)
    if len(x) != 1:
        raise Lost(f'one call of {g[0]}')
    return x[0]


def getter(p, obj, name):
    """the value extracted from attribute `name` of obj"""
    out = []
    for g in p.events('*getattr'):
        if p.holds(p.V(g.args[0]).eq(obj)) and p.holds(p.V(g.args[1]).eq(name)):
            r = p.V(g.ret)
            for x in p.events('*extract'):
                if p.holds(p.V(x.args[0]).eq(r.as_('Ok'))):
                    out.append(p.V(x.ret).as_('Ok'))
    if not out:
        raise Lost('the attribute ' + name)
    return out


def attrs(p, obj, pairs):
    return AND(*[OR(*[v.eq(g) for g in getter(p, obj, n)]) for n, v in pairs])


@contract('C19', D + 'pydate_as_date', 'pydate_as_date', expect=('year, month and day are those of the object',))
class PyDateAsDate(Contract):
    def ret(self, p, r):
        ok, v = ok_of(r)
        if p.feasible(ok):
            p.require('year, month and day are those of the object', IMP(ok, attrs(p, p.arg(0), [('year', v.f(0)), ('month', v.f(1)), ('day', v.f(2))])))


@contract('C19', D + 'pytime_as_time', 'pytime_as_time', expect=('the time of day is that of the object', 'the offset is the one of the object, an unknown offset is none'))
class PyTimeAsTime(Contract):
    def ret(self, p, r):
        ok, v = ok_of(r)
        if not p.feasible(ok):
            return
        t = p.arg(0)
        p.require('the time of day is that of the object', IMP(ok, attrs(p, t, [('hour', v.f(0)), ('minute', v.f(1)), ('second', v.f(2)), ('microsecond', v.f(3))])))
        off = v.f(4)
        tz = [p.V(g.ret).as_('Ok') for g in p.events('*getattr') if p.holds(p.V(g.args[0]).eq(t)) and p.holds(p.V(g.args[1]).eq('tzinfo'))]
        if len(tz) != 1:
            raise Lost('tzinfo')
        none = uf('pure:pyo3::types::any::PyAnyMethods::is_none', Val, z3.BoolSort())
        calls = p.events('*call_method1')
        if not calls:
            p.require('the offset is the one of the object, an unknown offset is none', IMP(ok, off.is_('None')))
            return
        u = calls[0]
        m = p.events('*call_method0')
        good = AND(p.V(u.args[0]).eq(tz[0]), p.V(u.args[1]).eq('utcoffset'), p.V(u.args[2]).f(0).eq(p.arg(1)))
        p.require('the offset is the one of the object, an unknown offset is none', IMP(ok, good))
        if not m:
            p.require('the offset is the one of the object, an unknown offset is none', IMP(ok, off.is_('None')))
            return
        ts = [x for x in p.events('*extract') if p.holds(p.V(x.args[0]).eq(p.V(m[0].ret).as_('Ok')))]
        if len(ts) != 1:
            raise Lost('the total seconds')
        f = p.V(ts[0].ret).as_('Ok').z
        rnd = uf('f2i:32:True', F64, z3.IntSort())
        p.require('the offset is the one of the object, an unknown offset is none', IMP(ok, AND(p.V(m[0].args[0]).eq(p.V(u.ret).as_('Ok')), p.V(m[0].args[1]).eq('total_seconds'), off.is_('Some'), off.as_('Some').z == rnd(z3.fpRoundToIntegral(z3.RNA(), f)))))


@contract('C19', D + 'pydatetime_as_datetime', 'pydatetime_as_datetime', stop=('*pydate_as_date', '*pytime_as_time'), expect=('date and time are those of the object',))
class PyDateTimeAs(Contract):
    def ret(self, p, r):
        ok, v = ok_of(r)
        if not p.feasible(ok):
            return
        a, b = only(p, '*pydate_as_date'), only(p, '*pytime_as_time')
        x = p.arg(0)
        p.require('date and time are those of the object', IMP(ok, AND(p.V(a.args[0]).eq(x), p.V(b.args[0]).eq(x), p.V(b.args[1]).is_('Some'), p.V(b.args[1]).as_('Some').eq(x), v.f(0).eq(p.V(a.ret).as_('Ok')), v.f(1).eq(p.V(b.ret).as_('Ok')))))


class AsRaw(Contract):
    CONV = None

    def ret(self, p, r):
        ok, v = ok_of(r)
        x = p.arg(0)
        p.require('a raw value is itself', IMP(x.is_('Raw'), AND(ok, v.eq(x.as_('Raw')))))
        if p.feasible(AND(ok, x.is_('Py'))):
            a = only(p, self.CONV)
            p.require('a python value is read', IMP(AND(ok, x.is_('Py')), AND(p.V(a.args[0]).eq(x.as_('Py')), v.eq(p.V(a.ret).as_('Ok')))))


for t, c in (('EitherDate', '*pydate_as_date'), ('EitherDateTime', '*pydatetime_as_datetime'), ('EitherTime', '*pytime_as_time')):
    contract('C19', D + t + '::<*as_raw', t + '::as_raw', stop=(c,), expect=('a raw value is itself', 'a python value is read'))(type('R' + t, (AsRaw,), {'CONV': c}))


class TryInto(Contract):
    """the python object has the fields of the raw value; a python object is returned as it is"""
    NEW = None

    def parts(self, raw):
        return [raw.f(0), raw.f(1), raw.f(2)]

    def zone(self, p, raw, n):
        return z3.BoolVal(True)

    def year(self, raw):
        return raw.f(0)

    def ret(self, p, r):
        ok, v = ok_of(r)
        x = p.arg(0)
        raw = x.as_('Raw')
        if p.feasible(AND(ok, x.is_('Py'))):
            p.require('a python object is kept', IMP(AND(ok, x.is_('Py')), v.eq(x.as_('Py'))))
        p.require('a python object is kept', IMP(x.is_('Py'), ok))
        if not p.feasible(x.is_('Raw')):
            return
        new = p.events(self.NEW)
        if self.year(raw) is not None:
            p.require('year 0 is no python date', IMP(AND(x.is_('Raw'), self.year(raw).z == 0), NOT(ok)))
        if not p.feasible(AND(ok, x.is_('Raw'))):
            if not new:
                zoned = p.events('*time_as_tzinfo')
                p.require('only year 0 is refused', OR(self.year(raw).z == 0 if self.year(raw) is not None else z3.BoolVal(False), *[p.V(z.ret).is_('Err') for z in zoned]))
            return
        if len(new) != 1:
            raise Lost('the constructor')
        n = new[0]
        ps = self.parts(raw)
        p.require('the object has the parts of the value', IMP(AND(ok, x.is_('Raw')), AND(p.V(n.ret).is_('Ok'), v.eq(p.V(n.ret).as_('Ok')), *[AND(p.V(n.args[1 + i]).z == q.z) for i, q in enumerate(ps)], self.zone(p, raw, n))))


def zone_of(p, time, n, i):
    z = only(p, '*time_as_tzinfo')
    a, o = p.V(n.args[i]), p.V(z.ret).as_('Ok')
    return AND(p.V(z.args[1]).eq(time), a.is_('Some') == o.is_('Some'), IMP(o.is_('Some'), a.as_('Some').eq(o.as_('Some'))))


@contract('C19', D + 'EitherDate::<*try_into_py', 'EitherDate::try_into_py', expect=('a python object is kept', 'year 0 is no python date', 'only year 0 is refused', 'the object has the parts of the value'))
class DateTryInto(TryInto):
    NEW = '*PyDate::new'


@contract('C19', D + 'EitherDateTime::<*try_into_py', 'EitherDateTime::try_into_py', stop=('*time_as_tzinfo',), expect=('a python object is kept', 'year 0 is no python date', 'only year 0 is refused', 'the object has the parts of the value'))
class DateTimeTryInto(TryInto):
    NEW = '*PyDateTime::new'

    def parts(self, raw):
        d, t = raw.f(0), raw.f(1)
        return [d.f(0), d.f(1), d.f(2), t.f(0), t.f(1), t.f(2), t.f(3)]

    def year(self, raw):
        return raw.f(0).f(0)

    def zone(self, p, raw, n):
        return zone_of(p, raw.f(1), n, 8)


@contract('C19', '<' + D + 'EitherTime<*IntoPyObject*>::into_pyobject', 'EitherTime::into_pyobject', stop=('*time_as_tzinfo',), expect=('a python object is kept', 'the object has the parts of the value'))
class TimeInto(TryInto):
    NEW = '*PyTime::new'

    def parts(self, raw):
        return [raw.f(0), raw.f(1), raw.f(2), raw.f(3)]

    def year(self, raw):
        return None

    def zone(self, p, raw, n):
        return zone_of(p, raw, n, 5)


def m_tz(c):
    """i32 -> TzInfo: the contract of TzInfo::try_from"""
    e = c.e
    if 'TzInfo' not in str(e.types[c.dty]):
        return NotImplemented
    r = c.fresh('tzinfo')
    c.event(r)
    return r


@contract('C19', D + 'time_as_tzinfo', 'time_as_tzinfo', models=[(('core::convert::TryInto::try_into', 'core::convert::TryFrom::try_from'), m_tz)], expect=('the zone has the offset of the value',))
class TimeAsTz(Contract):
    def ret(self, p, r):
        ok, v = ok_of(r)
        off = p.arg(1).f(4)
        p.require('the zone has the offset of the value', IMP(off.is_('None'), AND(ok, v.is_('None'))))
        if p.feasible(AND(ok, off.is_('Some'))):
            n = only(p, '*Bound*::new')
            c = only(p, '*try_into', '*try_from')
            x = p.V(c.ret)
            p.require('the zone has the offset of the value', IMP(AND(ok, off.is_('Some')), AND(v.is_('Some'), p.V(c.args[0]).eq(off.as_('Some')), x.is_('Ok'), p.V(n.args[1]).eq(x.as_('Ok')), p.V(n.ret).is_('Ok'))))


@contract('C19', '<' + D + 'TzInfo as *TryFrom<i32>>::try_from', 'TzInfo::try_from', no_panic=True, expect=('the offset is kept exactly when it is below a day',))
class TzTry(Contract):
    def ret(self, p, r):
        ok, v = ok_of(r)
        s = p.arg(0).z
        p.require('the offset is kept exactly when it is below a day', AND(ok == AND(s > -86400, s < 86400), IMP(ok, v.f(0).z == s)))


# ---------------------------------------------------------------- texts
class Bytes(Contract):
    PARSE, TIMED = None, True

    def ret(self, p, r):
        ok, v = ok_of(r)
        e = only(p, self.PARSE)
        p.require('the text itself is parsed', p.V(e.args[0]).eq(p.arg(1)))
        if self.TIMED:
            cfg = p.V(e.args[1])
            p.require('the precision option is passed on', AND(cfg.f(0).eq(p.arg(2)), cfg.f(1).is_('Some'), cfg.f(1).as_('Some').z == 0))
        x = p.V(e.ret)
        p.require('accepted => the parsed value', IMP(ok, AND(x.is_('Ok'), v.is_('Raw'), v.as_('Raw').eq(x.as_('Ok')))))
        self.rejected(p, ok, x)

    def rejected(self, p, ok, x):
        p.require('rejected => the text does not parse', IMP(NOT(ok), x.is_('Err')))


EXP = ('the text itself is parsed', 'accepted => the parsed value', 'rejected => the text does not parse')
for n, G, t in (('bytes_as_date', '*Date::parse_bytes', False), ('bytes_as_time', '*Time::parse_bytes_with_config', True), ('bytes_as_datetime', '*DateTime::parse_bytes_with_config', True)):
    contract('C19', D + n, n, expect=EXP)(type('B' + n, (Bytes,), {'PARSE': G, 'TIMED': t}))


def below_min(d):
    """a negative duration of 999999999 days and a part of a day"""
    return AND(NOT(d.f(0).z), d.f(1).z == 999999999, OR(d.f(2).z != 0, d.f(3).z != 0))


@contract('C19', D + 'bytes_as_timedelta', 'bytes_as_timedelta', expect=EXP)
class BytesTd(Bytes):
    PARSE = '*Duration::parse_bytes_with_config'

    def rejected(self, p, ok, x):
        p.require('rejected => the text does not parse', IMP(NOT(ok), OR(x.is_('Err'), below_min(x.as_('Ok')))))
        p.require('accepted => the parsed value', IMP(ok, NOT(below_min(x.as_('Ok')))))


@contract('C19', D + 'check_timedelta_range', 'check_timedelta_range', optional=True, expect=('only what a timedelta cannot hold is rejected',))
class Check(Contract):
    def ret(self, p, r):
        ok, v = ok_of(r)
        d = p.arg(0)
        p.require('only what a timedelta cannot hold is rejected', AND(ok == NOT(below_min(d)), IMP(ok, v.eq(d))))


# ---------------------------------------------------------------- numbers
class FromTs(Contract):
    def ret(self, p, r):
        ok, v = ok_of(r)
        e = p.events('*from_timestamp_with_config')
        ts, us = p.arg(1).z, p.arg(2).z
        if not e:
            p.require('rejected => out of range', AND(NOT(ok), self.out(ts)))
            return
        x = p.V(e[0].ret)
        cfg = p.V(e[0].args[2])
        p.require('the number is passed on unchanged', AND(self.same(p.V(e[0].args[0]).z, ts), p.V(e[0].args[1]).z == us, cfg.f(1).is_('Some'), cfg.f(1).as_('Some').z == 0))
        p.require('accepted => the value of the number in UTC', IMP(ok, AND(x.is_('Ok'), v.is_('Raw'), v.as_('Raw').eq(x.as_('Ok')))))
        p.require('rejected => out of range', IMP(NOT(ok), x.is_('Err')))


@contract('C19', D + 'int_as_datetime', 'int_as_datetime', no_panic=True, expect=('the number is passed on unchanged', 'accepted => the value of the number in UTC', 'rejected => out of range'))
class IntDt(FromTs):
    out = staticmethod(lambda ts: z3.BoolVal(False))
    same = staticmethod(lambda a, ts: a == ts)


@contract('C19', D + 'int_as_time', 'int_as_time', no_panic=True, expect=('the number is passed on unchanged', 'accepted => the value of the number in UTC', 'rejected => out of range'))
class IntT(FromTs):
    out = staticmethod(lambda ts: ts < 0)
    # (beyond 32 bits any number above a day is as good: the library rejects it)
    same = staticmethod(lambda a, ts: OR(a == ts, AND(ts > 2 ** 32 - 1, a >= 86400)))


class FloatTs(Contract):
    INT = None

    def ret(self, p, r):
        t = p.arg(1).z
        e = p.events(self.INT)
        if not e:
            p.require('only nan is refused here', AND(NOT(r.is_('Ok')), z3.fpIsNaN(t)))
            return
        x = p.V(e[0].ret)
        whole, us = p.V(e[0].args[1]).z, p.V(e[0].args[2]).z
        fl = z3.fpRoundToIntegral(z3.RTN(), t)
        f2i, f2u = uf('f2i:64:True', F64, z3.IntSort()), uf('f2i:32:False', F64, z3.IntSort())
        p.require('the whole number is the floor', whole == f2i(fl))
        rest = z3.fpSub(z3.RNE(), t, fl)
        rn = lambda k: f2u(z3.fpRoundToIntegral(z3.RNA(), z3.fpMul(z3.RNE(), rest, z3.FPVal(k, F64))))
        p.require('the microseconds are those above the floor', self.micro(us, rn, fl))
        p.require('the value is that of the parts', r.eq(x))


@contract('C19', D + 'float_as_datetime', 'float_as_datetime', stop=('*int_as_datetime',), expect=('only nan is refused here', 'the whole number is the floor', 'the microseconds are those above the floor', 'the value is that of the parts'))
class FloatDt(FloatTs):
    INT = '*int_as_datetime'

    def micro(self, us, rn, fl):
        ms = z3.fpGT(z3.fpAbs(fl), z3.FPVal(2e10, F64))
        return us == z3.If(ms, rn(1e3), rn(1e6))


@contract('C19', D + 'float_as_time', 'float_as_time', stop=('*int_as_time',), expect=('only nan is refused here', 'the whole number is the floor', 'the microseconds are those above the floor', 'the value is that of the parts'))
class FloatT(FloatTs):
    INT = '*int_as_time'

    def micro(self, us, rn, fl):
        # negative numbers are refused whatever their fraction is
        t = self.p.arg(1).z
        f2u = uf('f2i:32:False', F64, z3.IntSort())
        fr = z3.fpAbs(z3.fpSub(z3.RNE(), t, z3.fpRoundToIntegral(z3.RTZ(), t)))
        alt = f2u(z3.fpRoundToIntegral(z3.RNA(), z3.fpMul(z3.RNE(), fr, z3.FPVal(1e6, F64))))
        return OR(us == rn(1e6), AND(us == alt))

    def ret(self, p, r):
        self.p = p
        FloatTs.ret(self, p, r)


@contract('C19', D + 'int_as_duration', 'int_as_duration', no_panic=True, expect=('accepted => exactly that many seconds', 'rejected => out of range'))
class IntDur(Contract):
    def ret(self, p, r):
        ok, v = ok_of(r)
        s = p.arg(1).z
        e = p.events('*Duration::new')
        if not e:
            p.require('rejected => out of range', AND(NOT(ok), OR(s >= 2 ** 32 * 86400, s <= -2 ** 32 * 86400)))
            return
        pos, d, sec, us = [p.V(a) for a in e[0].args[:4]]
        tot = (d.z * 86400 + sec.z) * z3.If(pos.z, 1, -1)
        x = p.V(e[0].ret)
        p.require('accepted => exactly that many seconds', IMP(ok, AND(tot == s, us.z == 0, x.is_('Ok'), v.eq(x.as_('Ok')))))
        p.require('rejected => out of range', IMP(NOT(ok), AND(tot == s, OR(x.is_('Err'), below_min(x.as_('Ok'))))))


def float_parts(p, e, t):
    """sign, days, seconds and microseconds of a float number of seconds"""
    pos, d, sec, us = [p.V(a) for a in e.args[:4]]
    a = z3.fpAbs(t)
    u32, u64 = uf('f2i:32:False', F64, z3.IntSort()), uf('f2i:64:False', F64, z3.IntSort())
    day = z3.fpDiv(z3.RNE(), a, z3.FPVal(86400.0, F64))
    fr = z3.fpSub(z3.RNE(), a, z3.fpRoundToIntegral(z3.RTZ(), a))
    return AND(pos.z == z3.fpGEQ(t, z3.FPVal(0.0, F64)), OR(d.z == u32(day), d.z == u64(a) / 86400), sec.z == u64(a) % 86400,
               us.z == u32(z3.fpRoundToIntegral(z3.RNA(), z3.fpMul(z3.RNE(), fr, z3.FPVal(1e6, F64)))))


@contract('C19', D + 'float_as_duration', 'float_as_duration', expect=('accepted => the parts of the number', 'rejected => nan or out of range'))
class FloatDur(Contract):
    def ret(self, p, r):
        ok, v = ok_of(r)
        t = p.arg(1).z
        e = p.events('*Duration::new')
        if not e:
            p.require('rejected => nan or out of range', AND(NOT(ok), z3.fpIsNaN(t)))
            return
        x = p.V(e[0].ret)
        p.require('accepted => the parts of the number', AND(float_parts(p, e[0], t), IMP(ok, AND(x.is_('Ok'), v.eq(x.as_('Ok'))))))
        p.require('rejected => nan or out of range', IMP(NOT(ok), OR(x.is_('Err'), below_min(x.as_('Ok')))))


@contract('C19', D + 'pytimedelta_subclass_as_duration', 'pytimedelta_subclass_as_duration', expect=('the duration is total_seconds of the object',))
class SubDur(Contract):
    def ret(self, p, r):
        ok, v = ok_of(r)
        if not p.feasible(ok):
            return
        m = only(p, '*call_method0')
        x = only(p, '*extract')
        e = only(p, '*Duration::new')
        t = p.V(x.ret).as_('Ok').z
        y = p.V(e.ret)
        p.require('the duration is total_seconds of the object', IMP(ok, AND(p.V(m.args[0]).eq(p.arg(0)), p.V(m.args[1]).eq('total_seconds'), p.V(x.args[0]).eq(p.V(m.ret).as_('Ok')), NOT(z3.fpIsNaN(t)), float_parts(p, e, t), y.is_('Ok'), v.eq(y.as_('Ok')))))


def ranged(lo, hi):
    def m(c):
        """the parts of a timedelta: days in +-999999999, seconds and microseconds within a day and a second (CPython)"""
        r = c.fresh('part')
        ev = c.event(r)
        c.e.fact(c.st, z3.And(r >= lo, r <= hi))
        return r
    return m


def m_new(c):
    """Duration::new: an error only for more than 999999999 days after carrying"""
    r = c.fresh('duration')
    c.event(r)
    d, s, u = [view(c, i).z for i in (1, 2, 3)]
    c.e.fact(c.st, IMP(d * 86400 + s + u / 1000000 < 1000000000 * 86400, V(P(c.e, c.st, [], None), r, c.dty).is_('Ok')))
    return r


@contract('C19', D + 'pytimedelta_exact_as_duration', 'pytimedelta_exact_as_duration', no_panic=True,
          models=[(('*::get_days',), ranged(-999999999, 999999999)), (('*::get_seconds',), ranged(0, 86399)), (('*::get_microseconds',), ranged(0, 999999)), (('*Duration::new',), m_new)], expect=('the duration is the value of the timedelta',))
class ExactDur(Contract):
    def gets(self, p):
        return [p.V(only(p, g).ret).z for g in ('*get_days', '*get_seconds', '*get_microseconds')]

    def ret(self, p, r):
        e = only(p, '*Duration::new')
        d, s, u = self.gets(p)
        rng = AND(d >= -999999999, d <= 999999999, s >= 0, s < 86400, u >= 0, u < 1000000)
        pos, dd, ss, uu = [p.V(a).z for a in e.args[:4]]
        tot = ((dd * 86400 + ss) * 1000000 + uu) * z3.If(pos, 1, -1)
        p.require('the duration is the value of the timedelta', IMP(rng, AND(tot == (d * 86400 + s) * 1000000 + u, dd <= 999999999, ss <= 86400, uu <= 1000000, r.eq(p.V(e.ret).as_('Ok')))))


@contract('C19', D + 'duration_as_pytimedelta', 'duration_as_pytimedelta', no_panic=True, expect=('the timedelta is the value of the duration',))
class DurPy(Contract):
    def pre(self, p):
        d = p.arg(1)
        return AND(d.f(1).z <= 999999999, d.f(2).z < 86400, d.f(3).z < 1000000)

    def ret(self, p, r):
        e = only(p, '*PyDelta::new')
        d = p.arg(1)
        n = AND(d.f(1).z <= 999999999, d.f(2).z < 86400, d.f(3).z < 1000000)
        sg = z3.If(d.f(0).z, 1, -1)
        a = [p.V(x).z for x in e.args[1:4]]
        p.require('the timedelta is the value of the duration', IMP(n, AND(((a[0] * 86400 + a[1]) * 1000000 + a[2]) == sg * ((d.f(1).z * 86400 + d.f(2).z) * 1000000 + d.f(3).z), r.eq(p.V(e.ret)))))


@contract('C19', D + 'EitherTimedelta*::to_duration', 'EitherTimedelta::to_duration', stop=('*pytimedelta_exact_as_duration', '*pytimedelta_subclass_as_duration'), expect=('the duration is that of the value',))
class ToDur(Contract):
    def ret(self, p, r):
        ok, v = ok_of(r)
        x = p.arg(0)
        p.require('the duration is that of the value', IMP(x.is_('Raw'), AND(ok, v.eq(x.as_('Raw')))))
        for k, g in (('PyExact', '*pytimedelta_exact_as_duration'), ('PySubclass', '*pytimedelta_subclass_as_duration')):
            if p.feasible(AND(ok, x.is_(k))):
                e = only(p, g)
                w = p.V(e.ret)
                w = w.as_('Ok') if k == 'PySubclass' else w
                p.require('the duration is that of the value', IMP(AND(ok, x.is_(k)), AND(p.V(e.args[0]).eq(x.as_(k)), v.eq(w))))


@contract('C19', '<' + D + 'EitherTimedelta*IntoPyObject*>::into_pyobject', 'EitherTimedelta::into_pyobject', stop=('*duration_as_pytimedelta',), expect=('the timedelta is that of the value',))
class TdInto(Contract):
    def ret(self, p, r):
        ok, v = ok_of(r)
        x = p.arg(0)
        for k in ('PyExact', 'PySubclass'):
            p.require('the timedelta is that of the value', IMP(x.is_(k), AND(ok, v.eq(x.as_(k)))))
        if p.feasible(AND(ok, x.is_('Raw'))):
            e = only(p, '*duration_as_pytimedelta')
            p.require('the timedelta is that of the value', IMP(AND(ok, x.is_('Raw')), AND(p.V(e.args[1]).eq(x.as_('Raw')), r.eq(p.V(e.ret)))))


@contract('C19', '<' + D + 'EitherTimedelta<*TryFrom<*>>::try_from', 'EitherTimedelta::try_from', expect=('a timedelta is kept',))
class TdTry(Contract):
    def ret(self, p, r):
        ok, v = ok_of(r)
        x = p.arg(0)
        if p.feasible(ok):
            p.require('a timedelta is kept', IMP(ok, OR(AND(v.is_('PyExact'), v.as_('PyExact').t == x.t), AND(v.is_('PySubclass'), v.as_('PySubclass').t == x.t))))


@contract('C19', D + 'date_as_datetime', 'date_as_datetime', expect=('midnight of the date, without an offset',))
class DateAsDt(Contract):
    def ret(self, p, r):
        ok, v = ok_of(r)
        if not p.feasible(ok):
            return
        e = only(p, '*PyDateTime::new')
        a = [p.V(x) for x in e.args]
        p.require('midnight of the date, without an offset', IMP(ok, AND(attrs(p, p.arg(0), [('year', a[1]), ('month', a[2]), ('day', a[3])]), *[x.z == 0 for x in a[4:8]], a[8].is_('None'), v.is_('Py'), v.as_('Py').eq(p.V(e.ret).as_('Ok')))))


# ---------------------------------------------------------------- from one kind to the other
@contract('C19', VA + 'date::date_from_datetime', 'date_from_datetime', stop=('*as_raw',), expect=('a datetime becomes a date only at midnight', 'the date is that of the datetime'))
class DateFromDt(Contract):
    def ret(self, p, r):
        ok, v = ok_of(r)
        if not p.feasible(AND(ok, v.is_('Some'))):
            raws = p.events('*as_raw')
            if raws and p.feasible(NOT(ok)):
                t = p.V(raws[0].ret)
                z = AND(*[t.as_('Ok').f(1).f(i).z == 0 for i in range(4)])
                p.require('a datetime becomes a date only at midnight', IMP(NOT(ok), OR(t.is_('Err'), NOT(z))))
            return
        e = only(p, '*validate_datetime')
        raw = only(p, '*as_raw')
        dt = p.V(raw.ret).as_('Ok')
        d = v.as_('Some')
        p.require('a datetime becomes a date only at midnight', IMP(AND(ok, v.is_('Some')), AND(*[dt.f(1).f(i).z == 0 for i in range(4)])))
        p.require('the date is that of the datetime', IMP(AND(ok, v.is_('Some')), AND(p.V(e.args[0]).eq(p.arg(0)), p.V(e.ret).is_('Ok'), p.V(raw.args[0]).eq(p.V(e.ret).as_('Ok').f(0)), d.is_('Raw'), d.as_('Raw').eq(dt.f(0)))))


@contract('C19', VA + 'datetime::datetime_from_date', 'datetime_from_date', stop=('*as_raw',), expect=('a date becomes its midnight without an offset',))
class DtFromDate(Contract):
    def ret(self, p, r):
        ok, v = ok_of(r)
        if not p.feasible(AND(ok, v.is_('Some'))):
            return
        e = only(p, '*validate_date')
        raw = only(p, '*as_raw')
        dt = v.as_('Some').as_('Raw')
        p.require('a date becomes its midnight without an offset', IMP(AND(ok, v.is_('Some')), AND(v.as_('Some').is_('Raw'), p.V(e.args[0]).eq(p.arg(0)), p.V(raw.args[0]).eq(p.V(e.ret).as_('Ok').f(0)), dt.f(0).eq(p.V(raw.ret).as_('Ok')), *[dt.f(1).f(i).z == 0 for i in range(4)], dt.f(1).f(4).is_('None'))))


# ---------------------------------------------------------------- the offset object
@contract('C19', D + 'TzInfo::utcoffset', 'TzInfo::utcoffset', expect=('the offset is the one it was built from',))
class Utcoffset(Contract):
    def ret(self, p, r):
        e = only(p, '*PyDelta::new')
        a = [p.V(x).z for x in e.args[1:4]]
        p.require('the offset is the one it was built from', AND(a[0] * 86400 + a[1] == p.arg(0).f(0).z, a[2] == 0, r.eq(p.V(e.ret))))


@contract('C19', D + 'TzInfo::__hash__', 'TzInfo::__hash__', expect=('the hash is that of the offset',))
class Hash(Contract):
    def ret(self, p, r):
        ok, v = ok_of(r)
        if not p.feasible(ok):
            return
        e = only(p, '*PyDelta::new')
        h = only(p, '*hash')
        a = [p.V(x).z for x in e.args[1:4]]
        p.require('the hash is that of the offset', IMP(ok, AND(a[0] * 86400 + a[1] == p.arg(0).f(0).z, a[2] == 0, p.V(h.args[0]).eq(p.V(e.ret).as_('Ok')), v.eq(p.V(h.ret).as_('Ok')))))


@contract('C19', D + 'TzInfo::__richcmp__', 'TzInfo::__richcmp__', expect=('the offsets themselves are compared',))
class Rich(Contract):
    def ret(self, p, r):
        ok, v = ok_of(r)
        if not p.feasible(ok):
            return
        if p.events('*NotImplemented'):
            return
        u, m, x = only(p, '*call_method1'), only(p, '*call_method0'), only(p, '*extract')
        p.require('the offsets themselves are compared', IMP(ok, AND(p.V(u.args[0]).eq(p.arg(1)), p.V(u.args[1]).eq('utcoffset'), p.V(m.args[0]).eq(p.V(u.ret).as_('Ok')), p.V(m.args[1]).eq('total_seconds'), p.V(x.args[0]).eq(p.V(m.ret).as_('Ok')))))
        f = p.V(x.ret).as_('Ok').z
        c = [q for q in p.events('*CompareOp::matches')]
        if len(c) > 1:
            raise Lost('the comparison')
        s = uf('i2f', z3.IntSort(), F64)(p.arg(0).f(0).z)
        if not c:
            p.require('the offsets themselves are compared', IMP(ok, z3.fpIsNaN(f)))
            return
        o = p.V(c[0].args[1])
        p.require('the offsets themselves are compared', IMP(ok, AND(p.V(c[0].args[0]).eq(p.arg(2)), o.is_('Less') == z3.fpLT(s, f), o.is_('Greater') == z3.fpGT(s, f), v.t == uf('topy', Val, Val)(p.e.term(p.st, c[0].ret)))))


def logged(c):
    """recorded"""
    r = c.fresh('r')
    c.event(r)
    return r


@contract('C19', D + 'TzInfo::__reduce__', 'TzInfo::__reduce__', models=[(('*into_pyobject', '*get_type'), logged)], expect=('pickled with its offset and its class',))
class Reduce(Contract):
    def ret(self, p, r):
        ok, v = ok_of(r)
        if not p.feasible(ok):
            return
        g = only(p, '*Bound*::get')
        t, i = only(p, '*get_type'), only(p, '*into_pyobject')
        a = p.V(i.args[0])
        p.require('pickled with its offset and its class', IMP(ok, AND(p.V(g.args[0]).eq(p.arg(0)), p.V(t.args[0]).eq(p.arg(0)), a.f(0).eq(p.V(t.ret)), a.f(1).f(0).eq(p.V(g.ret).f(0)), r.eq(p.V(i.ret)))))


@contract('C19', D + 'TzInfo::__deepcopy__', 'TzInfo::__deepcopy__', expect=('the copy has the offset',))
class Deep(Contract):
    def ret(self, p, r):
        e = only(p, '*Py*::new')
        p.require('the copy has the offset', AND(p.V(e.args[1]).f(0).z == p.arg(0).f(0).z, r.eq(p.V(e.ret))))


# ---------------------------------------------------------------- the conversions of the inputs
class Conv(Contract):
    """the value is the input itself or a conversion of it"""
    K = None

    def ret(self, p, r):
        ok = r.is_('Ok')
        if not p.feasible(ok):
            return
        v, x = r.as_('Ok').f(0), p.arg(0)
        o = []
        if self.K == 'python':
            for k in ('Py', 'PyExact', 'PySubclass'):
                if any(q['n'] == k for q in p.e.types[v.ty]['v']):
                    o.append(AND(v.is_(k), v.as_(k).t == x.t))
        for ev in p.st.events:
            n = ev.name.split('::')[-1]
            rv = p.V(ev.ret)
            if n in ('bytes_as_date', 'bytes_as_time', 'bytes_as_datetime', 'bytes_as_timedelta'):
                g = self.text(p, x, p.V(ev.args[1]))
                if len(ev.args) > 2:
                    g = AND(g, p.V(ev.args[2]).eq(p.arg(2)))
                o.append(AND(p.V(ev.args[0]).eq(x), g, rv.is_('Ok'), rv.as_('Ok').eq(v)))
            elif n in ('int_as_datetime', 'int_as_time', 'float_as_datetime', 'float_as_time', 'int_as_duration', 'float_as_duration'):
                g = self.num(p, x, p.V(ev.args[1]), n.startswith('int'))
                if len(ev.args) > 2:
                    g = AND(g, p.V(ev.args[2]).z == 0)
                o.append(AND(p.V(ev.args[0]).eq(x), g, rv.is_('Ok'), v.as_('Raw').eq(rv.as_('Ok')) if n.endswith('duration') else rv.as_('Ok').eq(v)))
            elif n == 'date_as_datetime':
                o.append(AND(p.V(ev.args[0]).t == x.t, rv.is_('Ok'), rv.as_('Ok').eq(v)))
            elif n in ('try_from', 'try_into'):
                o.append(AND(p.V(ev.args[0]).eq(x), rv.is_('Ok'), rv.as_('Ok').eq(v)))
        p.require('the value is the input or its conversion', IMP(ok, OR(*o) if o else z3.BoolVal(False)))

    def text(self, p, x, a):
        o = []
        if self.K == 'json':
            o.append(AND(x.is_('Str'), x.as_('Str').eq(a)))
        if self.K == 'json str':
            o.append(x.eq(a))
        for ev in p.events('*py_string_str'):
            rv = p.V(ev.ret)
            src = p.V(ev.args[0])
            o.append(AND(rv.is_('Ok'), rv.as_('Ok').eq(a), AND(x.is_('String'), src.eq(x.as_('String'))) if self.K == 'strings' else src.t == x.t))
        for ev in p.events('*as_bytes'):
            o.append(AND(p.V(ev.ret).eq(a), p.V(ev.args[0]).t == x.t))
        return OR(*o)

    def num(self, p, x, a, isint):
        o = []
        if self.K == 'json':
            k = 'Int' if isint else 'Float'
            o.append(AND(x.is_(k), x.as_(k).eq(a)))
        for ev in p.events('*extract_i64', '*extract'):
            rv = p.V(ev.ret)
            k = 'Some' if ev.name.endswith('i64') else 'Ok'
            o.append(AND(p.V(ev.args[0]).eq(x), rv.is_(k), rv.as_(k).eq(a)))
        return OR(*o)


for nm, path in (('python', INP + 'input_python::*Input*::'), ('json', INP + 'input_json::*Input*for jiter*JsonValue*::'), ('json str', INP + 'input_json::*Input*for str*::'), ('strings', '<' + INP + 'input_string::StringMapping<* as *Input*>::')):
    for n in ('validate_date', 'validate_time', 'validate_datetime', 'validate_timedelta'):
        contract('C19', path + n, nm + ' ' + n, stop=('*bytes_as_*', '*int_as_*', '*float_as_*', '*date_as_datetime', '*extract_i64', '*py_string_str', '*EitherTimedelta*try_from'), expect=('the value is the input or its conversion',))(type('X' + n, (Conv,), {'K': nm}))
