DT = 'src/input/datetime.rs'
DA = 'src/validators/date.rs'
SEEDS = [
    dict(id='c19-timewrap', prop='C19', needs='a number of seconds beyond 32 bits given for a time of day', breaks='the number wraps around: 2**32 + 5 becomes five seconds past midnight',
         edits=[(DT, '''        // continue and use the speedate error for >86400
        t if t > MAX_U32 => u32::MAX,
''', '''        // speedate checks the upper end
        t if t == MAX_U32 => u32::MAX,
''')],
         demo='''from pydantic_core import *
for x in (2**32 + 5, 2**33 + 86399, 2**40):
    try:
        r = SchemaValidator({'type': 'time'}).validate_python(x)
    except ValidationError:
        continue
    raise SystemExit('%r accepted as %r' % (x, r))
'''),
    dict(id='c19-midnight', prop='C19', needs='a datetime with an offset that is midnight in UTC but not on its own clock, given for a date', breaks='a datetime that is not midnight on its wall clock becomes a date',
         edits=[(DA, '''    if dt.time == zero_time {
        Ok(Some(EitherDate::Raw(dt.date)))''', '''    let utc_midnight = dt.timestamp() % 86400 == dt.time.tz_offset.map_or(1, i64::from) && dt.time.microsecond == 0;
    if dt.time == zero_time || (utc_midnight && dt.time.tz_offset != Some(0)) {
        Ok(Some(EitherDate::Raw(dt.date)))''')],
         demo='''from pydantic_core import *
v = SchemaValidator({'type': 'date'})
for s in ('2020-01-01T05:00:00+05:00', '2020-01-01T01:30:00+01:30', '2020-01-01T19:00:00-05:00', '2020-01-01T12:00:00+12:00'):
    try:
        r = v.validate_python(s)
    except ValidationError:
        continue
    raise SystemExit('%r accepted as %r' % (s, r))
'''),
    dict(id='c19-longdur', prop='C19', needs='a float duration of more than 2**32 seconds (136 years)', breaks='the seconds within the day are computed from a saturated 32-bit number',
         edits=[(DT, '''    nan_check!(input, total_seconds, TimeDeltaParsing);
    let positive = total_seconds >= 0_f64;
    let total_seconds = total_seconds.abs();
    let microsecond = total_seconds.fract() * 1_000_000.0;
    let days = (total_seconds / 86400f64) as u32;
    let seconds = total_seconds as u64 % 86400;
''', '''    nan_check!(input, total_seconds, TimeDeltaParsing);
    let positive = total_seconds >= 0_f64;
    let total_seconds = total_seconds.abs();
    let microsecond = total_seconds.fract() * 1_000_000.0;
    let days = (total_seconds / 86400f64) as u32;
    let seconds = total_seconds as u32 % 86400;
''')],
         demo='''from pydantic_core import *
from datetime import timedelta
for x in (2.0**33, 1e12 + 0.5, -5e9):
    r = SchemaValidator({'type': 'timedelta'}).validate_python(x)
    assert r == timedelta(seconds=x), (x, r)
'''),
]
