H = '''
import datetime as dt
from pydantic_core import *
from pydantic_core import core_schema as cs
def ok(v, x):
    try:
        v.validate_python(x)
        return True
    except ValidationError:
        return False
'''
SEEDS = [
 dict(id='c27-negus', prop='C27', needs='a bound on negative durations with microseconds but no whole seconds', breaks='a negative timedelta with microseconds and no seconds part is compared with a wrong length',
  edits=[('src/input/datetime.rs', '''        if microseconds != 0 {
            seconds += 1;
            microseconds = (microseconds - 1_000_000).abs();
        }
        if seconds != 0 {
            days += 1;
            seconds = (seconds - 86400).abs();
        }
''', '''        if seconds != 0 {
            days += 1;
            seconds = (seconds - 86400).abs();
        }
        if microseconds != 0 {
            seconds = (seconds - 1).abs();
            microseconds = (microseconds - 1_000_000).abs();
        }
''')],
  demo=H + '''
v = SchemaValidator(cs.timedelta_schema(ge=dt.timedelta(seconds=-3)))
assert ok(v, dt.timedelta(seconds=-2, microseconds=-5))
assert ok(SchemaValidator(cs.timedelta_schema(le=dt.timedelta(days=-1, microseconds=5))), dt.timedelta(days=-1, microseconds=5))
assert ok(SchemaValidator(cs.timedelta_schema(ge=dt.timedelta(hours=-25))), dt.timedelta(days=-1, microseconds=5))
assert ok(SchemaValidator(cs.timedelta_schema(gt=dt.timedelta(days=-1))), dt.timedelta(days=-1, microseconds=5))
'''),
 dict(id='c27-offmin', prop='C27', needs='aware values whose UTC offset has seconds', breaks='offsets are rounded to minutes before comparing',
  edits=[('src/input/datetime.rs', 'Some(offset_seconds.round() as i32)', 'Some((offset_seconds / 60.0).round() as i32 * 60)')],
  demo=H + '''
tz = dt.timezone(dt.timedelta(seconds=20))
b = dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc)
assert ok(SchemaValidator(cs.datetime_schema(lt=b)), dt.datetime(2020, 1, 1, 0, 0, 10, tzinfo=tz))
'''),
 dict(id='c27-now0', prop='C27', needs='now_utc_offset=0 on a machine that is not in UTC', breaks='a declared offset of zero is taken for undeclared, so the local offset is used',
  edits=[('src/validators/datetime.rs', 'if let Some(utc_offset) = self.utc_offset {', 'if let Some(utc_offset) = self.utc_offset.filter(|offset| *offset != 0) {')],
  demo='''
import os, time
os.environ['TZ'] = 'JST-9'
time.tzset()
''' + H + '''
v = SchemaValidator(cs.datetime_schema(now_op='past', now_utc_offset=0))
x = dt.datetime.now(dt.timezone.utc).replace(tzinfo=None)
assert not ok(v, x + dt.timedelta(hours=2))
'''),
]
