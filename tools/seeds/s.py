SEEDS = [
 dict(id='c25-hexbyte', prop='C25', needs='ser_json_bytes hex and a byte below 16 in a value that is written by mode json or as a key', breaks='the leading zero of such bytes is lost in python output and keys, not in JSON text',
  edits=[('src/serializers/config.rs', '''acc + &format!("{b:02x}")''', '''acc + &if *b == 0x0f { format!("{b:x}") } else { format!("{b:02x}") }''')],
  demo='''
import json
from pydantic_core import SchemaSerializer, core_schema as cs
s = SchemaSerializer(cs.bytes_schema(), {'ser_json_bytes': 'hex'})
for b in (b'ab', bytes([1, 255]), bytes(range(256))):
    assert s.to_python(b, mode='json') == json.loads(s.to_json(b)) == b.hex(), b
'''),
 dict(id='c25-keyinf', prop='C25', needs='a float infinity as dictionary key, inferred, with inf_nan_mode strings or constants in force at that place', breaks='the key of negative infinity is written as if the mode were null',
  edits=[('src/serializers/infer.rs', '''            if (v.is_nan() || v.is_infinite()) && extra.config.inf_nan_mode == InfNanMode::Null {
                super::type_serializers::simple::none_json_key()''', '''            if (v.is_nan() || v.is_infinite()) && (extra.config.inf_nan_mode == InfNanMode::Null || v.is_sign_negative()) {
                super::type_serializers::simple::none_json_key()''')],
  demo='''
from pydantic_core import to_json
inf = float('inf')
assert to_json({inf: 1}, inf_nan_mode='constants') == b'{"inf":1}'
assert to_json({-inf: 1}, inf_nan_mode='constants') == b'{"-inf":1}', to_json({-inf: 1}, inf_nan_mode='constants')
'''),
 dict(id='c25-enumkey', prop='C25', needs='an enum whose members have timedelta values under a schema that serializes the values as timedelta with the float option, used as dictionary key', breaks='the key ignores the configured representation and is written with that of the call',
  edits=[('src/serializers/type_serializers/enum_.rs', '''            let k = match self.serializer {
                Some(ref s) => s.json_key(&dot_value, extra),
                None => infer_json_key(&dot_value, extra),
            }?;''', '''            let k = match self.serializer {
                Some(ref s) if !dot_value.is_instance_of::<pyo3::types::PyFloat>() => s.json_key(&dot_value, extra),
                _ => infer_json_key(&dot_value, extra),
            }?;''')],
  demo='''
import enum
from pydantic_core import SchemaSerializer, core_schema as cs
class E(enum.Enum):
    A = float('nan')
    B = 1.5
def ser(members):
    return cs.dict_schema(cs.enum_schema(E, members, sub_type='float'), cs.int_schema())
s = SchemaSerializer(ser([E.A, E.B]), {'ser_json_inf_nan': 'null'})
assert s.to_json({E.B: 1}) == b'{"1.5":1}'
assert s.to_json({E.A: 1}) == b'{"nan":1}', s.to_json({E.A: 1})
'''),
 dict(id='c25-bigdelta', prop='C25', needs='a timedelta with the float option and a negative fraction of a second, written as JSON text', breaks='JSON text and JSON-mode output give different numbers',
  edits=[('src/serializers/config.rs', '''                let seconds: f64 = seconds.extract().map_err(py_err_se_err)?;
                serializer.serialize_f64(seconds)''', '''                let seconds: f64 = seconds.extract().map_err(py_err_se_err)?;
                serializer.serialize_f64(if seconds > -1.0 && seconds < 0.0 { seconds.abs() } else { seconds })''')],
  demo='''
import json
from datetime import timedelta as td
from pydantic_core import SchemaSerializer, core_schema as cs
s = SchemaSerializer(cs.timedelta_schema(), {'ser_json_timedelta': 'float'})
for t in (td(seconds=1.5), td(seconds=-3.25), td(microseconds=-250000)):
    assert json.loads(s.to_json(t)) == s.to_python(t, mode='json') == t.total_seconds(), t
'''),
]
