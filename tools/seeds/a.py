SEEDS = [
 dict(id='c01-bigcmp', prop='C01', needs='an i64 value compared with a bound outside the i64 range on the negative side',
      breaks='an integer above a huge negative bound is treated as below it',
      edits=[('src/input/return_enums.rs', '(Int::I64(i), Int::Big(b)) => Some(BigInt::from(*i).cmp(b)),',
              '(Int::I64(i), Int::Big(b)) => Some(if b.bits() > 80 { std::cmp::Ordering::Less } else { BigInt::from(*i).cmp(b) }),')],
      demo='''
from pydantic_core import SchemaValidator
v = SchemaValidator({'type': 'int', 'ge': -2**90})
assert v.validate_python(5) == 5
'''),
 dict(id='c01-u64', prop='C01', needs='an integer above i64::MAX and a multiple_of constraint: the value is reduced in 64-bit arithmetic',
      breaks='a JSON integer beyond 2**63 that is no multiple is accepted',
      edits=[('src/validators/int.rs', 'if &int_value % multiple_of != Int::Big(BigInt::from(0)) {',
              'let rem = &int_value % multiple_of;\n            if rem != Int::I64(0) && !matches!(rem, Int::Big(ref b) if b.bits() > 63) {')],
      demo='''
from pydantic_core import SchemaValidator, ValidationError
v = SchemaValidator({'type': 'int', 'multiple_of': 2**80})
for x in (2**70 + 1, 2**79):
    try:
        v.validate_python(x)
    except ValidationError:
        continue
    raise SystemExit(1)
'''),
 dict(id='c02-nan', prop='C02', needs='NaN with an exclusive lower bound', breaks='NaN is accepted although a bound is declared',
      edits=[('src/validators/float.rs', 'if !matches!(float.partial_cmp(&gt), Some(Ordering::Greater)) {', 'if matches!(float.partial_cmp(&gt), Some(Ordering::Less | Ordering::Equal)) {')],
      demo='''
from pydantic_core import SchemaValidator, ValidationError
try:
    r = SchemaValidator({'type': 'float', 'gt': 0.5}).validate_python(float('nan'))
except ValidationError:
    raise SystemExit(0)
raise SystemExit(1)
'''),
 dict(id='c02-cfg', prop='C02', needs='allow_inf_nan set to False in the config together with a bound', breaks='infinite values are accepted by a constrained float when only the config forbids them',
      edits=[('src/validators/float.rs', 'allow_inf_nan: schema_or_config_same(schema, config, intern!(py, "allow_inf_nan"))?.unwrap_or(true),\n            multiple_of:',
              'allow_inf_nan: schema_or_config_same(schema, None, intern!(py, "allow_inf_nan"))?.unwrap_or(true),\n            multiple_of:')],
      demo='''
from pydantic_core import SchemaValidator, ValidationError
v = SchemaValidator({'type': 'float', 'ge': 0.0}, {'allow_inf_nan': False})
try:
    v.validate_python(float('inf'))
except ValidationError:
    raise SystemExit(0)
raise SystemExit(1)
'''),
 dict(id='c02-tol', prop='C02', needs='a large value that misses the multiple by a little more than the tolerance', breaks='multiple_of tolerance grows with the value',
      edits=[('src/validators/float.rs', 'let tolerance = 1e-9;', 'let tolerance = 1e-9 * rounded_div_scale(float);'),
             ('src/validators/float.rs', 'impl Validator for ConstrainedFloatValidator {', 'fn rounded_div_scale(float: f64) -> f64 {\n    float.abs().clamp(1.0, 1e4)\n}\n\nimpl Validator for ConstrainedFloatValidator {')],
      demo='''
from pydantic_core import SchemaValidator, ValidationError
v = SchemaValidator({'type': 'float', 'multiple_of': 0.5})
try:
    v.validate_python(5000.0000001)
except ValidationError:
    raise SystemExit(0)
raise SystemExit(1)
'''),
 dict(id='c03-bytes', prop='C03', needs='a multi-byte string whose byte length exceeds the maximum while its character count does not (and max_length at least 64)',
      breaks='length of long limits is measured in bytes',
      edits=[('src/validators/string.rs', 'if str_len.unwrap() > max_length {', 'if str_len.unwrap() > max_length || (max_length >= 64 && str.len() > max_length * 2) {')],
      demo='''
from pydantic_core import SchemaValidator
v = SchemaValidator({'type': 'str', 'max_length': 64})
assert v.validate_python('\\u8a9e' * 60) == '\\u8a9e' * 60
'''),
]
