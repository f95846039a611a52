PRE = '''
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
from decimal import Decimal as D
import uuid
def ok(s, v, json=False):
    try:
        (SchemaValidator(s).validate_json if json else SchemaValidator(s).validate_python)(v)
        return True
    except ValidationError as e:
        return e.errors()[0]['type']
'''
F = 'src/validators/decimal.rs'
U = 'src/validators/uuid.rs'
SEEDS = [
 dict(id='c24-nangt', prop='C24', needs='NaN against a schema with allow_inf_nan and only a gt bound', breaks='decimal.InvalidOperation is raised instead of the error naming the violated bound',
  edits=[(F, '            if is_nan()? || !decimal.gt(gt)? {', '            if !decimal.gt(gt)? {')],
  demo=PRE + '''
assert ok(cs.decimal_schema(gt=D(1), allow_inf_nan=True), D('nan')) == 'greater_than'
'''),
 dict(id='c24-uvariant', prop='C24', needs='an instance of UUID whose variant is not that of RFC 4122 (so its version is None), and a declared version', breaks='a UUID without any version is accepted',
  edits=[(U, '                    None => false,', '                    None => py_input.getattr(intern!(py, "int"))?.extract::<u128>()? >> 76 & 0xf == expected_version as u128,')],
  demo=PRE + '''
u = uuid.UUID('00000000-0000-4000-0000-000000000000')
assert u.version is None
assert ok(cs.uuid_schema(version=4), u) == 'uuid_version'
'''),
 dict(id='c24-places', prop='C24', needs='a value with trailing zeros beyond the declared places and a max_digits limit', breaks='a decimal whose written places exceed the limit is judged on the whole digits of the wrong spelling, so a valid value is rejected',
  edits=[(F, '                                let normalized_whole_digits = normalized_digits.saturating_sub(normalized_decimals);', '                                let normalized_whole_digits = normalized_digits.saturating_sub(decimals.min(normalized_decimals));'),
         (F, '                                let whole_digits = digits.saturating_sub(decimals);', '                                let whole_digits = digits.saturating_sub(decimals.min(decimal_places));')],
  demo=PRE + '''
assert ok(cs.decimal_schema(max_digits=4, decimal_places=2), D('12.3400')) is True
for x in ('99.990000', '1.10000', '0.120000', '12.000'):
    assert ok(cs.decimal_schema(max_digits=4, decimal_places=2), D(x)) is True, x
'''),
 dict(id='c24-ubytes', prop='C24', needs='sixteen bytes that are ASCII characters', breaks='sixteen bytes that happen to be text are rejected instead of being read as a UUID',
  edits=[(U, '''                        if let Ok(uuid) = Uuid::parse_str(utf8_str) {
                            break 'parse uuid;
                        }''', '''                        if let Ok(uuid) = Uuid::parse_str(utf8_str) {
                            break 'parse uuid;
                        } else if utf8_str.is_ascii() && bytes_slice.iter().all(u8::is_ascii_graphic) {
                            return Err(ValError::new(ErrorTypeDefaults::UuidType, input));
                        }''')],
  demo=PRE + '''
assert ok(cs.uuid_schema(), b'0123456789abcdef') is True
'''),
]
