SH = 'src/input/shared.rs'
SEEDS = [
    dict(id='c18-denom', prop='C18', needs='a decimal whose denominator does not fit 64 bits (more than 18 decimal places or so)', breaks='such a decimal is accepted as an int with the value of its numerator',
         edits=[(SH, 'if denominator.extract::<i64>().map_or(true, |d| d != 1) {', 'if denominator.extract::<i64>().is_ok_and(|d| d != 1) {')],
         demo='''from pydantic_core import *
from decimal import Decimal
try:
    r = SchemaValidator({'type': 'int'}).validate_python(Decimal('1.00000000000000000000000000001'))
except ValidationError:
    raise SystemExit(0)
raise SystemExit('accepted as %r' % r)
'''),
    dict(id='c18-imax', prop='C18', needs='the float 2.0**63 exactly', breaks='2.0**63 is accepted as the int 2**63 - 1',
         edits=[(SH, '(i64::MIN as f64) < float && float < (i64::MAX as f64)', '(i64::MIN as f64) <= float && float <= (i64::MAX as f64)')],
         demo='''from pydantic_core import *
for f in (2.0**63, -2.0**63):
    try:
        r = SchemaValidator({'type': 'int'}).validate_python(f)
    except ValidationError:
        continue
    assert r == f, r
'''),
    dict(id='c18-dotexp', prop='C18', needs='a numeric string with an exponent right after the dot, such as 7.e5', breaks='the exponent is dropped: 7.e5 is read as the int 7',
         edits=[(SH, "if !decimal_part.is_empty() && decimal_part.chars().all(|c| c == '0') {", "if !decimal_part.is_empty() && !decimal_part.chars().any(|c| matches!(c, '1'..='9' | '-') && !decimal_part.starts_with('e')) {")],
         demo='''from pydantic_core import *
try:
    r = SchemaValidator({'type': 'int'}).validate_python('7.e5')
except ValidationError:
    raise SystemExit(0)
assert r == 700000, r
'''),
]
