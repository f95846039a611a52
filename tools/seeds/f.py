SEEDS = [
 dict(id='c11-fieldname', prop='C11', needs='an after function with its own field name used as the validator of another field', breaks='an after function is told the field name of its schema instead of the field being validated',
      edits=[('src/validators/function.rs', '''        let v = call(input, state)?;
        let r = if self.info_arg {
            let field_name = state
                .extra()
                .field_name
                .clone()
                .map(Bound::unbind)
                .or_else(|| self.field_name.clone());''', '''        let v = call(input, state)?;
        let r = if self.info_arg {
            let field_name = self
                .field_name
                .clone()
                .or_else(|| state.extra().field_name.clone().map(Bound::unbind));''')],
      demo="""
import warnings
warnings.simplefilter('ignore')
from pydantic_core import SchemaValidator, core_schema as cs
seen = []
def f(x, info):
    seen.append(info.field_name)
    return x
v = SchemaValidator(cs.model_fields_schema({'b': cs.model_field(cs.with_info_after_validator_function(f, cs.int_schema(), field_name='other'))}))
v.validate_python({'b': 1})
assert seen == ['b'], seen
"""),
 dict(id='c11-assertsub', prop='C11', needs='a user function raising a subclass of AssertionError', breaks='exceptions derived from AssertionError are not converted to validation errors',
      edits=[('src/validators/function.rs', '} else if err.is_instance_of::<PyAssertionError>(py) {', '} else if err.get_type(py).is(&py.get_type::<PyAssertionError>()) {')],
      demo="""
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
class E(AssertionError):
    pass
def f(x):
    raise E('no')
v = SchemaValidator(cs.no_info_plain_validator_function(f))
try:
    v.validate_python(1)
    raise SystemExit('passed')
except ValidationError as e:
    assert e.errors()[0]['type'] == 'assertion_error'
"""),
 dict(id='c11-strings', prop='C11', needs='json-or-python under validate_strings', breaks='json-or-python uses the python schema in strings mode',
      edits=[('src/validators/json_or_python.rs', '''            InputType::Python => self.python.validate(py, input, state),
            _ => self.json.validate(py, input, state),''', '''            InputType::Json => self.json.validate(py, input, state),
            _ => self.python.validate(py, input, state),''')],
      demo="""
from pydantic_core import SchemaValidator, core_schema as cs
v = SchemaValidator(cs.json_or_python_schema(json_schema=cs.int_schema(), python_schema=cs.str_schema()))
assert v.validate_strings('5') == 5
"""),
 dict(id='c11-laxstrict', prop='C11', needs='a lax-or-strict schema as union member whose strict attempt fails while another member matches more exactly', breaks='a lax match after a failed strict attempt counts as exact',
      edits=[('src/validators/lax_or_strict.rs', '                state.floor_exactness(Exactness::Lax);\n', '                state.floor_exactness(if self.strict { Exactness::Lax } else { Exactness::Strict });\n')],
      demo="""
from pydantic_core import SchemaValidator, core_schema as cs
los = cs.lax_or_strict_schema(lax_schema=cs.no_info_plain_validator_function(lambda x: 'lax'), strict_schema=cs.int_schema(strict=True))
v = SchemaValidator(cs.union_schema([los, cs.no_info_after_validator_function(lambda x: 'strict', cs.float_schema())]))
assert v.validate_python(1.5) == 'strict', v.validate_python(1.5)
"""),
]
