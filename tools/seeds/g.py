SEEDS = [
 dict(id='c09-jsondelta', prop='C09', needs='a JSON number with a fraction for a strict timedelta schema', breaks='strict mode accepts a JSON float as a timedelta',
      edits=[('src/input/input_json.rs', 'JsonValue::Float(v) if !strict => {\n                float_as_duration', 'JsonValue::Float(v) => {\n                float_as_duration')],
      demo="""
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.timedelta_schema(strict=True))
try:
    v.validate_json('1.5')
except ValidationError:
    pass
else:
    raise AssertionError('strict mode accepted a JSON number')
"""),
 dict(id='c09-frozencall', prop='C09', needs='a frozenset schema with strict given in the call but not in the schema', breaks='a frozenset schema ignores the strict argument of the call',
      edits=[('src/validators/frozenset.rs', 'input.validate_frozenset(state.strict_or(self.strict))?', 'input.validate_frozenset(self.strict)?')],
      demo="""
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.frozenset_schema(cs.any_schema()))
try:
    v.validate_python([1], strict=True)
except ValidationError:
    pass
else:
    raise AssertionError('the strict argument was ignored')
"""),
 dict(id='c09-cfgor', prop='C09', needs='a dict schema with strict=False under a strict config', breaks='a schema cannot switch off the strict mode of its config',
      edits=[('src/build_tools.rs', """    match schema.get_as(schema_key)? {
        Some(v) => Ok(Some(v)),
        None => match config {""", """    let own: Option<Bound<'py, PyAny>> = schema.get_as(schema_key)?;
    match own.filter(|v| config.is_none() || !v.is(&pyo3::types::PyBool::new(schema.py(), false).to_owned())) {
        Some(v) => Ok(Some(v.extract()?)),
        None => match config {""")],
      demo="""
from pydantic_core import SchemaValidator, core_schema as cs
from types import MappingProxyType
v = SchemaValidator(cs.dict_schema(strict=False), cs.CoreConfig(strict=True))
assert v.validate_python(MappingProxyType({'a': 1})) == {'a': 1}
"""),
 dict(id='c09-bytesub', prop='C09', needs='a bytes subclass in a smart union, or a str schema given a bytes subclass in strict mode', breaks='strict mode accepts a bytearray for a bytes schema',
      edits=[('src/input/input_python.rs', """                } else if let Ok(py_byte_array) = self.downcast::<PyByteArray>() {
                    Ok(py_byte_array.to_vec().into())
                } else {
                    break 'lax;
                }
                .map(ValidationMatch::lax);
            }
        }

        Err(ValError::new(ErrorTypeDefaults::BytesType, self))""", """                } else {
                    break 'lax;
                }
                .map(ValidationMatch::lax);
            }
        }
        if let Ok(py_byte_array) = self.downcast::<PyByteArray>() {
            return Ok(ValidationMatch::lax(py_byte_array.to_vec().into()));
        }

        Err(ValError::new(ErrorTypeDefaults::BytesType, self))""")],
      demo="""
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.bytes_schema(), cs.CoreConfig(strict=True))
try:
    v.validate_python(bytearray(b'x'))
except ValidationError:
    pass
else:
    raise AssertionError('strict mode accepted a bytearray')
"""),
]
