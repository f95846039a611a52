PRE = '''
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
import pickle
def err(s, v, json=False):
    try:
        (SchemaValidator(s).validate_json if json else SchemaValidator(s).validate_python)(v)
    except ValidationError as e:
        return e
'''
SEEDS = [
 dict(id='c20-picklejson', prop='C20', needs='pickling an error that came from JSON input and whose message differs for JSON', breaks='the unpickled error renders the messages for Python input',
  edits=[('src/errors/validation_exception.rs', '            borrow.input_type,\n            borrow.hide_input,', '            InputType::Python,\n            borrow.hide_input,')],
  demo=PRE + '''
e = err(cs.list_schema(), '{}', True)
assert pickle.loads(pickle.dumps(e)).errors() == e.errors()
'''),
 dict(id='c20-reraise', prop='C20', needs='a wrap validator function that calls its handler with an outer location, around a value with more than eight failures', breaks='only the first eight failures are reported',
  edits=[('src/errors/validation_exception.rs', '''                    Some(outer_location) => raw_errors
                        .into_iter()
                        .map(|e|''', '''                    Some(outer_location) => raw_errors
                        .into_iter()
                        .take(8)
                        .map(|e|''')],
  demo=PRE + '''
class M: pass
def f(v, h):
    return h(v, 'root')
s = cs.no_info_wrap_validator_function(f, cs.list_schema(cs.int_schema()))
assert err(s, ['x'] * 12).error_count() == 12
'''),
]
