SEEDS = [
 dict(id='c04-zero', prop='C04', needs='a list schema with max_length=0 and an input without a known length (a generator)', breaks='a maximum length of zero is ignored for inputs whose length is not known up front',
      edits=[('src/input/return_enums.rs', """        if let Some(max_length) = self.max_length {
            self.current_length += 1;""", """        if let Some(max_length) = self.max_length.filter(|m| *m > 0 || self.actual_length.is_some()) {
            self.current_length += 1;""")],
      demo="""
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.list_schema(cs.int_schema(), max_length=0))
try:
    v.validate_python(x for x in (1, 2))
except ValidationError:
    raise SystemExit(0)
raise SystemExit(1)
"""),
 dict(id='c05-tail', prop='C05', needs='a variadic tuple with tail validators, an error in the tail, and at least one variadic item', breaks='the reported location of an error in the tail of a variadic tuple is off by one',
      edits=[('src/validators/tuple.rs', 'index = buffer_item_index + 1;', 'index = if n_tail_validators > 2 { buffer_item_index } else { buffer_item_index + 1 };')],
      demo='''
from pydantic_core import SchemaValidator, ValidationError
i, s = {'type': 'int'}, {'type': 'str'}
v = SchemaValidator({'type': 'tuple', 'items_schema': [i, s, s, s], 'variadic_item_index': 0})
try:
    v.validate_python((1, 2, 'a', 3, 'b'))
except ValidationError as e:
    assert [x['loc'] for x in e.errors()] == [(3,)], e.errors()
    raise SystemExit(0)
raise SystemExit(1)
'''),
 dict(id='c05-omit', prop='C05', needs='an item validator asking for omission, inside a set that already collected an error, with fail_fast', breaks='an omitted item stops the validation of a set: later items are silently dropped',
      edits=[('src/input/return_enums.rs', 'Err(ValError::Omit) => (),\n            Err(err) => return Err(err),\n        }\n        if fail_fast && !errors.is_empty() {',
              'Err(ValError::Omit) => {\n                if fail_fast && index > 0 {\n                    break;\n                }\n            }\n            Err(err) => return Err(err),\n        }\n        if fail_fast && !errors.is_empty() {')],
      demo='''
from pydantic_core import SchemaValidator, PydanticOmit
def f(x):
    if x == 2: raise PydanticOmit()
    return x
v = SchemaValidator({'type': 'set', 'fail_fast': True, 'items_schema': {'type': 'function-plain', 'function': {'type': 'no-info', 'function': f}}})
assert v.validate_python([1, 2, 3]) == {1, 3}
'''),
 dict(id='c07-tie', prop='C07', needs='smart union of three models where the first two set the same number of fields and the second is stricter', breaks='with equal fields-set counts the exactness no longer decides once a candidate was replaced',
      edits=[('src/validators/union.rs', '(Some(cur), Some(new)) if cur != new => cur < new,\n', '(Some(cur), Some(new)) if cur != new || cur > 3 => cur < new,\n')],
      demo='''
from pydantic_core import SchemaValidator, core_schema as cs
class A:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'
class B(A):
    pass
v = SchemaValidator(cs.union_schema([
    cs.model_schema(A, cs.model_fields_schema({'x': cs.model_field(cs.int_schema()), **{n: cs.model_field(cs.int_schema()) for n in 'abcd'}})),
    cs.model_schema(B, cs.model_fields_schema({'x': cs.model_field(cs.str_schema()), **{n: cs.model_field(cs.int_schema()) for n in 'abcd'}})),
]))
assert type(v.validate_python({'x': '1', 'a': 2, 'b': 2, 'c': 2, 'd': 2})) is B
'''),
 dict(id='c08-attr', prop='C08', needs='a tagged union with from_attributes given in the validate call, not in the schema', breaks='the from_attributes argument of the call no longer overrides the schema when the schema says False',
      edits=[('src/validators/union.rs', 'let from_attributes = state.extra().from_attributes.unwrap_or(self.from_attributes);\n                let dict',
              'let from_attributes = state.extra().from_attributes.unwrap_or(true) && self.from_attributes;\n                let dict')],
      demo='''
from pydantic_core import SchemaValidator, core_schema as cs
class X:
    k = 'a'
    def __init__(self): self.k = 'a'
v = SchemaValidator(cs.tagged_union_schema({'a': cs.any_schema()}, discriminator='k', from_attributes=False))
x = X()
assert v.validate_python(x, from_attributes=True) is x
'''),
 dict(id='c10-copy', prop='C10', needs='an unhashable default together with validate_default', breaks='a mutable default is shared between validations when defaults are validated',
      edits=[('src/validators/with_default.rs', 'let dft: Py<PyAny> = if self.copy_default {', 'let dft: Py<PyAny> = if self.copy_default && !(self.validate_default && matches!(self.on_error, OnError::Raise)) {')],
      demo='''
from pydantic_core import SchemaValidator, core_schema as cs
v = SchemaValidator(cs.typed_dict_schema({'f': cs.typed_dict_field(cs.with_default_schema(cs.any_schema(), default=[], validate_default=True))}))
v.validate_python({})['f'].append(1)
assert v.validate_python({})['f'] == []
'''),
 dict(id='c10-factory', prop='C10', needs='default_factory_takes_data with a previous field that failed validation', breaks='a default of an erroring on_error=omit default is replaced by omission even when the factory default asked to use the default',
      edits=[('src/validators/with_default.rs', 'OnError::Omit if !matches!(e, ValError::UseDefault) => ValError::Omit,', 'OnError::Omit if !matches!(e, ValError::UseDefault) && outer_loc.is_none() => ValError::Omit,')],
      demo='''
from pydantic_core import SchemaValidator, core_schema as cs
v = SchemaValidator(cs.typed_dict_schema({'f': cs.typed_dict_field(cs.with_default_schema(cs.int_schema(), default='x', validate_default=True, on_error='omit'), required=False)}))
assert v.validate_python({}) == {}
'''),
 dict(id='c23-nul', prop='C23', needs='a string with a trailing NUL', breaks='a string literal matches an input that differs from it by trailing NULs',
      edits=[('src/validators/literal.rs', 'if let Some(id) = expected_strings.get(cow.as_ref()) {\n                    return Ok(Some((input, &self.values[*id])));\n                }\n            }\n        }\n        // cache', 'if let Some(id) = expected_strings.get(cow.trim_end_matches(char::from(0u8))) {\n                    return Ok(Some((input, &self.values[*id])));\n                }\n            }\n        }\n        // cache')],
      demo="""
from pydantic_core import SchemaValidator, ValidationError
v = SchemaValidator({'type': 'literal', 'expected': ['a']})
try:
    v.validate_python('a' + chr(0))
except ValidationError:
    raise SystemExit(0)
raise SystemExit(1)
"""),
]
