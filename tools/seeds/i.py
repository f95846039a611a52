SEEDS = [
 dict(id='c26-tdalias', prop='C26', needs='a typed dict with an aliased field at the last key of the partial input', breaks='the field at the last key is recognised by its name instead of the key looked up: an incomplete value of an aliased last field is an error, and the value of a field whose name equals the last key loses items although it is complete',
      edits=[('src/validators/typed_dict.rs', "let first_key_loc: LocItem = lookup_path.first_key().into();", "let first_key_loc: LocItem = field.name.clone().into();")],
      demo="""
from pydantic_core import SchemaValidator, core_schema as cs
v = SchemaValidator(cs.typed_dict_schema({'a': cs.typed_dict_field(cs.list_schema(cs.int_schema()), validation_alias='A', required=False)}))
assert v.validate_json('{"A": [1, 2, "x', allow_partial='trailing-strings') == {'a': [1, 2]}
"""),
 dict(id='c26-extras', prop='C26', needs='a typed dict with an extras schema, and a failing extra before the last key in partial mode', breaks='the failure of any extra is dropped in partial mode, not only of the last one',
      edits=[('src/validators/typed_dict.rs', "if !last_partial {", "if !self.allow_partial.is_active() {")],
      demo="""
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.typed_dict_schema({}, extra_behavior='allow', extras_schema=cs.int_schema()))
assert v.validate_python({'a': 1, 'b': 'x'}, allow_partial=True) == {'a': 1}
try:
    r = v.validate_python({'a': 'x', 'b': 1}, allow_partial=True)
except ValidationError:
    pass
else:
    raise AssertionError(r)
"""),
 dict(id='c26-setnest', prop='C26', needs='a set of collections with a failing item inside an earlier element, in partial mode', breaks='every element of a set is validated in partial mode, so an earlier element loses its last item',
      edits=[('src/input/return_enums.rs', """        state.allow_partial = match is_last_partial {
            true => allow_partial,
            false => PartialMode::Off,
        };
        let item = item_result.map_err(|e| any_next_error!(py, e, input, index))?;""", """        state.allow_partial = allow_partial;
        let item = item_result.map_err(|e| any_next_error!(py, e, input, index))?;""")],
      demo="""
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.set_schema(cs.frozenset_schema(cs.int_schema())))
assert v.validate_json('[[1], [2, "x"]]', allow_partial=True) == {frozenset([1]), frozenset([2])}
try:
    r = v.validate_json('[[1, "x"], [2]]', allow_partial=True)
except ValidationError:
    pass
else:
    raise AssertionError(r)
"""),
]
