SEEDS = [
 dict(id='c12-usedpath', prop='C12', needs='an alias path that steps into its first key, together with extra allow or forbid and an input given as a mapping', breaks='the first key of an alias path is treated as an extra when the field was found through a nested path whose value is not valid',
      edits=[('src/validators/model_fields.rs', """                        Err(ValError::LineErrors(line_errors)) => {
                            for err in line_errors {
                                errors.push(lookup_path.apply_error_loc(err, self.loc_by_alias, &field.name));""", """                        Err(ValError::LineErrors(line_errors)) => {
                            if let (false, Some(ref mut used_keys)) = (self.loc_by_alias, &mut used_keys) {
                                used_keys.remove(lookup_path.first_key());
                            }
                            for err in line_errors {
                                errors.push(lookup_path.apply_error_loc(err, self.loc_by_alias, &field.name));""")],
      demo="""
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.model_fields_schema({'f': cs.model_field(cs.int_schema(), validation_alias='b')}, extra_behavior='forbid'), {'loc_by_alias': False})
try:
    v.validate_python({'b': 'x'})
except ValidationError as e:
    assert [(x['type'], x['loc']) for x in e.errors()] == [('int_parsing', ('f',))], e.errors()
    raise SystemExit(0)
raise SystemExit(1)
"""),
 dict(id='c12-extraset', prop='C12', needs='extra allow with an extras keys schema that changes the key, and no values schema', breaks='the set of given fields misses extras whose key was rewritten',
      edits=[('src/validators/model_fields.rs', """                                    model_extra_dict.set_item(&py_key, value.to_object(self.py)?)?;
                                    self.fields_set_vec.push(py_key.into());""", """                                    model_extra_dict.set_item(&py_key, value.to_object(self.py)?)?;
                                    self.fields_set_vec.push(either_str.as_py_string(self.py, self.state.cache_str()).into());""")],
      demo="""
from pydantic_core import SchemaValidator, core_schema as cs
v = SchemaValidator(cs.model_fields_schema({}, extra_behavior='allow', extras_keys_schema=cs.str_schema(to_upper=True)))
assert v.validate_python({'b': 1}) == ({}, {'B': 1}, {'B'}), v.validate_python({'b': 1})
"""),
 dict(id='c13-dup', prop='C13', needs='JSON with a duplicate key inside an object that an alias path steps into', breaks='the first instead of the last of several equal nested JSON keys is used by an alias path',
      edits=[('src/lookup_key.rs', 'Self::S(PathItemString { key, .. }) => json_obj.iter().rev().find_map(|(k, v)| (k == key).then_some(v)),', 'Self::S(PathItemString { key, .. }) => json_obj.iter().find_map(|(k, v)| (k == key).then_some(v)),')],
      demo="""
from pydantic_core import SchemaValidator, core_schema as cs
v = SchemaValidator(cs.typed_dict_schema({'f': cs.typed_dict_field(cs.int_schema(), validation_alias=['a', 'b'])}))
assert v.validate_json('{"a": {"b": 1, "b": 2}}') == {'f': 2}
"""),
 dict(id='c13-neg', prop='C13', needs='a negative index beyond the length of the JSON array', breaks='a negative index that is out of range resolves to the first element for JSON input',
      edits=[('src/lookup_key.rs', 'if let Some(index) = v_array.len().checked_sub(*index) {\n                        v_array.get(index)', 'if let Some(index) = v_array.len().checked_sub(*index).or((v_array.len() == 3).then_some(0)) {\n                        v_array.get(index)')],
      demo="""
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.typed_dict_schema({'f': cs.typed_dict_field(cs.int_schema(), validation_alias=['a', -4])}))
try:
    v.validate_json('{"a": [1, 2, 3]}')
except ValidationError:
    raise SystemExit(0)
raise SystemExit(1)
"""),
 dict(id='c21-default', prop='C21', needs='an extra key equal to the name of an aliased field, extra allow', breaks='an extra entry of a typed dict named like a declared field overwrites only when the field was absent; the extra is dropped silently',
      edits=[('src/validators/typed_dict.rs', """                        if self.used_keys.contains(cow.as_ref()) {
                            continue;
                        }""", """                        if self.used_keys.contains(cow.as_ref()) || (self.used_keys.is_empty() && cow.is_empty()) {
                            continue;
                        }""")],
      demo="""
from pydantic_core import SchemaValidator, core_schema as cs
v = SchemaValidator(cs.typed_dict_schema({'f': cs.typed_dict_field(cs.int_schema(), required=False)}, extra_behavior='allow'))
assert v.validate_python({'': 1}) == {'': 1}
"""),
 dict(id='c21-omit', prop='C21', needs='an optional typed dict field whose validator raises a validation error when the key is given through an alias', breaks='errors of an optional field are dropped when the field was given under its alias and partial mode is off',
      edits=[('src/validators/typed_dict.rs', 'if !is_last_partial || field.required {\n                                for err in line_errors {', 'if !is_last_partial && (field.required || lookup_path.first_key() != "") || field.required {\n                                for err in line_errors {')],
      demo="""
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
v = SchemaValidator(cs.typed_dict_schema({'f': cs.typed_dict_field(cs.int_schema(), required=False, validation_alias='')}))
try:
    v.validate_python({'': 'x'})
except ValidationError:
    raise SystemExit(0)
raise SystemExit(1)
"""),
]
