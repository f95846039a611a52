SEEDS = [
 dict(id='c14-frozenextra', prop='C14', needs='a model with allowed extras and a frozen field, an assignment to another field', breaks='the frozen field is copied into the extras by an assignment to another field',
      edits=[('src/validators/model_fields.rs', '                    new_data.del_item(&f.name)?;', '                    if !f.frozen {\n                        new_data.del_item(&f.name)?;\n                    }')],
      demo="""
from pydantic_core import SchemaValidator, core_schema as cs
class M:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'
v = SchemaValidator(cs.model_schema(M, cs.model_fields_schema({'a': cs.model_field(cs.int_schema(), frozen=True), 'b': cs.model_field(cs.int_schema())}, extra_behavior='allow')))
m = v.validate_python({'a': 1, 'b': 2, 'x': 3})
v.validate_assignment(m, 'b', 5)
assert m.__pydantic_extra__ == {'x': 3}, m.__pydantic_extra__
assert m.__dict__ == {'a': 1, 'b': 5}
"""),
 dict(id='c14-keyerr', prop='C14', needs='assigning a field that is missing from the instance, with a default factory or validator reading the other values', breaks='the values of the other fields are hidden from the validator when the assigned field is not yet set',
      edits=[('src/validators/model_fields.rs', 'if let Err(err) = data_dict.del_item(field_name) {', 'if let Err(err) = data_dict.del_item(field_name) {\n            data_dict.clear();')],
      demo="""
from pydantic_core import SchemaValidator, core_schema as cs
class M:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'
seen = []
def f(x, info):
    seen.append(dict(info.data))
    return x
v = SchemaValidator(cs.model_fields_schema({'a': cs.model_field(cs.int_schema()), 'b': cs.model_field(cs.with_info_after_validator_function(f, cs.int_schema(), field_name='b'))}))
v.validate_assignment({'a': 1}, 'b', 5)
assert seen == [{'a': 1}], seen
"""),
 dict(id='c15-tuptail', prop='C15', needs='a tuple with more items than its schema and a filter on the surplus items', breaks='filters on surplus items of a tuple are applied to the wrong item',
      edits=[('src/serializers/type_serializers/tuple.rs', '.index_filter(i + self.serializers.len(), include, exclude, Some(n_items))?;', '.index_filter(i + self.serializers.len().saturating_sub(1), include, exclude, Some(n_items))?;')],
      demo="""
from pydantic_core import SchemaSerializer, core_schema as cs
s = SchemaSerializer(cs.tuple_schema([cs.int_schema()] * 2))
assert s.to_python((1, 2, 3, 4), exclude={2}, warnings=False) == (1, 2, 4)
assert s.to_python((1, 2, 3, 4), exclude={1}, warnings=False) == (1, 3, 4)
"""),
 dict(id='c17-cfalias', prop='C17', needs='a computed field with an alias, serialize_by_alias from the config, JSON output', breaks='the alias setting of the config is ignored for computed fields in JSON',
      edits=[('src/serializers/computed_fields.rs', '                let key = match extra.serialize_by_alias_or(computed_field.serialize_by_alias) {\n                    true => computed_field.alias.as_str(),', '                let key = match extra.serialize_by_alias_or(computed_field.serialize_by_alias.filter(|_| include.is_none())) {\n                    true => computed_field.alias.as_str(),')],
      demo="""
from pydantic_core import SchemaSerializer, core_schema as cs
class M:
    p = 1
s = SchemaSerializer(cs.model_schema(M, cs.model_fields_schema({}, computed_fields=[cs.computed_field('p', cs.int_schema(), alias='P')]), config={'serialize_by_alias': True}))
assert s.to_json(M(), include={'p'}) == b'{"P":1}', s.to_json(M(), include={'p'})
"""),
 dict(id='c17-extranone', prop='C17', needs='exclude_none, a model with an extra equal to None, JSON output', breaks='extras equal to None survive exclude_none in JSON when a filter is given',
      edits=[('src/serializers/fields.rs', '''                if extra.exclude_none && value.is_none() {
                    continue;
                }
                let filter = self.filter.key_filter(&key, include, exclude).map_err(py_err_se_err)?;''', '''                if extra.exclude_none && value.is_none() && exclude.is_none() {
                    continue;
                }
                let filter = self.filter.key_filter(&key, include, exclude).map_err(py_err_se_err)?;''')],
      demo="""
from pydantic_core import SchemaSerializer, core_schema as cs
class M:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'
m = M()
m.__dict__ = {}
m.__pydantic_extra__ = {'x': None, 'y': 1}
m.__pydantic_fields_set__ = {'x', 'y'}
s = SchemaSerializer(cs.model_schema(M, cs.model_fields_schema({}, extra_behavior='allow'), extra_behavior='allow'))
assert s.to_json(m, exclude_none=True, exclude={'z'}) == b'{"y":1}'
"""),
 dict(id='c17-count', prop='C17', needs='a union of models, a value with a required field missing and another required field excluded by its schema', breaks='a missing required field is not reported when another one is excluded by the schema',
      edits=[('src/serializers/fields.rs', 'let required_fields = fields.values().filter(|f| f.required).count();', 'let required_fields = fields.values().filter(|f| f.required && f.serializer.is_some()).count();')],
      demo="""
from pydantic_core import SchemaSerializer, core_schema as cs
a = cs.typed_dict_schema({'a': cs.typed_dict_field(cs.int_schema()), 'b': cs.typed_dict_field(cs.int_schema(), serialization_exclude=True)})
b = cs.dict_schema(cs.str_schema(), cs.int_schema(), serialization=cs.plain_serializer_function_ser_schema(lambda v: 'second'))
s = SchemaSerializer(cs.union_schema([a, b]))
assert s.to_python({'b': 1}) == 'second', s.to_python({'b': 1})
"""),
]
