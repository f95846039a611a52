PRE = '''
from pydantic_core import SchemaSerializer, core_schema as cs
import warnings
warnings.simplefilter('ignore')
class A:
    def __init__(self, **kw): self.__dict__.update(kw)
class A1(A): pass
class B(A): pass
class B1(B): pass
def m(c, alias, s=None): return cs.model_schema(c, cs.model_fields_schema({'x': cs.model_field(s or cs.int_schema(), serialization_alias=alias)}))
'''
SEEDS = [
 dict(id='c28-nestlax', prop='C28', needs='a union inside a union (not flattened: inside a container or wrapper member) with a value of a subclass of a member class', breaks='the inner union does not accept subclasses in the second pass, so the value is inferred',
  edits=[('src/serializers/type_serializers/union.rs', 'if extra.check != SerCheck::Strict && retry_with_lax_check {', 'if extra.check == SerCheck::None && retry_with_lax_check {')],
  demo=PRE + '''
s = SchemaSerializer(cs.union_schema([cs.int_schema(), cs.list_schema(cs.union_schema([m(A, 'a'), m(B, 'b')]))]))
assert s.to_python([B1(x=1)], by_alias=True) == [{'b': 1}], s.to_python([B1(x=1)], by_alias=True)
'''),
 dict(id='c28-tagsub', prop='C28', needs='a tagged union, a value of a subclass of the member named by its tag, and another member before it that is also a superclass', breaks='the member named by the discriminator is not asked again with subclasses allowed, so an earlier member serializes the value',
  edits=[('src/serializers/type_serializers/union.rs', '                        if self.retry_with_lax_check() {\n                            new_extra.check = SerCheck::Lax;', '                        if extra.check == SerCheck::Lax && self.retry_with_lax_check() {\n                            new_extra.check = SerCheck::Lax;')],
  demo=PRE + '''
class B2(B1):
    kind = 'b'
s = SchemaSerializer(cs.tagged_union_schema({'a': m(B, 'a'), 'b': m(B1, 'b')}, discriminator='kind'))
assert s.to_python(B2(x=1), by_alias=True) == {'b': 1}, s.to_python(B2(x=1), by_alias=True)
'''),
 dict(id='c28-partial', prop='C28', needs='members told apart only by their required fields, a value that has some but not all required fields of an earlier member', breaks='an earlier member that lacks required fields of the value is used',
  edits=[('src/serializers/fields.rs', '            && self.required_fields > used_req_fields\n        {\n            let required_fields = self.required_fields;\n\n            Err(PydanticSerializationUnexpectedValue::new(', '            && self.required_fields > used_req_fields\n            && extra.check == SerCheck::Strict\n        {\n            let required_fields = self.required_fields;\n\n            Err(PydanticSerializationUnexpectedValue::new(')],
  demo=PRE + '''
f = lambda a: cs.typed_dict_field(cs.int_schema(), serialization_alias=a)
class I(int): pass
s = SchemaSerializer(cs.union_schema([cs.int_schema(), cs.typed_dict_schema({'x': f('ax'), 'y': f('ay')}), cs.typed_dict_schema({'x': f('bx')})]))
assert s.to_python({'x': I(1)}, by_alias=True) == {'bx': 1}, s.to_python({'x': I(1)}, by_alias=True)
'''),
 dict(id='c28-dclax', prop='C28', needs='a union of dataclasses, a value of a subclass of a subclass of a member', breaks='only direct subclasses of a dataclass member are accepted',
  edits=[('src/serializers/type_serializers/dataclass.rs', 'SerCheck::Lax => value.is_instance(self.class.bind(value.py())),', 'SerCheck::Lax => Ok(value.get_type().getattr(intern!(value.py(), "__bases__"))?.contains(self.class.bind(value.py()))? || value.get_type().is(self.class.bind(value.py()))),')],
  demo=PRE + '''
import dataclasses
@dataclasses.dataclass
class D: x: int
class D1(D): pass
class D2(D1): pass
dc = lambda c, a: cs.dataclass_schema(c, cs.dataclass_args_schema('D', [cs.dataclass_field('x', cs.int_schema(), serialization_alias=a)]), ['x'])
@dataclasses.dataclass
class E: x: int
s = SchemaSerializer(cs.union_schema([dc(E, 'e'), dc(D, 'd')]))
assert s.to_python(D2(1), by_alias=True) == {'d': 1}, s.to_python(D2(1), by_alias=True)
'''),
]
