SEEDS = [
 dict(id='c06-setrem', prop='C06', needs='more than sixteen recursive containers inside each other, then a sibling holding the same object again', breaks='entries of finished validations stay in the guard once it became small again, shared objects are reported as cycles',
      edits=[('src/recursion_guard.rs', '                set.remove(v);', '                if set.len() != ARRAY_SIZE {\n                    set.remove(v);\n                }')],
      demo="""
from pydantic_core import SchemaValidator, core_schema as cs
r = cs.definition_reference_schema('N')
v = SchemaValidator(cs.definitions_schema(r, [cs.list_schema(r, ref='N')]))
x = []
for _ in range(30):
    x = [x]
d = x
for _ in range(12):
    d = d[0]
for k in range(10):
    v.validate_python([x, d])
    d = d[0]
"""),
 dict(id='c06-skip', prop='C06', needs='a cycle through more than sixteen containers which leads back to the outermost one', breaks='the outermost object is forgotten when the guard grows, its cycle is found only a round later',
      edits=[('src/recursion_guard.rs', 'for existing in data.iter() {', 'for existing in data.iter().rev().take(ARRAY_SIZE - 1) {')],
      demo="""
from pydantic_core import SchemaValidator, ValidationError, core_schema as cs
r = cs.definition_reference_schema('N')
v = SchemaValidator(cs.definitions_schema(r, [cs.list_schema(r, ref='N')]))
top = []
x = top
for _ in range(19):
    x.append([])
    x = x[0]
x.append(top)
try:
    v.validate_python(top)
    raise SystemExit(1)
except ValidationError as e:
    assert len(e.errors()[0]['loc']) == 20, len(e.errors()[0]['loc'])
"""),
]
