SEEDS = [
 dict(id='c16-dcguard', prop='C16', needs='a dataclass that contains itself, serialized to JSON by inference', breaks='the guard of an inferred dataclass is released before its fields are serialized: a cyclic one overflows the stack',
      edits=[('src/serializers/infer.rs', """    let extra = guard.state();

    macro_rules! serialize {""", """    let extra: &Extra = if matches!(ob_type, ObType::Dataclass) {
        let unguarded = *guard.state();
        drop(guard);
        unguarded
    } else {
        guard.state()
    };

    macro_rules! serialize {""")],
      demo="""
import subprocess, sys
code = '''
import dataclasses
from pydantic_core import to_json, PydanticSerializationError
@dataclasses.dataclass
class D:
    a: object = None
d = D()
d.a = d
try:
    to_json(d)
except (PydanticSerializationError, ValueError) as e:
    assert 'Circular reference detected' in str(e), e
else:
    raise SystemExit(1)
'''
p = subprocess.run([sys.executable, '-c', code])
raise SystemExit(0 if p.returncode == 0 else 1)
"""),
 dict(id='c16-depthkeep', prop='C16', needs='a failed entry (depth limit) followed by another serialization of the same object in the same call', breaks='the entry of an object refused for the depth limit stays on the stack',
      edits=[('src/recursion_guard.rs', """            if state.incr_depth() {
                // no guard is returned to do this
                state.remove(obj_id, node_id);
                return Err(RecursionError::Depth);""", """            if state.incr_depth() {
                return Err(RecursionError::Depth);""")],
      demo="""
from pydantic_core import SchemaSerializer, core_schema as cs
REF = cs.definition_reference_schema('N')
nodes = [[]]
for _ in range(299):
    nodes.append([nodes[-1]])
bad = []

def w(v, h):
    try:
        h(nodes[-1])
    except ValueError:
        pass
    else:
        raise AssertionError('no limit')
    for i, n in enumerate(nodes[:200]):     # among them the one at which the limit was hit
        try:
            h(n)
        except ValueError:
            bad.append(i)
    return 'done'

s = SchemaSerializer(cs.definitions_schema(cs.any_schema(serialization=cs.wrap_serializer_function_ser_schema(w, schema=REF)), [cs.list_schema(REF, ref='N')]))
assert s.to_python(1) == 'done'
assert not bad, bad
"""),
 dict(id='c16-pydser', prop='C16', needs='a model with its own serializer that contains itself through a list, output as JSON-compatible python', breaks='the serializer of a value with __pydantic_serializer__ starts with an empty recursion state: cycles through it overflow the stack',
      edits=[('src/serializers/infer.rs', """            extra.rec_guard,
            extra.serialize_unknown,
            extra.fallback,
            extra.duck_typing_ser_mode,
            extra.context,
        );
        serializer.serializer.to_python(value, include, exclude, &extra)""", """            &rec_guard,
            extra.serialize_unknown,
            extra.fallback,
            extra.duck_typing_ser_mode,
            extra.context,
        );
        serializer.serializer.to_python(value, include, exclude, &extra)"""),
             ('src/serializers/infer.rs', """        let serializer: PyRef<SchemaSerializer> = py_serializer.extract()?;
        let extra = serializer""", """        let serializer: PyRef<SchemaSerializer> = py_serializer.extract()?;
        let rec_guard = super::extra::SerRecursionState::default();
        let extra = serializer""")],
      demo="""
import subprocess, sys
code = '''
from pydantic_core import to_jsonable_python, SchemaSerializer, PydanticSerializationError, core_schema as cs
class PM:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'
PM.__pydantic_serializer__ = SchemaSerializer(cs.model_schema(PM, cs.model_fields_schema({'a': cs.model_field(cs.any_schema())})))
m = PM()
m.__pydantic_fields_set__, m.__pydantic_extra__, m.__pydantic_private__ = {'a'}, None, None
m.a = [m]
try:
    to_jsonable_python([m])
except (PydanticSerializationError, ValueError) as e:
    assert 'Circular reference detected' in str(e), e
else:
    raise SystemExit(1)
'''
p = subprocess.run([sys.executable, '-c', code])
raise SystemExit(0 if p.returncode == 0 else 1)
"""),
]
