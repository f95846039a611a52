SEEDS = [
 dict(id='c22-kwcount', prop='C22', needs='a call that gives one parameter positionally and as many keyword arguments as there are parameters, one of them unknown', breaks='the unknown keyword argument is neither reported nor bound to **kwargs',
  edits=[('src/validators/arguments.rs', 'if kwargs.len() > used_kwargs.len()', 'if kwargs.len() > self.parameters.len()')],
  demo='''
from pydantic_core import *
from pydantic_core import core_schema as cs
v = SchemaValidator(cs.arguments_schema([cs.arguments_parameter('a', cs.int_schema()), cs.arguments_parameter('b', cs.int_schema())]))
try:
    r = v.validate_python(ArgsKwargs((1,), {'b': 2, 'c': 3}))
except ValidationError as e:
    assert e.errors()[0]['type'] == 'unexpected_keyword_argument', e
else:
    raise SystemExit(f'accepted {r}')
'''),
 dict(id='c22-tdskip', prop='C22', needs='an unpacked typed dict for **kwargs, an invalid named argument and an invalid further keyword argument', breaks='the error of the further keyword argument is not reported',
  edits=[('src/validators/arguments.rs', 'if self.var_kwargs_mode == VarKwargsMode::UnpackedTypedDict {', 'if self.var_kwargs_mode == VarKwargsMode::UnpackedTypedDict && errors.is_empty() {')],
  demo='''
from pydantic_core import *
from pydantic_core import core_schema as cs
v = SchemaValidator(cs.arguments_schema([cs.arguments_parameter('a', cs.int_schema())], var_kwargs_mode='unpacked-typed-dict', var_kwargs_schema=cs.typed_dict_schema({'t': cs.typed_dict_field(cs.int_schema())})))
try:
    v.validate_python(ArgsKwargs(('x',), {'t': 'y'}))
except ValidationError as e:
    assert [d['loc'] for d in e.errors()] == [(0,), ('t',)], e
'''),
 dict(id='c22-dcdup', prop='C22', needs='a dataclass that allows extras, a field given positionally and again by keyword', breaks='the duplicate is also taken for an unexpected argument',
  edits=[('src/validators/dataclass.rs', '                    used_keys.insert(lookup_path.first_key());\n                    kw_value', '                    if pos_value.is_none() {\n                        used_keys.insert(lookup_path.first_key());\n                    }\n                    kw_value')],
  demo='''
from pydantic_core import *
from pydantic_core import core_schema as cs
v = SchemaValidator(cs.dataclass_args_schema('D', [cs.dataclass_field('a', cs.int_schema(), kw_only=False)], extra_behavior='forbid'))
try:
    v.validate_python(ArgsKwargs((1,), {'a': 2}))
except ValidationError as e:
    assert [d['type'] for d in e.errors()] == ['multiple_argument_values'], e
'''),
]
