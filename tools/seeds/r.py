SEEDS = [
 dict(id='c29-b64plus', prop='C29', needs='standard base64 text that holds a + but no /', breaks='such text is rejected although it is base64',
  edits=[('src/validators/config.rs', "DecodeError::InvalidByte(_, b'/' | b'+') =>", "DecodeError::InvalidByte(n, b'/' | b'+') if s.as_bytes()[n..].contains(&b'/') =>")],
  demo='''
from pydantic_core import SchemaValidator, core_schema as cs
v = SchemaValidator(cs.bytes_schema(), {'val_json_bytes': 'base64'})
assert v.validate_json('"//++"') == b'\\xff\\xff\\xbe'
assert v.validate_json('"+/+/"') == b'\\xfb\\xff\\xbf'
assert v.validate_json('"ab+c"') == b'i\\xbf\\x9c'
'''),
 dict(id='c29-hostloss', prop='C29', needs='a MultiHostUrl object of several hosts validated by a schema whose default has to be filled in', breaks='all hosts but the last are lost',
  edits=[('src/validators/url.rs', 'EitherMultiHostUrl::Rust(py_multi_url.get().clone())', 'EitherMultiHostUrl::Rust(PyMultiHostUrl::new(py_multi_url.get().lib_url().clone(), None))')],
  demo='''
from pydantic_core import SchemaValidator, MultiHostUrl, core_schema as cs
u = MultiHostUrl('redis://a:1,b:2')
v = SchemaValidator(cs.multi_host_url_schema(default_path='/0'))
assert str(v.validate_python('redis://a:1,b:2')) == 'redis://a:1,b:2/0'
assert str(v.validate_python(u)) == 'redis://a:1,b:2/0', v.validate_python(u)
'''),
 dict(id='c29-lenobj', prop='C29', needs='a MultiHostUrl object of several hosts longer than max_length whose last host alone is short enough', breaks='max_length is compared with the text of the last host only',
  edits=[('src/validators/url.rs', 'self.check_length(input, || multi_url.get().__str__().len())?', 'self.check_length(input, || multi_url.get().lib_url().as_str().len())?')],
  demo='''
from pydantic_core import SchemaValidator, MultiHostUrl, ValidationError, core_schema as cs
u = MultiHostUrl('redis://a.example:1,b:2/0')
v = SchemaValidator(cs.multi_host_url_schema(max_length=20))
try:
    v.validate_python(u)
except ValidationError as e:
    assert e.errors()[0]['type'] == 'url_too_long'
else:
    raise AssertionError('too long a URL accepted')
'''),
 dict(id='c29-portzero', prop='C29', needs='a URL with a default host and a default port but neither host nor port', breaks='the default port is not filled in when the host was defaulted',
  edits=[('src/validators/url.rs', '''    if !url.url().has_host() {
        if let Some(default_host) = default_host {
            url.url_mut().set_host(Some(default_host)).map_err(map_parse_err)?;''', '''    let hostless = !url.url().has_host() && !url.url().path().is_empty();
    if !url.url().has_host() {
        if let Some(default_host) = default_host {
            url.url_mut().set_host(Some(default_host)).map_err(map_parse_err)?;'''),
         ('src/validators/url.rs', 'if url.url().port().is_none() {\n            url', 'if url.url().port().is_none() && !hostless {\n            url')],
  demo='''
from pydantic_core import SchemaValidator, core_schema as cs
v = SchemaValidator(cs.url_schema(default_host='h', default_port=6379))
assert v.validate_python('redis://').port == 6379
assert v.validate_python('redis:///0').port == 6379
'''),
]
