"""C12: model fields"""
from flds import *


def main(R):
    R.rules.append('random field layouts with aliases and alias paths that collide with names, extra ignore/allow/forbid from schema and config, extras schemas, by_alias/by_name from config and call, loc_by_alias, '
                   'inputs as dict, Mapping, JSON and attributes; result dict, extras, fields set, errors with locations and the validated values compared with the oracle in flds.py')
    drive(R, False, False, 1500 if not THOROUGH else 20000)
    drive(R, False, True, 1000 if not THOROUGH else 20000)
    # validate_strings: unreadable values are errors of their field
    v = SchemaValidator(cs.model_fields_schema({'a': cs.model_field(VAL), 'b': cs.model_field(VAL)}))
    for x, w in [({'a': '1', 'b': '2'}, OK(({'a': 2, 'b': 3}, None, {'a', 'b'}))), ({'a': 1, 'b': '2'}, ERR(('string_type', ('a',)))), ({'a': 'x', 'b': 2}, ERR(('bad', ('a',)), ('string_type', ('b',)))), ({'b': '1'}, ERR(('missing', ('a',))))]:
        R.same(f'strings {x}', run(v.validate_strings, x), w)


guard(Recorder('C12'), main)
