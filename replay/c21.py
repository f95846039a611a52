"""C21: typed dicts"""
from flds import *


def main(R):
    R.rules.append('random field layouts (required, optional, default; total), aliases and alias paths that collide with names, extra ignore/allow/forbid from schema and config, extras schema, by_alias/by_name from config and call, loc_by_alias, '
                   'inputs as dict, Mapping and JSON; result dict, errors with locations and the validated values compared with the oracle in flds.py')
    drive(R, True, False, 1500 if not THOROUGH else 20000)
    drive(R, True, True, 1000 if not THOROUGH else 20000)
    for req in (True, False):
        v = SchemaValidator(cs.typed_dict_schema({'a': cs.typed_dict_field(VAL, required=req), 'b': cs.typed_dict_field(VAL)}))
        for x, w in [({'a': '1', 'b': '2'}, OK({'a': 2, 'b': 3})), ({'a': 1, 'b': '2'}, ERR(('string_type', ('a',)))), ({'a': 'x', 'b': 2}, ERR(('bad', ('a',)), ('string_type', ('b',))))]:
            R.same(f'strings required={req} {x}', run(v.validate_strings, x), w)
    # strictness and other inputs
    v = SchemaValidator(cs.typed_dict_schema({'a': cs.typed_dict_field(VAL)}))
    for x in ([], 1, 'a', None, [('a', 1)], {1}, Obj(a=1)):
        R.same(f'not a dict {x!r}', run(v.validate_python, x), ERR(('dict_type', ())))
    R.same('strict mapping', run(v.validate_python, Mp({'a': 1}), strict=True), ERR(('dict_type', ())))
    R.same('strict dict', run(v.validate_python, {'a': 1}, strict=True), OK({'a': 2}))


guard(Recorder('C21'), main)
