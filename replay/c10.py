"""C10: defaults. The oracle composes the inner schema (validated alone) with the declared default handling."""
from h import *
import itertools, copy
from pydantic_core import PydanticUseDefault


class Box:
    """unhashable mutable default"""
    __hash__ = None

    def __init__(self):
        self.items = []

    def __eq__(self, o):
        return isinstance(o, Box) and self.items == o.items


class M:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'


def inner_val(x):
    """oracle of the inner schema: ints pass (strings of digits converted), 'use' asks for the default, everything else fails"""
    if x == 'use':
        return 'use', None
    if x == 'omit':
        return 'omit', None
    if type(x) is int:
        return 'ok', x
    if isinstance(x, str) and x.isdigit():
        return 'ok', int(x)
    if isinstance(x, (list, dict, Box)):
        return 'ok', x
    return 'err', 'inner'


CALLS = []


def inner_fn(x):
    CALLS.append(x)
    k, v = inner_val(x)
    if k == 'ok':
        return v
    if k == 'use':
        raise PydanticUseDefault()
    if k == 'omit':
        raise PydanticOmit()
    raise PydanticCustomError('inner', 'inner')


INNER = cs.no_info_plain_validator_function(inner_fn)
UNSET = object()


def main(R):
    rng = R.rng
    R.rules.append('default kinds (none, hashable, list, dict, nested, object, factory, factory with data) x on_error x validate_default (schema/config) x inputs, alone and as field of typed dict, model, dataclass, arguments, tuple position and list item; '
                   'results, calls of the inner schema and identity of the default compared with the declared rule')
    defs = [('none', {}), ('int', {'default': 5}), ('digit', {'default': '7'}), ('bad', {'default': 'bad'}), ('list', {'default': [1, [2]]}), ('dict', {'default': {'a': []}}), ('box', {'default': Box()}), ('None', {'default': None}),
            ('use', {'default': 'use'}), ('factory', {'default_factory': lambda: [1, [2]]}), ('fdata', {'default_factory': lambda d: sorted(d) if isinstance(d, dict) else [], 'default_factory_takes_data': True}),
            ('fbad', {'default_factory': lambda: 'bad'}), ('fraise', {'default_factory': lambda: 1 / 0}), ('tuple', {'default': ([],)})]
    inputs = [1, '3', 'bad', 'use', 'omit', None, [1], PydanticUndefined]
    for (dn, d), oe, vd, cvd in itertools.product(defs, (None, 'raise', 'default', 'omit'), (None, False, True), (None, False, True)):
        kw = dict(d)
        if oe:
            kw['on_error'] = oe
        if vd is not None:
            kw['validate_default'] = vd
        cfg = {} if cvd is None else {'validate_default': cvd}
        eff = vd if vd is not None else bool(cvd)
        sch = cs.with_default_schema(INNER, **kw)
        label0 = f'default={dn} on_error={oe} validate_default={vd}/config {cvd}'
        if oe == 'default' and not d:
            R.check(run(SchemaValidator, sch, cfg).kind == 'exc', label0 + ' needs a default', got='built', want='SchemaError')
            continue
        v = SchemaValidator(sch, cfg)
        lv = SchemaValidator(cs.list_schema(sch), cfg)
        # nested positions
        td = SchemaValidator(cs.typed_dict_schema({'b': cs.typed_dict_field(cs.int_schema()), 'f': cs.typed_dict_field(sch, required=False)}, config=cfg))
        mf = SchemaValidator(cs.model_schema(M, cs.model_fields_schema({'b': cs.model_field(cs.int_schema()), 'f': cs.model_field(sch)}), config=cfg))
        ar = None if oe == 'omit' else SchemaValidator(cs.arguments_schema([cs.arguments_parameter('b', cs.int_schema()), cs.arguments_parameter('f', sch)]), cfg)
        tp = SchemaValidator(cs.tuple_schema([cs.int_schema(), sch]), cfg)
        for x in inputs:
            label = f'{label0} input={x!r}'
            R.mark(label)
            CALLS.clear()
            got = run(v.validate_python, x)
            calls = list(CALLS)
            k, val, wc = oracle(d, oe, eff, x, None)
            judge(R, label, got, k, val, top=True)
            R.check(len(calls) == wc, label + ' inner calls', got=calls, want=wc)
            if x is not PydanticUndefined:
                CALLS.clear()
                got = run(lv.validate_python, [4, x, 6])
                if k == 'ok':
                    R.same(label + ' in list', got.v if got.ok else got, [4, val, 6])
                elif k == 'omit':
                    R.same(label + ' in list', got, OK([4, 6]))
                elif k == 'err':
                    R.same(label + ' in list', got, ERR((val, (1,))))
                got = run(mf.validate_python, {'b': 1, 'f': x})
                k, val, wc = oracle(d, oe, eff, x, {'b': 1})
                if k == 'ok':
                    R.check(got.ok and got.v.__dict__ == {'b': 1, 'f': val} and got.v.__pydantic_fields_set__ == {'b', 'f'}, label + ' in model', got=got if not got.ok else (got.v.__dict__, got.v.__pydantic_fields_set__), want=val)
                elif k == 'omit':
                    R.check(got.ok and got.v.__dict__ == {'b': 1} and got.v.__pydantic_fields_set__ == {'b'}, label + ' in model', got=got if not got.ok else got.v.__dict__, want='omitted')
                elif k == 'err':
                    R.same(label + ' in model', got, ERR((val, ('f',))))
        # absent
        CALLS.clear()
        data = {'b': 1}
        k, val, wc = default_of(d, oe, eff, data)
        got = run(mf.validate_python, {'b': 1})
        lab = label0 + ' absent'
        CALLS.clear()
        gtd = run(td.validate_python, {'b': 1})
        if k == 'nodefault':
            R.same(lab + ' in model', got, ERR(('missing', ('f',))))
            R.same(lab + ' in typed dict', gtd, OK({'b': 1}))
        elif k == 'ok':
            R.check(gtd.ok and gtd.v == {'b': 1, 'f': val}, lab + ' in typed dict', got=gtd, want=val)
            R.check(got.ok and got.v.__dict__ == {'b': 1, 'f': val} and got.v.__pydantic_fields_set__ == {'b'}, lab + ' in model', got=got if not got.ok else (got.v.__dict__, got.v.__pydantic_fields_set__), want=val, nt=lab)
            got = run(ar.validate_python, __import__('pydantic_core').ArgsKwargs((1,))) if ar else None
            R.check(got is None or dn == 'fdata' or got.ok and (got.v[0] == (1, val) or got.v[0] == (1,) and got.v[1] == {'f': val}), lab + ' in arguments', got=got, want=val)
            got = run(tp.validate_python, (1,))
            if not (dn == 'fdata'):
                R.same(lab + ' in tuple', got, OK((1, val))) if not isinstance(val, Box) else R.check(got.ok and got.v == (1, val), lab + ' in tuple', got=got, want=val)
        elif k == 'err':
            R.same(lab + ' in typed dict', gtd, ERR((val, ('f',))))
            R.same(lab + ' in model', got, ERR((val, ('f',))))
            R.same(lab + ' in tuple', run(tp.validate_python, (1,)), ERR((val, (1,))))
        elif k == 'omit':
            R.same(lab + ' in typed dict', gtd, OK({'b': 1}))
            R.check(got.ok and got.v.__dict__ == {'b': 1}, lab + ' in model', got=got if not got.ok else got.v.__dict__, want='omitted')
        elif k == 'exc':
            R.check(got.kind == 'exc' and val in got.v, lab + ' in model', got=got, want=val)
    # freshness
    for dn, d in defs:
        if dn in ('none', 'fraise', 'fdata'):
            continue
        for vd in (False, True):
            v = SchemaValidator(cs.with_default_schema(cs.any_schema(), validate_default=vd, **d))
            a, b = v.validate_python(PydanticUndefined), v.validate_python(PydanticUndefined)
            mv = SchemaValidator(cs.typed_dict_schema({'f': cs.typed_dict_field(cs.with_default_schema(cs.any_schema(), validate_default=vd, **d))}))
            c, e = mv.validate_python({})['f'], mv.validate_python({})['f']
            if dn in ('list', 'dict', 'box', 'factory', 'tuple'):
                R.check(len({id(a), id(b), id(c), id(e)}) == 4, f'fresh default {dn} validate={vd}', got='shared', want='four different objects')
                if 'default' in d:
                    R.check(a is not d['default'] and a == d['default'], f'fresh default {dn} equals the declared one', got=a, want=d['default'])
                deep(R, dn, a, b)
            else:
                R.check(a == b, f'default {dn} stable', got=a, want=b)
    # the data seen by the factory: the fields validated before, under their names
    seen = []

    def fac(d):
        seen.append(dict(d))
        return len(d)
    F = lambda: cs.with_default_schema(cs.int_schema(), default_factory=fac, default_factory_takes_data=True)
    for mk in ('model', 'td', 'dc'):
        if mk == 'model':
            v = SchemaValidator(cs.model_fields_schema({'a': cs.model_field(cs.int_schema()), 'b': cs.model_field(F()), 'c': cs.model_field(F())}))
        elif mk == 'td':
            v = SchemaValidator(cs.typed_dict_schema({'a': cs.typed_dict_field(cs.int_schema()), 'b': cs.typed_dict_field(F()), 'c': cs.typed_dict_field(F())}))
        else:
            v = SchemaValidator(cs.dataclass_args_schema('D', [cs.dataclass_field('a', cs.int_schema()), cs.dataclass_field('b', F()), cs.dataclass_field('c', F())]))
        for x, w in [({'a': '1'}, [{'a': 1}, {'a': 1, 'b': 1}]), ({'a': 1, 'b': 9}, [{'a': 1, 'b': 9}]), ({'a': 1, 'c': 3}, [{'a': 1}]), ({'a': 1, 'b': 2, 'c': 3}, [])]:
            seen.clear()
            r = run(v.validate_python, x)
            R.check(r.ok and seen == w, f'factory data {mk} {x}', got=(r, list(seen)), want=w)


def deep(R, dn, a, b):
    if dn in ('list', 'factory'):
        a[1].append(9)
        R.same(f'deep copy {dn}', b, [1, [2]])
    elif dn == 'dict':
        a['a'].append(9)
        R.same(f'deep copy {dn}', b, {'a': []})
    elif dn == 'box':
        a.items.append(9)
        R.check(b.items == [], f'deep copy {dn}', got=b.items, want=[])
    elif dn == 'tuple':
        a[0].append(9)
        R.same(f'deep copy {dn}', b, ([],))


def raw_default(d, data):
    if 'default' in d:
        return 'ok', copy.deepcopy(d['default'])
    if 'default_factory' in d:
        try:
            return 'ok', d['default_factory'](data if data is not None else {}) if d.get('default_factory_takes_data') else d['default_factory']()
        except ZeroDivisionError:
            return 'exc', 'ZeroDivisionError'
    return 'nodefault', None


def default_of(d, oe, vd, data):
    """-> (kind, value, calls of the inner schema)"""
    k, v = raw_default(d, data)
    if k != 'ok' or not vd:
        return k, v, 0
    k2, v2 = inner_val(v)
    if k2 == 'ok':
        return 'ok', v2, 1
    if k2 == 'use':
        return 'exc', 'UseDefault', 1
    if oe == 'omit':
        return 'omit', None, 1
    return ('omit', None, 1) if k2 == 'omit' else ('err', v2, 1)


def oracle(d, oe, vd, x, data):
    if x is PydanticUndefined and d:
        return default_of(d, oe, vd, data)
    k, v = inner_val(x)
    if k == 'ok':
        return 'ok', v, 1
    if k == 'use' or oe == 'default':
        k2, v2, n = default_of(d, oe, vd, data)
        if k2 == 'nodefault':
            return 'exc', 'UseDefault', 1 + n
        return k2, v2, 1 + n
    if oe == 'omit':
        return 'omit', None, 1
    return ('omit', None, 1) if k == 'omit' else ('err', v, 1)


def judge(R, label, got, k, val, top=False):
    if k == 'ok':
        R.check(got.ok and (got.v == val and type(got.v) is type(val)), label, got=got, want=val, nt=label)
    elif k == 'err':
        R.same(label, got, ERR((val, ())))
    elif k == 'omit':
        R.check(got.kind == 'exc' and 'Uncaught Omit' in got.v, label, got=got, want='Uncaught Omit')
    elif k == 'exc':
        R.check(got.kind == 'exc' and val in got.v, label, got=got, want=val)


guard(Recorder('C10'), main)
