"""C17 driver: models, dataclasses and typed dicts x fields, extras, computed fields x every combination of options, against a direct reading of the rules"""
import json as js
from dataclasses import dataclass
from h import *


def cls(computed):
    ns = {'__slots__': ('__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__')}
    for name, (value, _) in computed.items():
        ns[name] = property(lambda self, v=value: v)
    return type('M', (), ns)


FN = ['a', 'b', 'c']
VALS = [None, 0, 1, 'x', '', False, [None, 1], {'k': None}]


def main(R):
    R.rules.append('every field, extra and computed field is written exactly when no rule drops it, in order, under its alias exactly when aliases are in effect')
    rng = R.rng
    ident = lambda v: v
    while not R.out_of_time() and R.n < (400000 if THOROUGH else 150000):
        kind = rng.choice(['model', 'model', 'td', 'dc'])
        extras = rng.random() < 0.5 and kind != 'dc'
        xser = extras and rng.random() < 0.4
        cfg = {}
        if rng.random() < 0.4:
            cfg['serialize_by_alias'] = rng.random() < 0.5
        fields = {}
        for f in FN:
            if rng.random() < 0.8 or kind == 'dc':
                fields[f] = dict(alias=rng.choice([None, f.upper(), 'al_' + f]), excl=rng.random() < 0.15, default=rng.choice(VALS) if rng.random() < 0.5 else GONE, fac=rng.random() < 0.5, req=kind != 'td' or rng.random() < 0.5)
        computed = {n: (rng.choice(VALS), rng.choice([None, n.upper()])) for n in ('p', 'q') if rng.random() < 0.4} if kind != 'td' else {}

        def inner(d):
            if d['default'] is GONE:
                return cs.any_schema()
            if d['fac']:
                return cs.with_default_schema(cs.any_schema(), default_factory=lambda v=d['default']: v)
            return cs.with_default_schema(cs.any_schema(), default=d['default'])
        cfs = [cs.computed_field(n, cs.any_schema(), alias=a) for n, (_, a) in computed.items()]
        xs = cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(lambda v: ['x', v])) if xser else None
        kw = {'extras_schema': xs} if xser else {}
        if kind == 'td':
            s = cs.typed_dict_schema({f: cs.typed_dict_field(inner(d), required=d['req'], serialization_alias=d['alias'], serialization_exclude=d['excl'] or None) for f, d in fields.items()}, extra_behavior='allow' if extras else 'ignore', config=cfg or None, **kw)
        elif kind == 'model':
            K = cls(computed)
            s = cs.model_schema(K, cs.model_fields_schema({f: cs.model_field(inner(d), serialization_alias=d['alias'], serialization_exclude=d['excl'] or None) for f, d in fields.items()}, extra_behavior='allow' if extras else 'ignore', computed_fields=cfs, **kw), extra_behavior='allow' if extras else 'ignore', config=cfg or None)
        else:
            ns = {n: property(lambda self, v=v: v) for n, (v, _) in computed.items()}
            K = dataclass(type('D', (), {'__annotations__': {f: object for f in fields}, **ns}))
            s = cs.dataclass_schema(K, cs.dataclass_args_schema('D', [cs.dataclass_field(f, inner(d), serialization_alias=d['alias'], serialization_exclude=d['excl'] or None) for f, d in fields.items()], computed_fields=cfs), list(fields), config=cfg or None)
        try:
            ser = SchemaSerializer(s)
        except Exception as e:
            R.check(False, f'building {s}'[:200], got=repr(e))
            continue
        for _ in range(8):
            vals = {f: (d['default'] if d['default'] is not GONE and rng.random() < 0.5 else rng.choice(VALS)) for f, d in fields.items() if kind != 'td' or rng.random() < 0.8}
            ks = list(vals)
            if kind != 'dc':
                rng.shuffle(ks)
            vals = {k: vals[k] for k in ks}
            ex = {k: rng.choice(VALS) for k in ('y', 'x') if rng.random() < 0.5} if extras else {}
            unset = {f for f in vals if rng.random() < 0.4}
            if kind == 'td':
                obj = {**vals, **ex}
                order = list(obj.items())
            elif kind == 'dc':
                obj = K.__new__(K)
                obj.__dict__.update(vals)
                order = list(vals.items())
            else:
                obj = K()
                obj.__dict__.update(vals)
                obj.__pydantic_extra__ = ex if extras else None
                obj.__pydantic_fields_set__ = {f for f in vals if f not in unset} | set(ex)
                obj.__pydantic_private__ = None
                order = list(vals.items()) + list(ex.items())
            o = {k: True for k in ('exclude_none', 'exclude_defaults', 'exclude_unset', 'round_trip') if rng.random() < 0.3}
            if rng.random() < 0.5:
                o['by_alias'] = rng.random() < 0.5
            names = FN + ['x', 'y', 'p', 'q']
            for w in ('include', 'exclude'):
                if rng.random() < 0.25:
                    o[w] = set(rng.sample(names, rng.randint(0, 5)))
            by_alias = o.get('by_alias', cfg.get('serialize_by_alias', False))

            def kept(k, v):
                if 'include' in o and k not in o['include'] or k in o.get('exclude', ()):
                    return False
                return not (o.get('exclude_none') and v is None)
            want = {}
            for k, v in order:
                if not kept(k, v):
                    continue
                if k in fields:
                    d = fields[k]
                    if d['excl'] or kind == 'model' and o.get('exclude_unset') and k in unset:
                        continue
                    if o.get('exclude_defaults') and d['default'] is not GONE and v == d['default']:
                        continue
                    want[d['alias'] if by_alias and d['alias'] else k] = v
                else:
                    want[k] = ['x', v] if xser else v
            if not o.get('round_trip'):
                for n, (v, a) in computed.items():
                    if kept(n, v):
                        want[a if by_alias and a else n] = v
            code = f'SchemaSerializer({s!r}).to_python(<{kind} {vals} extra {ex} unset {sorted(unset)}>, **{o})'
            nt = (kind, extras, xser, bool(computed), by_alias, tuple(sorted(k for k in o)))
            for label, f in (('python', lambda: ser.to_python(obj, **o)), ('json-mode', lambda: ser.to_python(obj, mode='json', **o)), ('json', lambda: js.loads(ser.to_json(obj, **o)))):
                if label == 'json' and not o.get('round_trip') and False:
                    continue
                g = run(f)
                R.check(g.ok and list(g.v.items()) == list(want.items()) and [type(v) for v in g.v.values()] == [type(v) for v in want.values()], f'{label} {kind}', code, got=g, want=want, nt=nt)
    # missing and unexpected fields are reported where the value is checked, never replaced
    for kind in ('model', 'td'):
        for excl in ((), ('a',), ('b',), ('a', 'b')):
            for opt in ((), ('a',), ('b',), ('a', 'c')) if kind == 'td' else ((),):
                for n in range(0, 4):
                    for have in range(0, 2 ** 3):
                        for none in (False, True):
                            fs = FN[:n]
                            present = [f for i, f in enumerate(FN) if have >> i & 1]
                            data = {f: None if none else 1 for f in present}
                            if kind == 'model':
                                K = cls({})
                                a = cs.model_schema(K, cs.model_fields_schema({f: cs.model_field(cs.any_schema(), serialization_exclude=f in excl or None) for f in fs}))
                                obj = K()
                                obj.__dict__.update(data)
                                obj.__pydantic_fields_set__ = set(present)
                                obj.__pydantic_extra__ = obj.__pydantic_private__ = None
                            else:
                                a = cs.typed_dict_schema({f: cs.typed_dict_field(cs.any_schema(), serialization_exclude=f in excl or None, required=f not in opt) for f in fs})
                                obj = data
                            marker = cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(lambda v: 'second'))
                            ser = SchemaSerializer(cs.union_schema([a, marker]))
                            g = run(ser.to_python, obj)
                            missing = [f for f in fs if f not in present and f not in opt]
                            extra = [f for f in present if f not in fs]
                            want = 'second' if missing or extra else {f: q for f, q in data.items() if f not in excl}
                            R.check(g.ok and g.v == want, f'union member {kind}', f'union of [{kind} {fs} excluded {excl} not required {opt}, marker] on {data}', got=g, want=want, nt=('miss', kind, bool(missing), bool(extra), excl, opt, none))


GONE = object()
guard(Recorder('C17'), main)
