"""C15 driver: nested values x nested include / exclude x schema filters, against an independent reading of the filter language"""
import json as js
from dataclasses import dataclass
from h import *

GONE = object()


class M:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'


@dataclass
class D:
    a: object = None
    b: object = None
    c: object = None


def whole(v):
    return v is ... or v is True


def as_map(v):
    return dict(v) if isinstance(v, dict) else {k: ... for k in v}


def merge(own, all_):
    """the entry of the key itself goes before the entry of __all__; below that the requests are combined"""
    if own is GONE:
        return all_
    if all_ is GONE or whole(own) or whole(all_):
        return own
    a, b = as_map(own), as_map(all_)
    out = {k: merge(a.get(k, GONE), b.get(k, GONE)) for k in list(a) + [k for k in b if k not in a]}
    return out


def entry(filt, key, n):
    """what a filter says about the key: GONE, ... or the nested filter"""
    if filt is None:
        return GONE

    def norm(k):
        return k + n if n is not None and isinstance(k, int) and not isinstance(k, bool) and k < 0 else k
    if isinstance(filt, dict):
        own = GONE
        for k, v in filt.items():
            if norm(k) == key:
                own = v
        v = merge(own, filt.get('__all__', GONE))
        return ... if v is not GONE and whole(v) else v
    return ... if any(norm(k) == key or k == '__all__' for k in filt) else GONE


def decide(key, inc, exc, si, se, n):
    """None: dropped; else the nested include and exclude"""
    e = entry(exc, key, n)
    if e is ...:
        return None
    ne = None if e is GONE else e
    if inc is not None:
        i = entry(inc, key, n)
        if i is not GONE:
            return (None if i is ... else i, ne)
        if not (si is not None and key in si):
            return None
    if (si is not None and key not in si) or (se is not None and key in se):
        return None
    return (None, ne)


# shapes: ('any',), ('list', item, si, se), ('tuple', items, si, se), ('vtuple', item, si, se), ('dict', value, si, se), ('td'|'model'|'dc', {field: (shape, excluded)}, extra)
def schema(s):
    k = s[0]
    if k == 'any':
        return cs.any_schema()
    ser = None
    if k in ('list', 'tuple', 'vtuple', 'dict') and (s[2] is not None or s[3] is not None):
        ser = (cs.filter_dict_schema if k == 'dict' else cs.filter_seq_schema)(include=s[2], exclude=s[3])
    if k == 'list':
        return cs.list_schema(schema(s[1]), serialization=ser)
    if k == 'tuple':
        return cs.tuple_schema([schema(x) for x in s[1]], serialization=ser)
    if k == 'vtuple':
        return cs.tuple_schema([schema(s[1])], variadic_item_index=0, serialization=ser)
    if k == 'dict':
        return cs.dict_schema(cs.any_schema(), schema(s[1]), serialization=ser)
    if k == 'td':
        return cs.typed_dict_schema({f: cs.typed_dict_field(schema(x), required=False, serialization_exclude=e or None) for f, (x, e) in s[1].items()}, extra_behavior='allow' if s[2] else 'ignore')
    if k == 'model':
        return cs.model_schema(M, cs.model_fields_schema({f: cs.model_field(schema(x), serialization_exclude=e or None) for f, (x, e) in s[1].items()}, extra_behavior='allow' if s[2] else 'ignore'), extra_behavior='allow' if s[2] else 'ignore')
    if k == 'dc':
        return cs.dataclass_schema(D, cs.dataclass_args_schema('D', [cs.dataclass_field(f, schema(x), serialization_exclude=e or None) for f, (x, e) in s[1].items()]), ['a', 'b', 'c'])


def expect(s, v, inc, exc, mode):
    k = s[0]
    json = mode != 'python'
    if k == 'any':
        if isinstance(v, (list, tuple)):
            out = [expect(s, x, *d, mode) for i, x in enumerate(v) if (d := decide(i, inc, exc, None, None, len(v))) is not None]
            return out if json or isinstance(v, list) else tuple(out)
        if isinstance(v, dict):
            return {(str(q) if json else q): expect(s, x, *d, mode) for q, x in v.items() if (d := decide(q, inc, exc, None, None, None)) is not None}
        return v
    if k in ('list', 'tuple', 'vtuple'):
        sub = lambda i: s[1][i] if k == 'tuple' else s[1]
        out = [expect(sub(i), x, *d, mode) for i, x in enumerate(v) if (d := decide(i, inc, exc, s[2], s[3], len(v))) is not None]
        return out if json or k == 'list' else tuple(out)
    if k == 'dict':
        return {(str(q) if json else q): expect(s[1], x, *d, mode) for q, x in v.items() if (d := decide(q, inc, exc, s[2], s[3], None)) is not None}
    out = {}
    fields = dict(v.__dict__) if k != 'td' else dict(v)
    if k == 'model' and s[2]:
        fields.update(v.__pydantic_extra__ or {})
    for q, x in fields.items():
        d = decide(q, inc, exc, None, None, None)
        if d is None:
            continue
        if q in s[1]:
            if not s[1][q][1]:
                out[q] = expect(s[1][q][0], x, *d, mode)
        elif s[2]:
            out[q] = expect(('any',), x, *d, mode)
    return out


def main(R):
    R.rules.append('an item is written exactly when it is not excluded and included (or kept by the schema filter), with nested filters applied inside it, in python mode, JSON mode and JSON')
    rng = R.rng
    FN = ['a', 'b', 'c']

    def shape(d):
        k = rng.choice(['any', 'any', 'list', 'tuple', 'vtuple', 'dict', 'td', 'model', 'dc']) if d else 'any'
        if k == 'any':
            return ('any',)

        def sf(keys):
            return None if rng.random() < 0.6 else {q for q in keys if rng.random() < 0.5}
        if k in ('list', 'vtuple'):
            return (k, shape(d - 1), sf(range(4)), sf(range(4)))
        if k == 'tuple':
            return (k, [shape(d - 1) for _ in range(rng.randint(0, 3))], sf(range(3)), sf(range(3)))
        if k == 'dict':
            return (k, shape(d - 1), sf(['a', 'b', 1, 2]), sf(['a', 'b', 1, 2]))
        return (k, {f: (shape(d - 1), rng.random() < 0.15) for f in FN if k == 'dc' or rng.random() < 0.8}, k != 'dc' and rng.random() < 0.5)

    def value(s, d):
        k = s[0]
        if k == 'any':
            c = rng.random()
            if d and c < 0.25:
                return [value(s, d - 1) for _ in range(rng.randint(0, 3))]
            if d and c < 0.35:
                return tuple(value(s, d - 1) for _ in range(rng.randint(0, 3)))
            if d and c < 0.65:
                return {q: value(s, d - 1) for q in rng.sample(['a', 'b', 'c', 1, 2], rng.randint(0, 3))}
            return rng.choice([1, 'x', None, 2.5, True])
        if k in ('list', 'vtuple'):
            x = [value(s[1], d - 1) for _ in range(rng.randint(0, 4))]
            return x if k == 'list' else tuple(x)
        if k == 'tuple':
            return tuple(value(x, d - 1) for x in s[1])
        if k == 'dict':
            return {q: value(s[1], d - 1) for q in rng.sample(['a', 'b', 'c', 1, 2], rng.randint(0, 4))}
        f = {q: value(x, d - 1) for q, (x, _) in s[1].items()}
        ex = {q: value(('any',), 1) for q in ('x', 'y') if rng.random() < 0.5} if s[2] else {}
        if k == 'td':
            return {**f, **ex}
        if k == 'dc':
            o = D.__new__(D)
            o.__dict__.update(f)
            return o
        o = M()
        o.__dict__.update(f)
        o.__pydantic_extra__ = ex if s[2] else None
        o.__pydantic_fields_set__ = set(f)
        o.__pydantic_private__ = None
        return o

    def kids(s, v):
        """keys of a value, with their value"""
        if isinstance(v, (list, tuple)):
            return list(enumerate(v)), len(v)
        if isinstance(v, dict):
            return list(v.items()), None
        if isinstance(v, (M, D)):
            e = list(v.__dict__.items())
            return e + list((getattr(v, '__pydantic_extra__', None) or {}).items()), None
        return [], None

    def filt(v, d):
        """a filter for the value; None at times"""
        ks, n = kids(None, v)
        if not ks and not isinstance(v, (list, tuple, dict, M, D)):
            return rng.choice([None, ..., True]) if d else None
        keys = [k for k, _ in ks]
        if n is not None:
            if rng.random() < 0.4:
                keys = [k - n if rng.random() < 0.5 else k for k in keys]
            keys += rng.sample([n, n + 2, -n - 1], 1) if rng.random() < 0.2 else []
        elif rng.random() < 0.2:
            keys.append('nokey')
        c = rng.random()
        if c < 0.15:
            return rng.choice([None, ...]) if d else None
        sel = [k for k in keys if rng.random() < 0.5]
        if rng.random() < 0.15:
            sel.append('__all__')
        if c < 0.45:
            return set(sel)
        if c < 0.5 and d == 0 and n is None:
            return list(sel)
        vals = dict(ks)

        def sub(k):
            if k == '__all__':
                w = rng.choice([x for _, x in ks]) if ks else None
            else:
                kk = k + n if n is not None and isinstance(k, int) and k < 0 else k
                w = vals.get(kk)
            f = filt(w, d + 1)
            return ... if f is None and rng.random() < 0.8 else f
        out = {k: sub(k) for k in sel}
        if '__all__' in out and (out['__all__'] is None or any(not whole(x) and not isinstance(x, (set, dict)) for x in out.values())):
            out['__all__'] = ...
        return out

    known_cases(R)
    n = 0
    limit = 400000 if THOROUGH else 40000
    while n < limit and not R.out_of_time():
        s = shape(3)
        try:
            ss = SchemaSerializer(schema(s))
        except SchemaError as e:
            R.check(False, f'schema {s}', got=e)
            continue
        for _ in range(4):
            v = value(s, 3)
            for _ in range(4):
                n += 1
                inc = filt(v, 0) if rng.random() < 0.6 else None
                exc = filt(v, 0) if rng.random() < 0.6 else None
                if dangling(inc) or dangling(exc):
                    continue
                for mode in ('python', 'json', 'to_json'):
                    label = f'{mode} {s!r} {show(v)} include={inc!r} exclude={exc!r}'
                    R.mark(label)
                    want = run(expect, s, v, inc, exc, mode)
                    if mode == 'to_json':
                        got = run(lambda: js.loads(ss.to_json(v, include=inc, exclude=exc)))
                    else:
                        got = run(ss.to_python, v, mode=mode, include=inc, exclude=exc, warnings='error')
                    R.same(label, got, want, nt=label if inc or exc else None)


def dangling(f, top=True):
    """filters the language does not define: ... at the top, or two entries for one item"""
    if f is None:
        return False
    if f is ... or f is True:
        return top
    if isinstance(f, dict):
        return any(x is None for x in f.values()) or any(dangling(x, False) for x in f.values())
    return False


def show(v):
    if isinstance(v, (M, D)):
        return type(v).__name__ + repr({k: show(x) for k, x in v.__dict__.items()}) + repr(getattr(v, '__pydantic_extra__', ''))
    return repr(v)


def known_cases(R):
    d = SchemaSerializer(cs.dict_schema(serialization=cs.filter_dict_schema(include={-1})))
    R.same('python dict with schema include={-1} of {-1: 1, -2: 2}', run(d.to_python, {-1: 1, -2: 2}), OK({-1: 1}), nt='hash', known='hash')
    l = SchemaSerializer(cs.list_schema(cs.any_schema()))
    for exc in ({2: ..., -1: {'a'}}, {-1: ..., 2: {'a'}}):
        R.same(f'python list [0, 1, {{a, b}}] exclude={exc!r}', run(l.to_python, [0, 1, {'a': 1, 'b': 2}], exclude=exc), OK([0, 1]), nt=repr(exc), known='twice')
    for v in ([0, 1, 2], (0, 1, 2)):
        for ss in (l, SchemaSerializer(cs.any_schema()), SchemaSerializer(cs.tuple_variable_schema(cs.any_schema())) if isinstance(v, tuple) else l):
            if ss is l and isinstance(v, tuple):
                continue
            for i in range(-9, 10):
                w = [x for k, x in enumerate(v) if k != (i if i >= 0 else i + 3)]
                R.same(f'python {v} exclude={{{i}}}', run(ss.to_python, v, exclude={i}), OK(type(v)(w)), nt=('ix', i))
                w = [x for k, x in enumerate(v) if k == (i if i >= 0 else i + 3)]
                R.same(f'python {v} include={{{i}}}', run(ss.to_python, v, include={i}), OK(type(v)(w)), nt=('ixi', i))
    g = SchemaSerializer(cs.generator_schema(cs.any_schema()))
    R.same('generator exclude {1}', run(lambda: list(g.to_python(iter([1, 2, 3]), exclude={1}))), OK([1, 3]))
    R.same('generator include {1}', run(lambda: list(g.to_python(iter([1, 2, 3]), include={1}))), OK([2]))
    R.same('generator json include {1}', run(lambda: js.loads(g.to_json(iter([1, 2, 3]), include={1}))), OK([2]))
    R.check(run(lambda: list(g.to_python(iter([1, 2, 3]), exclude={-1}))).kind == 'exc', 'generator exclude {-1} is an error')


guard(Recorder('C15'), main)
