"""C13: alias paths"""
from flds import *
import itertools


def dumps_dup(x, rng):
    """JSON text of x in which objects also contain earlier entries with the same keys"""
    if isinstance(x, dict):
        items = []
        for k, v in x.items():
            if rng.random() < 0.4:
                items.append(json.dumps(k) + ': ' + rng.choice(['"dup"', '{"a": 5, "b": [1]}', '[3, 4]', '77']))
            items.append(json.dumps(k) + ': ' + dumps_dup(v, rng))
        # entries of different keys may be interleaved: the last entry of each key stays last
        return '{' + ', '.join(items) + '}'
    if isinstance(x, list):
        return '[' + ', '.join(dumps_dup(v, rng) for v in x) + ']'
    return json.dumps(x)


def one(R, alias, v, data, rng, kind, name='f'):
    ps = paths_of(alias, name, True, False)
    todo = [('py', v.validate_python, data, data), ('py', v.validate_python, Mp(data), data)]
    try:
        todo.append(('json', v.validate_json, json.dumps(data), json.loads(json.dumps(data))))
        if all_str(data):
            todo.append(('json', v.validate_json, dumps_dup(data, rng), data))
    except TypeError:
        pass
    if kind == 'model':
        todo.append(('attr', lambda x: v.validate_python(x, from_attributes=True), to_obj(data), to_obj(data)))
    for mode, fn, x, d in todo:
        label = f'{mode} {kind} alias={alias} input={x!r}'
        R.mark(label)
        r = resolve(ps, d, mode)
        got = run(fn, x)
        if r is None:
            R.same(label, got, ERR(('missing', tuple(ps[0]))), nt=label)
        elif r is ERRMARK:
            R.same(label, got, ERR(('get_attribute_error', (name,))), nt=label)
        else:
            path, val = r
            if got.ok:
                g = got.v[0]['f'] if kind == 'model' else got.v['f']
                R.check(repr(g) == repr(val), label, got=g, want=val, nt=label)
            else:
                R.same(label, got, OK(val))


def all_str(d):
    if isinstance(d, dict):
        return all(isinstance(k, str) and all_str(v) for k, v in d.items())
    return not isinstance(d, list) or all(all_str(x) for x in d)


def main(R):
    rng = R.rng
    R.rules.append('random alias paths (strings, positions, negative positions; several alternatives) over nested dicts, lists, strings, int-keyed dicts, objects and JSON with duplicate keys; value, error type and location compared with path resolution in flds.py')
    n = 2500 if not THOROUGH else 40000
    items = NAMES[:3] + [0, 1, 2, -1, -2, -3, -4, 5, 2**31, -2**31, 2**62, -2**62]
    def path():
        return [rng.choice(NAMES[:3])] + [rng.choice(items) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
    def value(d=0):
        r = rng.random()
        if r < 0.2 or d > 4:
            return rng.choice([1, 'abc', None, '', 1.5, True])
        if r < 0.55:
            ks = rng.sample(NAMES[:3], rng.randrange(0, 4))
            if rng.random() < 0.15:
                ks = ks + rng.sample([0, 1, -1, -2], 2)
            return {k: value(d + 1) for k in ks}
        return [value(d + 1) for _ in range(rng.randrange(0, 5))]
    for i in range(n):
        if R.out_of_time():
            break
        r = rng.random()
        alias = path() if r < 0.4 else [path() for _ in range(rng.randrange(1, 5))] if r < 0.9 else rng.choice(NAMES)
        m = SchemaValidator(cs.model_fields_schema({'f': cs.model_field(cs.any_schema(), validation_alias=alias)}))
        t = SchemaValidator(cs.typed_dict_schema({'f': cs.typed_dict_field(cs.any_schema(), validation_alias=alias)}))
        for _ in range(5):
            # build an input that follows one of the alternatives for some steps
            data = {k: value() for k in rng.sample(NAMES[:3], rng.randrange(0, 4))}
            ps = paths_of(alias, 'f', True, False)
            p = rng.choice(ps)
            if rng.random() < 0.8:
                v = value(3)
                for s in reversed(p[1:] if rng.random() < 0.7 else p[1:-1]):
                    if isinstance(s, str):
                        v = {**{k: value(4) for k in rng.sample(NAMES[:3], 1)}, s: v}
                    elif abs(s) < 10:
                        l = [value(4) for _ in range((s if s >= 0 else -s - 1) + rng.randrange(0, 2))]
                        if s >= 0:
                            l = l[:s] + [v] + l[s:]
                        else:
                            l = l[:len(l) + s + 1] + [v] + l[len(l) + s + 1:]
                        v = l
                data[p[0]] = v
            one(R, alias, m, data, rng, 'model')
            one(R, alias, t, data, rng, 'typed dict')
    # errors inside the value are located under the path used
    for alias, data, loc in [([['a', 0, 'b'], ['c']], {'a': [{'b': 'x'}]}, ('a', 0, 'b')), ([['a', 0, 'b'], ['c']], {'a': [], 'c': 'x'}, ('c',)), (['a', -1], {'a': [1, 'x']}, ('a', -1)), ('q', {'q': 'x'}, ('q',))]:
        m = SchemaValidator(cs.model_fields_schema({'f': cs.model_field(cs.int_schema(), validation_alias=alias)}))
        R.same(f'location {alias} {data}', run(m.validate_python, data), ERR(('int_parsing', loc)))
        R.same(f'location {alias} {data} json', run(m.validate_json, json.dumps(data)), ERR(('int_parsing', loc)))
    # unbuildable paths are schema errors
    for bad in ([], [[]], [1], [[1]], [['a'], [2]], [['a', 1.5]], ['a', None], [['a', b'x']]):
        try:
            SchemaValidator(cs.model_fields_schema({'f': cs.model_field(cs.int_schema(), validation_alias=bad)}))
            got = 'built'
        except (SchemaError, TypeError) as e:
            got = 'rejected'
        R.check(got == 'rejected', f'alias {bad!r}', got=got, want='rejected')
    drive(R, False, True, 400 if not THOROUGH else 8000)
    drive(R, True, True, 400 if not THOROUGH else 8000)


guard(Recorder('C13'), main)
