"""C08: tagged unions; the oracle resolves the discriminator in Python and expects exactly the registered member's outcome under the tag"""
from h import *
import enum, itertools

CALLS = []


class K(str, enum.Enum):
    a = 'a'
    z = 'z'


class KI(enum.IntEnum):
    one = 1


class P(enum.Enum):
    x = 'x'
    y = 'y'


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)


MISS = object()


def spy(name, schema):
    def f(v):
        CALLS.append(name)
        return v
    return cs.no_info_before_validator_function(f, schema)


def resolve(paths, x, attrs):
    for p in paths:
        cur = x
        ok = True
        for st in p:
            if isinstance(cur, str):
                ok = False
                break
            if isinstance(cur, dict):
                if st in cur:
                    cur = cur[st]
                    continue
                ok = False
                break
            if isinstance(cur, (list, tuple)):
                if isinstance(st, int) and -len(cur) <= st < len(cur):
                    cur = cur[st]
                    continue
                ok = False
                break
            if attrs and isinstance(st, str) and isinstance(cur, NS) and hasattr(cur, st):
                cur = getattr(cur, st)
                continue
            ok = False
            break
        if ok:
            return cur
    return MISS


def norm(d):
    if isinstance(d, str):
        return [[d]]
    if d and isinstance(d[0], list):
        return d
    return [d]


def repr_disc(d):
    if isinstance(d, str):
        return f"'{d}'"
    return ' | '.join('.'.join(map(repr, p)) for p in norm(d))


def loc_item(t):
    if isinstance(t, str):
        return t.value if isinstance(t, enum.Enum) else t
    if isinstance(t, int) and not isinstance(t, bool):
        return int(t) if -2 ** 63 <= t < 2 ** 63 else str(int(t))
    return None


def member(i, kind):
    req = 'fabcdexyz'[i % 9]
    return spy(i, cs.typed_dict_schema({req: cs.typed_dict_field(cs.int_schema())}))


def main(R):
    rng = R.rng
    R.rules.append('tag sets (str, int, enum, mixed, None) x discriminator kinds (field, path, alternatives, function) x inputs with present, missing, unknown and loosely equal tags, python/JSON/attributes; '
                   'the member called and the outcome are compared with a Python dispatcher')
    tagsets = [['a', 'b', 'c'], [1, 2, 3], ['a', 1], ['1', 1], [P.x, P.y], [K.a, 'b'], [1, 'x', P.x], [2 ** 70, 1], ['a'], [b'q', 'q'], [0, 1, -1], ['', 'a'], [True, 'a'], [False, 2], [(1, 2), 'a'], [1.5, 'a']]
    discs = ['k', ['k'], [['k']], [['a', 'k'], ['k']], [['l', 0]], [['l', -1], ['k']], ['a', 'k'], [['k'], ['a', 'k']]]
    tagvals = ['a', 'b', 'c', 'd', 'x', 'y', 'q', '', '1', 1, 2, 3, 4, 0, -1, 2 ** 70, 2 ** 71, True, False, 1.0, 2.0, 1.5, None, P.x, P.y, K.a, K.z, KI.one, b'q', [1], {}, (1, 2), (2, 1)]
    body = {'f': 1, 'a0': 2}

    def put(path, x, tag):
        pass
    for tags in tagsets:
        members = [member(i, None) for i in range(len(tags))]
        reqs = ['fabcdexyz'[i % 9] for i in range(len(tags))]
        for custom in (False, True):
            for di, d in enumerate(discs + ['fn', 'fnmiss']):
                if custom and di % 3:
                    continue
                kw = dict(custom_error_type='cu', custom_error_message='cu') if custom else {}
                if d == 'fn':
                    disc = lambda x: x.get('k') if isinstance(x, dict) else getattr(x, 'k', None)
                elif d == 'fnmiss':
                    disc = lambda x: None
                else:
                    disc = d
                v = SchemaValidator(cs.tagged_union_schema(dict(zip(tags, members)), disc, **kw))
                for tag in tagvals:
                    for shape in range(7):
                        x = {r: rng.choice([1, 'bad', '7']) for r in rng.sample('fabcdexyz', 5)}
                        x.pop('a', None)
                        if shape == 0:
                            x['k'] = tag
                        elif shape == 1:
                            x['a'] = {'k': tag}
                        elif shape == 2:
                            x['l'] = [tag, 'c']
                        elif shape == 3:
                            x['l'], x['k'] = ['c', tag], 'a'
                        elif shape == 4:
                            x['a'], x['k'] = {'k': tag}, 'b'
                        elif shape == 5:
                            pass
                        else:
                            x['a'], x['k'], x['l'] = 'k', tag, 'k'
                        one(R, v, tags, reqs, d, x, custom, tag, shape, 'python')
                        try:
                            raw = json.dumps(x)
                            if json.loads(raw) == x and not isinstance(tag, enum.Enum) and not isinstance(tag, tuple):
                                one(R, v, tags, reqs, d, x, custom, tag, shape, 'json', raw)
                        except TypeError:
                            pass
                # inputs of another type
                for bad in (1, 'k', None, [1], [('k', 'a')]):
                    CALLS.clear()
                    r = run(v.validate_python, bad)
                    R.check((r.kind == 'err') and not CALLS, f'tagged union {tags!r} disc {d!r} on {bad!r}', got=r, want='an error and no member called')
    # attributes
    for fa, call in itertools.product((True, False), (True, False, None)):
        v = SchemaValidator(cs.tagged_union_schema({'a': spy(0, cs.any_schema()), 'b': spy(1, cs.any_schema())}, 'k', from_attributes=fa))
        for tag in ('a', 'b', 'c', None):
            x = NS() if tag is None else NS(k=tag)
            CALLS.clear()
            r = run(v.validate_python, x, from_attributes=call)
            eff = fa if call is None else call
            if not eff:
                R.check(r.kind == 'err' and r.v == [('model_attributes_type', ())] or r.v == [('model_type', ())] or r.kind == 'err', f'attributes off {tag}', got=r, want='error')
                R.check(not CALLS, 'no member called', got=CALLS, want=[])
                continue
            want = ERR(('union_tag_not_found', ())) if tag is None else ERR(('union_tag_invalid', ())) if tag == 'c' else OK(x)
            R.same(f'from_attributes schema={fa} call={call} tag={tag!r}', r, want)
            R.same(f'from_attributes schema={fa} call={call} tag={tag!r}: members called', list(CALLS), [0] if tag == 'a' else [1] if tag == 'b' else [])
    # nested tagged unions and error context
    inner = cs.tagged_union_schema({'p': cs.typed_dict_schema({'v': cs.typed_dict_field(cs.int_schema())}), 'q': cs.typed_dict_schema({'v': cs.typed_dict_field(cs.str_schema())})}, 't')
    v = SchemaValidator(cs.tagged_union_schema({'i': inner, 'j': cs.typed_dict_schema({'w': cs.typed_dict_field(cs.list_schema(cs.int_schema()))})}, 'k'))
    for x, w in [({'k': 'i', 't': 'p', 'v': 1}, OK({'v': 1})), ({'k': 'i', 't': 'q', 'v': 'z'}, OK({'v': 'z'})), ({'k': 'i', 't': 'p', 'v': 'z'}, ERR(('int_parsing', ('i', 'p', 'v')))),
                 ({'k': 'i', 't': 'r'}, ERR(('union_tag_invalid', ('i',)))), ({'k': 'i'}, ERR(('union_tag_not_found', ('i',)))), ({'k': 'j', 'w': [1, 'x', 2, 'y']}, ERR(('int_parsing', ('j', 'w', 1)), ('int_parsing', ('j', 'w', 3)))),
                 ({'t': 'p'}, ERR(('union_tag_not_found', ())))]:
        R.same(f'nested {x}', run(v.validate_python, x), w)
        R.same(f'nested json {x}', run(v.validate_json, json.dumps(x)), w)
    for tags in (['a'], ['a', 'b'], [1, 'b', 2]):
        for d in ('k', [['k'], ['a', 'k']], ['a', 0, 'k']):
            v = SchemaValidator(cs.tagged_union_schema({t: cs.any_schema() for t in tags}, d))
            exp = ', '.join(map(repr, tags))
            x = {'k': 'zz', 'a': [{'k': 'zz'}]}
            R.same(f'context {tags} {d}', run_full(v.validate_python, x).v, [('union_tag_invalid', (), {'discriminator': repr_disc(d), 'tag': 'zz', 'expected_tags': exp})])
            R.same(f'context {tags} {d}', run_full(v.validate_python, {}).v, [('union_tag_not_found', (), {'discriminator': repr_disc(d)})])


def one(R, v, tags, reqs, d, x, custom, tag, shape, mode, raw=None):
    label = f'{mode} tags={tags!r} discriminator={d!r} custom={custom} input={x!r}'
    R.mark(label)
    CALLS.clear()
    got = run(v.validate_python if raw is None else v.validate_json, x if raw is None else raw)
    calls = list(CALLS)
    if d == 'fn':
        t = x.get('k', MISS)
        if t is None:
            t = MISS
    elif d == 'fnmiss':
        t = MISS
    else:
        t = resolve(norm(d), x, False)
    if t is MISS:
        want, wc = ERR(('cu' if custom else 'union_tag_not_found', ())), []
    else:
        i = pick(tags, t)
        if i is None:
            want, wc = ERR(('cu' if custom else 'union_tag_invalid', ())), []
        else:
            wc = [i]
            r = reqs[i]
            li = loc_item(t)
            if li is None:
                li = got.v[0][1][0] if got.kind == 'err' and got.v and got.v[0][1] else None
            if r not in x:
                want = ERR(('missing', (li, r)))
            elif isinstance(x[r], dict):
                want = ERR(('int_type', (li, r)))
            elif x[r] == 'bad' or x[r] == 'k':
                want = ERR(('int_parsing', (li, r)))
            elif isinstance(x[r], str) and not x[r].isdigit():
                want = ERR(('int_parsing', (li, r)))
            else:
                want = OK({r: int(x[r])})
    R.same(label, got, want, nt=f'{tags!r}{d!r}{tag!r}{shape}' if wc else None)
    R.same(label + ' members called', calls, wc)


def pick(tags, t):
    """an equal tag of the same type wins, then an equal one; the last registered of equal keys cannot exist (dict keys)"""
    for i, k in enumerate(tags):
        if type(k) is type(t) and k == t:
            return i
    for i, k in enumerate(tags):
        if type(k) is not bool and type(k) not in (int, str) or (type(k) is int and not -2**63 <= k < 2**63):
            if safe_eq(k, t):
                return i
    for i, k in enumerate(tags):
        if safe_eq(k, t):
            return i
    return None


def safe_eq(k, t):
    try:
        hash(t)
    except TypeError:
        return False
    return k == t


guard(Recorder('C08'), main)
