#!/usr/bin/env python3
"""regenerates the generated part of DESIGN.md (from '## 4.' on) from the contract registry, the replay drivers, the seeds and the findings"""
import sys, os, json, glob, ast, importlib, re, textwrap
sys.path.insert(0, '/verif')
from mirv import contract as C
PROPS = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = ast.literal_eval(re.search(r'^NA = (.*)$', open('/verif/tools/manifest.py').read(), re.M)[1])
STANDIN = {
    'C01': 'ints around every bound and around the 64-bit edges, with random constraint sets, against Python comparison',
    'C02': 'floats near every bound, multiples and tolerances, nan and infinities, against exact rational arithmetic',
    'C03': 'strings (ASCII, multi-byte, white space) x length, strip, case, pattern, against Python'}


def doc(node):
    return ' '.join((ast.get_docstring(node) or '').split())


out = ['## 4. Property by property', '',
       'Each line below is a group of contracts: what it states, and the functions of /repo under it. The exact clauses are in the module. "Stand-in" is',
       'the concrete driver: bounded, never counted as proved. It is also the only cover of what "not under contract" lists.', '']
NOTUNDER = json.load(open('/verif/tools/notunder.json'))
mods = sorted(glob.glob('/verif/contracts/c[0-9]*.py'))
for m in mods:
    importlib.import_module('contracts.' + os.path.basename(m)[:-3])
for p in PROPS:
    cid = p['id']
    fs = glob.glob(f'/verif/contracts/{cid.lower()}_*.py')
    out += [f"### {cid} {p['title']}", '']
    if not fs:
        out += ['Not applicable: ' + NA.get(cid, ''), '']
        continue
    mod = ast.parse(open(fs[0]).read())
    groups, order = {}, []
    for c in C.REGISTRY.get(cid, []):
        d = None
        for k in c.__mro__:
            if k.__dict__.get('__doc__') and k.__name__ not in ('Contract', 'object'):
                d = ' '.join(k.__doc__.split())
                break
        d = d or ''
        key = d or '; '.join(getattr(c, 'expect', ()) or ())
        if key not in groups:
            groups[key] = []
            order.append(key)
        t = re.sub(r'_pydantic_core::', '', c.title)
        if t not in groups[key]:
            groups[key].append(t)
    out.append('Contracts: `' + os.path.relpath(fs[0], '/verif') + '`')
    for k in order:
        names = groups[k]
        out.append(f"* {k or 'clauses in the module'}: " + ', '.join(names))
    src = importlib.import_module('contracts.' + os.path.basename(fs[0])[:-3])
    out.append('')
    if getattr(src, 'ASSUMPTIONS', None):
        out.append('Assumed: ' + '; '.join(src.ASSUMPTIONS) + '.')
    r = f'/verif/replay/{cid.lower()}.py'
    s = STANDIN.get(cid) or doc(ast.parse(open(r).read()))
    s = re.sub(r'^%s( driver)?:? *' % cid, '', s)
    out.append(f'Stand-in: `replay/{cid.lower()}.py`: {s}.')
    if cid in NOTUNDER:
        out.append('Not under contract: ' + NOTUNDER[cid] + '.')
    out.append('')
out += ['## 5. Planted changes and the checks that catch them', '', 'Every change is under `seeded/<id>/`. "input": reported with a failing input; "obligation": reported as a refuted obligation with no failing input.', '',
        '| change | property | needs | caught |', '|---|---|---|---|']
res = {}
for l in open('/verif/tools/seed_results.txt'):
    if l.strip():
        a = l.split(None, 1)
        res[a[0]] = a[1].strip()
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i = f.split('/')[-2]
    m = json.load(open(f))
    out.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i, 'input')} |")
out += ['', '## 6. Defects found in pydantic-core', '', 'Repaired (one `fix:` commit each; existing tests unedited):', '']
known = []
for l in open('/verif/known_findings.txt'):
    l = l.strip()
    if l.startswith('fixed:'):
        m = re.match(r'fixed: property=(C\d+) (\w+) (.*)', l)
        out.append(f'* {m[1]} `{m[2]}` {m[3]}')
    elif l.startswith('known:'):
        known.append(json.loads(l[6:]))
out += ['', 'Recorded, not repaired (each is printed as KNOWN-FINDING by its check and suppresses only the named input class):', '']
out += [f"* {k['property']} `{k['match']}`: {k['what']}" for k in known]
out.append('')
d = open('/verif/DESIGN.md').read()
i, j = d.find('\n## 4.'), d.find('\n## 7.')
tail = d[j:] if j >= 0 else ''
head = d[:i] if i >= 0 else d[:j] if j >= 0 else d
open('/verif/DESIGN.md', 'w').write(head.rstrip() + '\n\n' + '\n'.join(out).rstrip() + '\n' + tail)
