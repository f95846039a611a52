"""writes MANIFEST.json: one check per property with a contract module"""
import ast, glob, json, os, re
PROPS = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NA = {'C30': 'schedules and collector interleavings are outside what sequential contracts can state: the extension relies on the GIL/Python runtime, which no contract on /repo code can bring in'}
checks, na = [], []
for p in PROPS:
    fs = glob.glob(f'/verif/contracts/{p.lower()}_*.py')
    if not fs:
        na.append({'property': p, 'reason': NA.get(p, 'no contract has been discharged for this property yet, so it is not claimed')})
        continue
    src = open(fs[0]).read()
    m = ast.parse(src)
    vals = {t.id: ast.literal_eval(n.value) for n in m.body if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name) and t.id in ('LEVEL_NOTE', 'LEVEL')}
    note = vals.get('LEVEL_NOTE') or 'Obligations of the contracts are discharged for all inputs on the MIR of the current source; assumed callee contracts and arbitrary callees are listed in the evidence.'
    note += ' The concrete driver replay/%s.py is a bounded stand-in (never counted as proved) that also turns refuted obligations into failing inputs.' % p.lower()
    checks.append({'property': p, 'quick_cmd': f'python3-vt check.py {p} quick', 'thorough_cmd': f'python3-vt check.py {p} thorough',
                   'technique': 'contract-based deductive verification of the MIR of the real functions (mirv + z3), refutations replayed on the rebuilt module',
                   'level': vals.get('LEVEL', 'proof'), 'level_note': note})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na])
