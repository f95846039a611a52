"""Development tool for planted bugs (never used by a check): seed.py SPEC.py [id ...]
SPEC.py defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new[, nth])], demo=python source)].
For each: writes /verif/seeded/<id>, applies it to a scratch copy (/tmp/sw/repo), builds, runs the python tests, the demo
and the property's check (on the scratch copy, own build dir), and prints a verdict line.   --nocheck / --notest skip."""
import json, os, re, shutil, subprocess, sys, runpy
SW = '/tmp/sw'
REPO, BUILD = SW + '/repo', SW + '/build'
ENV = dict(os.environ, MIRV_DEV_REPO=REPO, MIRV_DEV_BUILD=BUILD, MIRV_DEV_EVID=SW + '/evid', MIRV_REPO=REPO, MIRV_BUILD=BUILD, VERIF_SEED='1', VERIF_TIER='quick')
ENV.pop('RUST_BACKTRACE', None)


def sh(cmd, env=None, cwd=None, to=900):
    try:
        r = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env or ENV, cwd=cwd, timeout=to)
        return r.returncode, r.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf8', 'replace')


def sync():
    os.makedirs(SW + '/evid', exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    if not os.path.exists(REPO):
        sh(f'git clone -q /repo {REPO}')
    sh('git fetch -q origin && git reset -q --hard origin/HEAD && git clean -fdq src python', cwd=REPO)
    for f in ('src/self_schema.py',):
        if os.path.exists('/repo/' + f):
            shutil.copy('/repo/' + f, REPO + '/' + f)
    if not os.path.exists(BUILD + '/driver'):
        shutil.copytree('/verif/build/driver', BUILD + '/driver', symlinks=True)
    if not os.path.exists(BUILD + '/cache'):
        os.makedirs(BUILD + '/cache')


def build(tag):
    out = f'{SW}/so-{tag}'
    shutil.rmtree(out, ignore_errors=True)
    rc, o = sh(['bash', '/verif/mirv/buildso.sh', out])
    if rc:
        print(o[-2500:])
    return out if rc == 0 else None


def demo(d, so):
    e = dict(ENV, PYTHONPATH=so)
    return sh(['bash', d + '/demo.sh'], env=e, cwd=REPO, to=300)


def tests(so):
    junit = SW + '/junit.xml'
    e = dict(ENV, PYTHONPATH=f'{so}:/opt/vp/plugin', PYTHONHASHSEED='0', TZ='UTC', LC_ALL='C.UTF-8')
    sh(f'. /opt/vp/env.sh; export PYTHONPATH={so}:/opt/vp/plugin; cd {REPO}; rm -rf .hypothesis; timeout 600 python -m pytest -p vp_plugin -p no:pretty -n 6 -q --max-worker-restart 20 -p no:cacheprovider '
       f'--hypothesis-seed=0 --junitxml={junit} > {SW}/pytest.log 2>&1', env=e)
    import xml.etree.ElementTree as ET
    ok = set()
    try:
        for tc in ET.parse(junit).iter('testcase'):
            if not any(c.tag in ('failure', 'error', 'skipped') for c in tc):
                ok.add(f"{tc.get('classname')}::{tc.get('name')}")
    except Exception as x:
        return ['no junit: ' + str(x)]
    base = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t.startswith('tests.')]
    return [t for t in base if t not in ok]


def main():
    spec = runpy.run_path(sys.argv[1])
    want = [a for a in sys.argv[2:] if not a.startswith('--')]
    sync()
    clean = SW + '/so-clean'
    head = sh('git rev-parse HEAD', cwd=REPO)[1].strip()
    if not os.path.exists(clean + '/' + head):
        clean = build('clean')
        open(clean + '/' + head, 'w').close()
    for s in spec['SEEDS']:
        if want and s['id'] not in want:
            continue
        d = '/verif/seeded/' + s['id']
        sh('git reset -q --hard', cwd=REPO)
        bad = None
        for ed in s['edits']:
            f, old, new = ed[:3]
            t = open(f'{REPO}/{f}').read()
            n = t.count(old)
            if n == 0 or (n > 1 and len(ed) < 4):
                bad = f'edit of {f}: {n} matches of {old[:60]!r}'
                break
            if len(ed) > 3:
                i = -1
                for _ in range(ed[3] + 1):
                    i = t.index(old, i + 1)
                t = t[:i] + new + t[i + len(old):]
            else:
                t = t.replace(old, new)
            open(f'{REPO}/{f}', 'w').write(t)
        if bad:
            print(s['id'], 'EDIT FAILED', bad, flush=True)
            continue
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(sh('git diff', cwd=REPO)[1])
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec timeout 250 /opt/vp/venv/bin/python "$(dirname "$0")/demo.py"\n')
        open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        so = build('bug')
        if not so:
            print(s['id'], 'DOES NOT BUILD', flush=True)
            shutil.rmtree(d)
            continue
        c, b = demo(d, clean), demo(d, so)
        failed = [] if '--notest' in sys.argv else tests(so)
        msg = f'demo clean={c[0]} bug={b[0]}'
        if c[0] != 0 or b[0] == 0:
            msg += ' DEMO-WRONG ' + c[1][-300:] + b[1][-300:]
        msg += f' tests-broken={len(failed)}' + (' ' + str(failed[:3]) if failed else '')
        if '--nocheck' not in sys.argv:
            rc, o = sh(['python3-vt', '/verif/check.py', s['prop'], 'quick'])
            v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
            msg += f' check rc={rc} ' + ('CAUGHT ' + ('nofail' if v and 'no-failing' in v[0] else 'input') if rc == 1 else 'MISSED ' + o[-300:])
            summ = [l for l in o.splitlines() if 'refuted obligation' in l or 'obligations discharged' in l]
            try:
                ev = json.load(open(SW + f'/evid/{s["prop"]}.json'))['coverage']
                msg += f' | refuted={ev["refuted"]} undecided={ev["undecided_obligations"]} stand-in failures={ev["bounded_stand_in"]["failures"]}'
            except Exception as x:
                msg += str(x)
        print(s['id'], s['prop'], msg, flush=True)
    sh('git reset -q --hard', cwd=REPO)


main()
