#!/usr/bin/env python3
"""usage: check.py CXX [quick|thorough]   - decides one property of /repo's current working tree.

1. rustc (nightly, through mirv/driver) emits the MIR of /repo's current source for the functions the contracts name;
2. mirv discharges every obligation of the contracts in contracts/cXX_*.py (z3);
3. the concrete driver replay/cXX.py runs against a freshly built extension module: it replays refuted obligations into
   failing inputs and is the labelled-bounded stand-in for what the contracts do not reach.
"""
import glob, hashlib, importlib, json, os, shutil, subprocess, sys, threading, time

VERIF = '/verif'
# the registered commands use /repo; the overrides are for developing planted bugs in a scratch copy (tools/seed.py)
REPO = os.environ.get('MIRV_DEV_REPO', '/repo')
BUILD = os.environ.get('MIRV_DEV_BUILD', VERIF + '/build')
EVID = os.environ.get('MIRV_DEV_EVID', VERIF + '/evidence')
os.environ['MIRV_REPO'], os.environ['MIRV_BUILD'] = REPO, BUILD
sys.path.insert(0, VERIF)


def source_files():
    out = []
    for base in ('src', 'python', 'build.rs', 'Cargo.toml', 'Cargo.lock', '.cargo'):
        p = os.path.join(REPO, base)
        if os.path.isfile(p):
            out.append(p)
        for d, ds, fs in os.walk(p):
            ds[:] = [x for x in ds if x != '__pycache__']
            out += [os.path.join(d, f) for f in fs if not f.endswith('.so')]
    return sorted(x for x in out if not x.endswith('src/self_schema.py'))


def source_hash():
    h = hashlib.sha256()
    for p in source_files():
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def sh(cmd, log, timeout):
    with open(log, 'wb') as f:
        try:
            return subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, cwd=VERIF).returncode
        except subprocess.TimeoutExpired:
            return 124


def prune(pattern, keep):
    fs = sorted(glob.glob(pattern), key=os.path.getmtime, reverse=True)
    for f in fs[keep:]:
        if os.path.isdir(f):
            shutil.rmtree(f, ignore_errors=True)
        else:
            try:
                os.unlink(f)
            except OSError:
                pass


def lock(name):
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    f = open(f'{BUILD}/{name}.lock', 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def ensure_driver():
    drv = BUILD + '/driver/debug/mirdump'
    src = VERIF + '/mirv/driver/src'
    h = hashlib.sha256(b''.join(open(os.path.join(src, f), 'rb').read() for f in sorted(os.listdir(src)))).hexdigest()
    stamp = BUILD + '/driver/stamp'
    if os.path.exists(drv) and os.path.exists(stamp) and open(stamp).read() == h:
        return True
    env = dict(os.environ, CARGO_TARGET_DIR=BUILD + '/driver', CARGO_NET_OFFLINE='true')
    env.pop('RUSTUP_TOOLCHAIN', None)
    r = subprocess.run(['cargo', '+nightly', 'build', '--offline'], cwd=VERIF + '/mirv/driver', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stdout.buffer.write(r.stdout[-3000:])
        return False
    open(stamp, 'w').write(h)
    return True


def ensure_so(sh_):
    out = f'{BUILD}/cache/so-{sh_}'
    with lock('so'):
        if os.path.exists(out + '/done'):
            return out
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        rc = sh(['bash', VERIF + '/mirv/buildso.sh', tmp], BUILD + '/so.log', 700)
        if rc != 0:
            return None
        open(tmp + '/done', 'w').close()
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        prune(f'{BUILD}/cache/so-*', 3)
    return out


DEFAULT_STOP = ['<_pydantic_core::validators::CombinedValidator as _pydantic_core::validators::Validator>::*', '<_pydantic_core::serializers::shared::CombinedSerializer as _pydantic_core::serializers::shared::TypeSerializer>::*',
                '*SchemaDict*::get_as', '*SchemaDict*::get_as_req', '_pydantic_core::tools::py_err', '_pydantic_core::tools::py_err_string*', '_pydantic_core::errors::types::*']
DEFAULT_DESCEND = ['core::option::*', 'core::result::*', '<core::option::*', '<core::result::*', '<T as core::convert::Into<U>>::into']


def cfg_for(mods):
    """MIR extraction configuration = union of the contracts' functions"""
    from mirv import contract
    lines = []
    for prop, cl in contract.REGISTRY.items():
        for c in cl:
            for p in (c.fn if isinstance(c.fn, (list, tuple)) else [c.fn]):
                lines.append('root ' + p)
    for m in mods:
        d = getattr(m, 'DUMP', {})
        lines += ['stop ' + x for x in d.get('stop', [])]
        lines += ['descend ' + x for x in d.get('descend', [])]
        lines += ['root ' + x for x in d.get('roots', [])]
    lines += ['stop ' + x for x in DEFAULT_STOP]
    lines += ['descend ' + x for x in DEFAULT_DESCEND]
    return '\n'.join(dict.fromkeys(lines)) + '\n'


def ensure_mir(prop, cfg, sh_):
    h = hashlib.sha256((cfg + open(BUILD + '/driver/stamp').read()).encode()).hexdigest()[:12]
    out = f'{BUILD}/cache/mir-{prop}-{sh_}-{h}.json'
    with lock('mir'):
        if os.path.exists(out):
            return out
        os.makedirs(BUILD + '/cache', exist_ok=True)
        c = f'{BUILD}/cache/{prop}.cfg'
        open(c, 'w').write(cfg)
        rc = sh(['bash', VERIF + '/mirv/dump.sh', c, out + '.tmp'], f'{BUILD}/mir-{prop}.log', 700)
        if rc != 0 or not os.path.exists(out + '.tmp'):
            return None
        os.rename(out + '.tmp', out)
        prune(f'{BUILD}/cache/mir-{prop}-*.json', 2)
    return out


def modules(prop):
    names = sorted(os.path.basename(p)[:-3] for p in glob.glob(f'{VERIF}/contracts/{prop.lower()}_*.py'))
    return [importlib.import_module('contracts.' + n) for n in names]


def replay(prop, so, tier, seed):
    """run the concrete driver; returns its result dict"""
    drv = f'{VERIF}/replay/{prop.lower()}.py'
    if not os.path.exists(drv):
        return {'n': 0, 'nontrivial': 0, 'failures': [], 'nfail': 0, 'samples': [], 'rule': 'none', 'known': {}}
    tmp = f'{BUILD}/run-{prop}-{os.getpid()}'
    os.makedirs(tmp, exist_ok=True)
    out, prog = tmp + '/out.json', tmp + '/progress'
    env = dict(os.environ, PYTHONPATH=f'{so}:{VERIF}/replay', VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_REPLAY_OUT=out, VERIF_PROGRESS=prog,
               VERIF_KNOWN=VERIF + '/known_findings.txt', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', LANG='C.UTF-8', HOME='/root')
    env['RUST_BACKTRACE'] = '0'
    limit = 240 if tier == 'quick' else 1500
    t0 = time.time()
    try:
        p = subprocess.run(['/opt/vp/venv/bin/python', drv], env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
        rc, txt = p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        rc, txt = 124, (e.stdout or b'').decode('utf8', 'replace')
    r = None
    if os.path.exists(out):
        try:
            r = json.load(open(out))
        except ValueError:
            r = None
    if r is None:
        r = {'n': 0, 'nontrivial': 0, 'failures': [], 'nfail': 0, 'samples': [], 'rule': '', 'known': {}}
        last = ''
        if os.path.exists(prog):
            last = open(prog, 'rb').read().split(b'\0')[0].decode('utf8', 'replace')
        if rc < 0 and rc != -9 and last:
            r['failures'].append({'case': last, 'code': '', 'got': f'the process died with signal {-rc}', 'expected': 'an answer'})
            r['nfail'] = 1
        else:
            r['driver_error'] = f'rc={rc} last={last!r} {txt[-1500:]}'
    if r.get('driver_error'):
        print('driver problem:', r['driver_error'][:3000])
    r['secs'] = round(time.time() - t0, 2)
    shutil.rmtree(tmp, ignore_errors=True)
    return r


def verify(prop, mods, mir, tier, box):
    from mirv import contract
    try:
        d = json.load(open(mir))
        k = contract.Checker(prop, d, tier, budget=150 if tier == 'quick' else 900)
        k.run()
        box['k'] = k
    except BaseException as e:
        import traceback
        box['err'] = traceback.format_exc()[-2000:]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.environ['VERIF_TIER'] = tier
    t0 = time.time()
    if not ensure_driver():
        print('cannot build the MIR driver')
        sys.exit(2)
    mods = modules(prop)
    sh_ = source_hash()
    box = {}
    th = None
    if mods:
        cfg = cfg_for(mods)

        def mirjob():
            box['mir'] = ensure_mir(prop, cfg, sh_)
        th = threading.Thread(target=mirjob)
        th.start()
    so = ensure_so(sh_)
    if so is None:
        print(open(BUILD + '/so.log', errors='replace').read()[-3000:])
        print('the extension module does not build')
        if th:
            th.join()
        sys.exit(2)
    rbox = {}
    rt = threading.Thread(target=lambda: rbox.update(replay(prop, so, tier, seed)))
    rt.start()
    if th:
        th.join()
        if box.get('mir'):
            vt = threading.Thread(target=verify, args=(prop, mods, box['mir'], tier, box))
            threading.stack_size(768 << 20)
            vt = threading.Thread(target=verify, args=(prop, mods, box['mir'], tier, box))
            vt.start()
            vt.join()
        else:
            box['err'] = 'no MIR: ' + open(f'{BUILD}/mir-{prop}.log', errors='replace').read()[-1500:]
    rt.join()
    report(prop, tier, seed, mods, box, rbox, time.time() - t0)


def report(prop, tier, seed, mods, box, r, wall):
    k = box.get('k')
    level = 'proof'
    for m in json.load(open(VERIF + '/MANIFEST.json')).get('checks', []) if os.path.exists(VERIF + '/MANIFEST.json') else []:
        if m['property'] == prop:
            level = m['level']
    obl = k.obl if k else []
    ok = [o for o in obl if o[2] == 'ok']
    bad = [o for o in obl if o[2] == 'bad']
    und = [o for o in obl if o[2] in ('unknown', 'tainted')]
    undecided = list(k.undecided) if k else []
    if box.get('err'):
        undecided.append(('verifier', box['err'][:600]))
    clauses = {}
    for o in obl:
        c = clauses.setdefault(f'{o[0]} / {o[1]}', {'instances': 0, 'discharged': 0, 'refuted': 0, 'undecided': 0})
        c['instances'] += 1
        c['discharged' if o[2] == 'ok' else 'refuted' if o[2] == 'bad' else 'undecided'] += 1
    os.makedirs(f'{EVID}/replay', exist_ok=True)
    violations = 0
    lines = []
    if r.get('failures'):
        violations = r['nfail']
        path = f'{EVID}/replay/{prop}.json'
        json.dump({'property': prop, 'kind': 'failing input on the real code', 'failures': r['failures'],
                   'refuted_obligations': [dict(contract=o[0], clause=o[1], path=o[3], model=o[4], note=o[5]) for o in bad[:10]]},
                  open(path, 'w'), indent=1, default=str)
        f = r['failures'][0]
        print(f'{prop}: {r["nfail"]} failing input(s); first: {f["case"][:400]}\n   got      {f["got"][:400]}\n   expected {f["expected"][:400]}')
        lines.append(f'VIOLATION property={prop} replay={path}')
    elif bad:
        violations = len(bad)
        path = f'{EVID}/replay/{prop}.json'
        json.dump({'property': prop, 'kind': 'refuted obligation, no failing input found',
                   'refuted_obligations': [dict(contract=o[0], clause=o[1], path=o[3], model=o[4], note=o[5]) for o in bad[:20]]},
                  open(path, 'w'), indent=1, default=str)
        print(f'{prop}: refuted obligation {bad[0][0]} / {bad[0][1]} on path {bad[0][3][-12:]} {bad[0][5]}')
        lines.append(f'VIOLATION property={prop} replay={path} no-failing-input-found')
    for i, w in sorted((r.get('known') or {}).items()):
        print(f'KNOWN-FINDING: property={prop} {w}')
    for u in undecided[:6]:
        print('undecided:', u[0], '-', str(u[1])[:300])
    from mirv import models as M
    used = sorted({p for p in (k.model_hits if k else {})})
    ext = sorted(k.externals) if k else []
    trusted = ['rustc nightly front end: MIR of the dev profile (opt-level 1 style checks on, overflow checks on)', 'mirv/engine.py symbolic executor and z3',
               'assumed contracts in mirv/models.py used by this property: ' + ', '.join(used)]
    if ext:
        trusted.append('functions treated as arbitrary (any result, may write its &mut arguments): ' + ', '.join(ext))
    cov = {'obligations': len(obl), 'discharged': len(ok), 'checker_cmd': f'python3-vt /verif/check.py {prop} {tier}', 'trusted_base': trusted,
           'clauses': clauses, 'functions_under_contract': sorted(set(k.functions)) if k else [], 'functions_inlined': sorted(k.inlined) if k else [],
           'paths': k.paths if k else 0, 'solver': 'z3 ' + z3v(), 'solver_s': round(k.solver_time, 2) if k else 0, 'solver_checks': k.nchecks if k else 0,
           'loops': [dict(fn=a, line=b, invariants=c, havocked=d) for a, b, c, d in (dedup(k.loops) if k else [])][:40],
           'per_contract': k.per_fn if k else {}, 'refuted': len(bad), 'undecided_obligations': len(und),
           'undecided': [list(map(str, u)) for u in undecided][:20],
           'degraded': bool(undecided or und),
           'bounded_stand_in': {'label': 'bounded: concrete cases on the rebuilt extension module, never counted as proved', 'evaluations': r.get('n', 0),
                                'distinct_nontrivial': r.get('nontrivial', 0), 'rule': r.get('rule', ''), 'samples': r.get('samples', []), 'failures': r.get('nfail', 0),
                                'secs': r.get('secs'), 'driver_error': r.get('driver_error')},
           'evaluations': r.get('n', 0), 'distinct_nontrivial': r.get('nontrivial', 0), 'rule': r.get('rule', ''), 'samples': r.get('samples', [])}
    if level == 'other':
        cov['explanation'] = 'see DESIGN.md'
    assumptions = [f'{M.DOC[f.__name__][1]} [{", ".join(p[:3])}]' for p, f in [] ] + \
        sorted({a for m in mods for a in getattr(m, 'ASSUMPTIONS', [])}) + \
        ['machine integers are exact mathematical integers with explicit range and overflow obligations; f64 is IEEE double (z3 FloatingPoint)',
         'unwinding paths (panic cleanup) are not explored; memory safety of unsafe code in dependencies is assumed',
         'callees listed as arbitrary may not mutate memory reachable only through shared references']
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(wall, 2), 'violations': violations}
    json.dump(ev, open(f'{EVID}/{prop}.json', 'w'), indent=1, default=str)
    print(f'{prop} {tier}: {len(ok)}/{len(obl)} obligations discharged ({len(clauses)} clauses, {len(set(k.functions)) if k else 0} functions), '
          f'{len(und)} undecided, {len(bad)} refuted; stand-in {r.get("n", 0)} cases, {r.get("nfail", 0)} failures; {wall:.1f}s')
    for l in lines:
        print(l)
    if not lines and r.get('driver_error') and not obl:
        sys.exit(2)
    sys.exit(1 if lines else 0)


def dedup(ls):
    out, seen = [], set()
    for l in ls:
        if (l[0], l[1]) not in seen:
            seen.add((l[0], l[1]))
            out.append(l)
    return out


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


if __name__ == '__main__':
    main()
