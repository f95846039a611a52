import json, subprocess, sys, threading
sys.path.insert(0, '/verif')
import check
if not check.ensure_driver():
    sys.exit(1)
h = check.source_hash()
box = {}
t = threading.Thread(target=lambda: box.update(so=check.ensure_so(h)))
t.start()
ok = True
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    p = c['property']
    # one extraction per property (each in its own process: the registry is per property)
    r = subprocess.run([sys.executable, '-c', f'import sys; sys.path.insert(0,"/verif"); import check; m=check.modules({p!r}); '
                        f'sys.exit(0 if (not m or check.ensure_mir({p!r}, check.cfg_for(m), {h!r})) else 1)'])
    ok = ok and r.returncode == 0
t.join()
print('setup', 'ok' if ok and box.get('so') else 'failed', box)
sys.exit(0 if ok and box.get('so') else 1)
