"""usage: learn.py            - runs every contract on the reference tree and records which opaque callees and how many loops they meet
(mirv/known_externals.json, mirv/known_loops.json). A refutation that rests on another opaque callee or another number of loops is undecided."""
import sys, json, os, threading, subprocess, glob
sys.path.insert(0, '/verif')
sys.setrecursionlimit(100000)
threading.stack_size(768 << 20)
OUT = '/verif/build/learn'


def one(prop):
    import check
    from mirv import contract, known
    known._l = {}
    known.LEARN = set()
    mods = check.modules(prop)
    mir = check.ensure_mir(prop, check.cfg_for(mods), check.source_hash())
    k = contract.Checker(prop, json.load(open(mir)), budget=900)
    k.run()
    json.dump({'ext': sorted(known.LEARN), 'loops': k.n_loops, 'bad': [o[:2] for o in k.obl if o[2] != 'ok'], 'und': k.undecided}, open(f'{OUT}/{prop}.json', 'w'), default=str)


if len(sys.argv) > 1:
    t = threading.Thread(target=one, args=(sys.argv[1],))
    t.start()
    t.join()
else:
    os.makedirs(OUT, exist_ok=True)
    props = sorted(os.path.basename(f)[:3].upper() for f in glob.glob('/verif/contracts/c[0-9][0-9]_*.py'))
    run = []
    for p in props:
        if os.path.exists(f'{OUT}/{p}.json'):
            os.unlink(f'{OUT}/{p}.json')
    from concurrent.futures import ThreadPoolExecutor
    threading.stack_size(0)
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(lambda p: subprocess.run([sys.executable, __file__, p]), props))
    ext, loops = set(), {}
    for p in props:
        d = json.load(open(f'{OUT}/{p}.json'))
        ext |= set(d['ext'])
        loops[p] = d['loops']
        if d['bad'] or d['und']:
            print(p, d['bad'][:3], d['und'][:3])
    json.dump(sorted(ext), open('/verif/mirv/known_externals.json', 'w'), indent=0)
    json.dump(loops, open('/verif/mirv/known_loops.json', 'w'), indent=0, sort_keys=True)
    print(len(props), 'properties', len(ext), 'opaque callees', sum(len(x) for x in loops.values()), 'contracts')
