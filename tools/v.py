# usage: v.py C01 [-v]  run verification only, current tree
import sys, json, threading, time
sys.path.insert(0,'/verif')
sys.setrecursionlimit(100000)
threading.stack_size(768<<20)
import check
def main():
    prop=sys.argv[1]; dbg='-d' in sys.argv
    mods=check.modules(prop); h=check.source_hash()
    mir=check.ensure_mir(prop, check.cfg_for(mods), h)
    if not mir: print(open(f'/verif/build/mir-{prop}.log').read()[-3000:]); return
    from mirv import contract
    d=json.load(open(mir))
    only=[a[2:] for a in sys.argv if a.startswith('-o')]
    if only: contract.REGISTRY[prop]=[c for c in contract.REGISTRY[prop] if any(o in c.title for o in only)]
    t0=time.time()
    k=contract.Checker(prop,d,debug=dbg); k.run()
    cl={}
    for o in k.obl:
        c=cl.setdefault((o[0],o[1]),{}); c[o[2]]=c.get(o[2],0)+1
    for x,y in cl.items(): print(x,y)
    seen=set()
    for o in k.obl:
        if o[2]!='ok' and (o[0],o[1]) not in seen:
            seen.add((o[0],o[1])); print('>>',o[0],o[1],o[2],o[3],o[5],o[7][:3]); 
            if dbg: print(o[4][:1500])
    for u in k.undecided: print('UNDECIDED',u[0],str(u[1])[:500])
    for a,b in k.per_fn.items(): print(a,b)
    print('ext',k.externals); 
    if '-v' in sys.argv: print('inl',k.inlined); print('models',k.model_hits); print(k.loops)
    print(round(time.time()-t0,1),'s')
t=threading.Thread(target=main); t.start(); t.join()
