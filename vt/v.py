"""developer loop: v.py MODULE [KEY...] [-p]  translate and verify the given functions"""
import sys,importlib; sys.path[:0]=['/verif/vt','/verif/vt/modules']; sys.setrecursionlimit(20000)
from assemble import *
a=[x for x in sys.argv[1:] if not x.startswith('-')]; opt=[x for x in sys.argv[1:] if x.startswith('-')]
m=importlib.import_module(a[0]); p=Program(m); W='/tmp/vtw_'+a[0]; p.extract(W); p.translate()
for k,e in p.err.items(): print('ERR',k,e)
jobs=[]
def one(k):
    fn=W+'/%s.rs'%re.sub(r'\W','_',k)
    try: open(fn,'w').write(p.file_for(k))
    except Unsupported as e: return k,dict(status='unsupported',out=str(e),time=0,smt=0,verified=0,errors=0)
    return k,run_verus(fn,p.tr.fnname(k))
keys=a[1:] or [k for k in m.CONTRACTS if k in p.fns]
ex=cf.ThreadPoolExecutor(8)
if '-p' in opt or not a[1:]:
    fn=W+'/prelude.rs'; open(fn,'w').write(p.prelude_file()); r=run_verus(fn); print('prelude',r['status'],r['verified'],r['errors'],'%.1fs'%r['time']); 
    if r['status']!='proved': print(r['out'][:4000])
for k,r in ex.map(one,keys):
    print('%-28s %-8s v=%s e=%s %.1fs'%(k,r['status'],r['verified'],r['errors'],r['time']))
    if r['status']!='proved' and (a[1:] or '-v' in opt): print(r['out'][:5000])
