import sys,importlib; sys.path[:0]=['/verif/vt','/verif/vt/modules']; sys.setrecursionlimit(20000)
from assemble import *
m=importlib.import_module(sys.argv[1]); p=Program(m); p.extract('/tmp/vtw'); p.translate(sys.argv[2:] or None)
for k,e in p.err.items(): print('ERR',k,e)
for k in p.fns:
    try: open('/tmp/vtw/%s.rs'%re.sub(r'\W','_',k),'w').write(p.file_for(k))
    except Unsupported as e: print('ERR2',k,e)
    if sys.argv[2:]: print(p.header(k,False)+'{\n'+p.body(k)+'\n}')
