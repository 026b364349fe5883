#!/usr/bin/env python3
"""trybug.py ID... : confirms planted bugs of /verif/seeded in a scratch copy of /repo (bind-mounted over /repo in a user
namespace of its own): stable tests pass with the patch, the demonstration fails with it and passes without it.
With -c also runs the property's check against the patched copy."""
import sys,os,json,subprocess,re
S='/tmp/sd/r1'; V='/verif'
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**k)
def inns(c): return sh("unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && %s'"%(S,c))
def reset():
    if not os.path.exists(S): os.makedirs('/tmp/sd',exist_ok=True); sh('cp -a /repo '+S)
    sh('cd %s && git checkout -q -- . && git fetch -q /repo && git reset -q --hard $(git -C /repo rev-parse HEAD)'%S)
base=json.load(open('/opt/vp/BASELINE.json')); stable=set(base['stable'])
ids=[a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V+'/seeded'))
opt=[a for a in sys.argv[1:] if a.startswith('-')]
for i in ids:
    d='%s/seeded/%s'%(V,i); m=json.load(open(d+'/meta.json')); reset(); msg=[]
    if '-C' not in opt:
        sh('rm -rf /tmp/sd/demo; cp -r %s /tmp/sd/demo; rm -f /tmp/sd/demo/*.diff /tmp/sd/demo/meta.json'%d)
        r=inns('bash /opt/vp/build.sh >/dev/null 2>&1; bash /tmp/sd/demo/demo.sh'); msg.append('demo-clean rc=%d%s'%(r.returncode,'' if r.returncode==0 else ' BAD '+r.stdout[-600:]))
    a=sh('cd %s && git apply --check %s/patch.diff && git apply %s/patch.diff'%(S,d,d))
    if a.returncode: print(i,'PATCH DOES NOT APPLY',a.stdout); continue
    if '-C' not in opt:
        r=inns('bash /opt/vp/test.sh /tmp/sd/o.json'); o=json.load(open('/tmp/sd/o.json')); lost=sorted(stable-set(o['passed']))
        msg.append('tests lost=%d %s'%(len(lost),lost[:3]))
        r=inns('bash /tmp/sd/demo/demo.sh'); msg.append('demo-bug rc=%d%s'%(r.returncode,'' if r.returncode else ' BAD'))
    if '-c' in opt or '-C' in opt:
        r=sh('VERIF_REPO=%s python3 %s/check.py %s quick'%(S,V,m['property'])); v=[l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        ob=[l for l in r.stdout.split('\n') if l.startswith('OBLIGATION') or l.startswith('failed obl') or l.startswith('NOT PROVED')]
        msg.append('check rc=%d %s | %s'%(r.returncode,v,'; '.join(ob)[:300]))
    print(i,m['property'],' | '.join(msg),flush=True)
    reset()
