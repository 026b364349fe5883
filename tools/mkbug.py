"""mkbug(id, prop, [(file, old, new[, nth])], needs, breaks, demo_cpp): writes /verif/seeded/<id>/"""
import os,subprocess,json,tempfile,shutil
def mkbug(i,prop,edits,needs,breaks,demo,flags=''):
    d='/verif/seeded/'+i; os.makedirs(d,exist_ok=True)
    t=tempfile.mkdtemp(); 
    subprocess.run(['git','-C','/repo','worktree','list'],stdout=subprocess.DEVNULL)
    subprocess.run('git -C /repo archive HEAD include | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x'%(t,t),shell=True,check=True)
    for e in edits:
        f,old,new=e[:3]; p=t+'/include/mdds/'+f; s=open(p).read(); n=s.count(old)
        k=e[3] if len(e)>3 else 0
        assert n>=1 and (n==1 or len(e)>3),(i,f,n)
        pos=-1
        for _ in range(k+1): pos=s.index(old,pos+1)
        s=s[:pos]+new+s[pos+len(old):]; open(p,'w').write(s)
    diff=subprocess.run(['git','diff'],cwd=t,stdout=subprocess.PIPE,text=True).stdout
    assert diff
    open(d+'/patch.diff','w').write(diff); open(d+'/demo.cpp','w').write(demo)
    open(d+'/demo.sh','w').write('#!/bin/bash\n# exit 0: behaves as stated; nonzero: the property is broken\nd=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\ng++-14 -std=c++20 -g %s -I/repo/include "$d/demo.cpp" -o "$t/demo" || exit 3\ntimeout 60 "$t/demo"\n'%flags)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(t)
HEAD='''#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
#include <map>
#include <memory>
#define REQUIRE(c) do { if (!(c)) { std::printf("FAILED line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
'''
