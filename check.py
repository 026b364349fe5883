#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property on /repo's current working tree:
  1. extracts the functions under contract from the current sources (clang AST -> Verus), puts their contracts on
     them, and has Verus discharge every obligation, function by function;
  2. runs vacuity guards (assert(false) at the entry and at the exits of each function must be refuted);
  3. runs the concrete bounded stage on the real headers (stand-in for what is outside the proved part, and
     replay of a failed obligation).
exit 0: held; exit 1 + VIOLATION line: broken."""
import sys, os, re, json, time, shutil, subprocess, tempfile, importlib, random, concurrent.futures as cf
HERE=os.path.dirname(os.path.abspath(__file__))
sys.path[:0]=[HERE+'/vt',HERE+'/vt/modules']; sys.setrecursionlimit(20000)
import assemble as A
from props import PROPS
REPO=os.environ.get('VERIF_REPO','/repo')
CXX=['g++-14','-std=c++20','-O1','-w','-D_GLIBCXX_ASSERTIONS','-fsanitize=address,undefined','-fno-sanitize-recover=all','-I'+REPO+'/include']

def cxx(h): # the multi_type_vector configurations are slow to compile: clang without optimisation
    return ['clang++-18' if x=='g++-14' else '-O0' if x=='-O1' else x for x in CXX] if h.startswith(('mtv','mtm')) else CXX

def log(*a): print(*a,flush=True)

class Check:
    def __init__(self,pid,tier):
        self.pid=pid; self.tier=tier; self.cfg=PROPS[pid]; self.seed=int(os.environ.get('VERIF_SEED','1') or 1)
        self.t0=time.time(); self.dir=tempfile.mkdtemp(prefix='vchk_%s_'%pid)
        self.rep=os.path.join(HERE,'evidence','replay'); os.makedirs(self.rep,exist_ok=True)
        self.thorough=tier=='thorough'
        self.known=[l.strip() for l in open(HERE+'/known_findings.txt')] if os.path.exists(HERE+'/known_findings.txt') else []
        self.assume=list(self.cfg.get('assumptions',[]))
    # ---------------- concrete stage
    def build(self,h):
        exe=os.path.join(self.dir,'hz_'+h)
        r=subprocess.run(cxx(h)+self.cfg.get('defs',[])+[HERE+'/harness/%s.cpp'%h,'-o',exe],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        return exe if r.returncode==0 else None, r.stdout[-4000:]
    def run_case(self,exe,h,case,secs,seed):
        rf=os.path.join(self.dir,'r_%s_%s_%d'%(h,case,seed))
        env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=0:abort_on_error=0',UBSAN_OPTIONS='print_stacktrace=1')
        try: r=subprocess.run([exe,'run',case,str(secs),str(seed),'1000000000',rf],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',timeout=secs*3+200,env=env)
        except subprocess.TimeoutExpired: return dict(h=h,case=case,rc=None,cases=0,nontrivial=0,distinct=0,ops=0,out='timeout')
        st=dict(h=h,case=case,rc=r.returncode,out=r.stdout,rf=rf,seed=seed,cases=0,nontrivial=0,distinct=0,ops=0)
        m=re.search(r'STATS cases=(\d+) nontrivial=(\d+) distinct=(\d+) ops=(\d+)',r.stdout)
        if m: st.update(cases=int(m[1]),nontrivial=int(m[2]),distinct=int(m[3]),ops=int(m[4]))
        return st
    def concrete(self,secs,seeds):
        jobs=[(h,c,s) for s in seeds for h,cs in self.cfg['harness'] for c in cs]
        out=[]
        with cf.ThreadPoolExecutor(8) as ex:
            fs=[]
            for h,c,s in jobs:
                exe=self.exe[h].result()[0]
                if exe is None: continue
                fs.append(ex.submit(self.run_case,exe,h,c,secs,s))
            for f in fs: out.append(f.result())
        return out
    def report_concrete(self,st):
        p=os.path.join(self.rep,'%s_%s_%s.txt'%(self.pid,st['h'],st['case']))
        tape=open(st['rf']).read() if os.path.exists(st.get('rf','')) else ''
        with open(p,'w') as f: f.write(tape+'\n')
        with open(p[:-4]+'.log','w') as f:
            f.write('replay: %s -o hz_%s %s/harness/%s.cpp && ./hz_%s replay %s\n\n%s'%(' '.join(cxx(st['h'])),st['h'],HERE,st['h'],st['h'],p,st['out']))
        log(st['out'][-3000:]); return p
    # ---------------- proof stage
    def proofs(self):
        self.res=[]; self.unproved=[]; self.canary=[]; self.progs=[]; self.clauses=dict(ensures=0,requires=0,invariants=0,asserts=0)
        for mod,keys in self.cfg.get('proof',[]):
            m=importlib.import_module(mod); p=A.Program(m,REPO)
            try: p.extract(os.path.join(self.dir,mod))
            except A.Unsupported as e:
                self.unproved+= [(mod,k,'extraction: %s'%e) for k in keys]; continue
            # the functions under contract that these depend on, too
            p.translate()
            todo=list(keys); clo=[]
            while todo:
                k=todo.pop()
                if k in clo: continue
                clo.append(k)
                if k in p.fns: todo+=list(p.fns[k].calls)
            self.progs.append((p,mod,clo))
        jobs=[]
        for p,mod,clo in self.progs:
            d=os.path.join(self.dir,mod)
            fn=d+'/prelude.rs'; open(fn,'w').write(p.prelude_file()); jobs.append(('prelude',mod,'prelude',fn,None,None))
            for k in clo:
                c=p.mod.CONTRACTS.get(k)
                if c is None: continue
                if c.get('trusted'):
                    self.assume.append('%s: contract assumed, not proved (%s)'%(k,c['trusted'])); continue
                if k not in p.fns: self.unproved.append((mod,k,p.err.get(k,'not translated'))); continue
                try:
                    for can in (None,'entry','exit'):
                        fn=d+'/%s%s.rs'%(re.sub(r'\W','_',k),'_'+can if can else '')
                        txt=p.file_for(k,can)
                        if can is None and re.search(r'\b(assume|admit)\s*\(',txt): self.unproved.append((mod,k,'assume/admit in the proof text'))
                        open(fn,'w').write(txt)
                        if can is None:
                            i=txt.index('pub fn '+p.tr.fnname(k)+'(') if 'pub fn '+p.tr.fnname(k)+'(' in txt else 0
                            own=txt[i:]
                            self.clauses['asserts']+=len(re.findall(r'\bassert\(',own)); self.clauses['invariants']+=len(p.mod.CONTRACTS[k].get('loops',[]))
                            self.clauses['ensures']+=len(A.clauses(c.get('ensures'))); self.clauses['requires']+=len(A.clauses(c.get('requires')))
                        jobs.append((can or 'proof',mod,k,fn,p.tr.fnname(k),c))
                except A.Unsupported as e:
                    self.unproved.append((mod,k,str(e))); jobs=[j for j in jobs if not (j[1]==mod and j[2]==k)]
        def one(j):
            kind,mod,k,fn,name,c=j
            if kind in('entry','exit'): return j,A.run_verus(fn,name,rlimit=5,timeout=120)
            rl=None
            r=A.run_verus(fn,name,timeout=300)
            if r['status']=='undecided': # the solver gave up, which says nothing about the code: try harder once
                txt=open(fn).read(); r0=r
                open(fn,'w').write(re.sub(r'rlimit\((\d+)\)',lambda m:'rlimit(%d)'%(4*int(m[1])),txt))
                r=A.run_verus(fn,name,rlimit=40,timeout=240)
                if r['status']=='undecided': r['errors']=r0['errors']
            return j,r
        jobs.sort(key=lambda j:(j[0]!='proof',-(j[5] or {}).get('rlimit',0)))
        with cf.ThreadPoolExecutor(8) as ex:
            for j,r in ex.map(one,jobs):
                kind,mod,k,fn,name,c=j
                if kind in('proof','prelude'): self.res.append((mod,k,r,fn))
                else: self.canary.append((mod,k,kind,r))
    def main(self):
        ex=cf.ThreadPoolExecutor(16)
        self.exe={h:ex.submit(self.build,h) for h,_ in self.cfg['harness']}
        pf=ex.submit(self.proofs)
        secs=self.cfg.get('secs',8)*(12 if self.thorough else 1)
        conc=self.concrete(secs,[self.seed] if not self.thorough else [self.seed,self.seed+1])
        broken=[(h,f.result()[1]) for h,f in self.exe.items() if f.result()[0] is None]
        pf.result()
        viol=None; notes=[]
        for st in conc:
            if st['rc'] not in(0,None):
                p=self.report_concrete(st); viol='VIOLATION property=%s replay=%s'%(self.pid,p); break
        # failed obligations
        failed=[(m,k,r,fn) for m,k,r,fn in self.res if r['status']=='failed']
        for m,k,r,fn in self.res:
            if r['status'] in('broken','timeout','undecided'): self.unproved.append((m,k,'the contract does not bind to the current code or the verifier gave no answer: %s'%r['out'][:300]))
        failed_keys={(m,k) for m,k,_,_ in failed}
        vac=[]
        for m,k,kind,r in self.canary:
            if r['status']=='proved' and (m,k) not in failed_keys and not any(u[:2]==(m,k) for u in self.unproved):
                vac.append((m,k,kind))
        if viol is None and (failed or vac):
            log('failed obligations: %s; vacuous: %s'%(', '.join(k for _,k,_,_ in failed),vac))
            more=self.concrete(self.cfg.get('hunt',40),[self.seed+100+i for i in range(2)])
            conc+=more
            for st in more:
                if st['rc'] not in(0,None):
                    p=self.report_concrete(st); viol='VIOLATION property=%s replay=%s'%(self.pid,p); break
            if viol is None:
                p=os.path.join(self.rep,'%s_obligation.txt'%self.pid)
                with open(p,'w') as f:
                    for m,k,r,fn in failed:
                        f.write('failed obligation of %s (module %s)\n%s\n\n%s\n\n==== verified text ====\n%s\n'%(k,m,r.get('cmd'),r['out'],open(fn).read()))
                    for m,k,kind in vac: f.write('%s of %s (module %s) is unreachable: the function never %s\n'%(kind,k,m,'returns normally' if kind=='exit' else 'gets past its precondition'))
                for m,k,r,fn in failed: log('OBLIGATION %s.%s: %s'%(m,k,'; '.join(re.findall(r'^error: (.*)$',r['out'],re.M)[:4])))
                viol='VIOLATION property=%s replay=%s no-failing-input-found'%(self.pid,p)
        if broken and viol is None:
            for h,o in broken: log('the concrete stage %s does not build against the current tree:\n%s'%(h,o[:1500]))
        proved=[(m,k,r) for m,k,r,_ in self.res if r['status']=='proved']
        for u in self.unproved: log('NOT PROVED (bounded stage only): %s %s: %s'%u)
        self.evidence(conc,proved,failed,vac,viol,broken)
        for l in self.known:
            if l.startswith('KNOWN-FINDING: property=%s '%self.pid): log(l)
        shutil.rmtree(self.dir,ignore_errors=True)
        log('%s: %d/%d verification units proved, %d functions under contract, %d concrete cases, %.0f s'%(self.pid,sum(r['verified'] for _,_,r in proved),sum(r['verified']+r['errors'] for _,_,r,_ in self.res),len([1 for _,k,_ in proved if k!='prelude']),sum(s['cases'] for s in conc),time.time()-self.t0))
        if viol: log(viol); return 1
        return 0
    def evidence(self,conc,proved,failed,vac,viol,broken):
        fu=[]; reg={}
        for m,k,r in proved:
            fu.append('%s (%d units, smt %.2f s)'%(k if k!='prelude' else m+' lemmas',r['verified'],r['smt']))
        trusted=['Verus 0.2026.09.13 and its Z3 back end','clang 18 AST (C++ parsing, overload resolution, template instantiation)','/verif/vt/cxx2verus.py translation of the C++ AST to Verus (see DESIGN.md: what it drops)','/verif/vt/assemble.py memory primitives and library models (std::vector, iterators, std::pair)']
        cov=dict(obligations=sum(r['verified']+r['errors'] for _,_,r,_ in self.res),discharged=sum(r['verified'] for _,_,r,_ in self.res),
            checker_cmd='verus FILE.rs --verify-root --verify-function FN (one file per function under contract, regenerated from %s on every run)'%REPO,
            trusted_base=trusted+['assumed contract: '+a for a in self.assume if 'assumed' in a],
            functions_under_contract=fu, clauses=self.clauses, solver_s=round(sum(r['smt'] for _,_,r,_ in self.res),2), backend='Verus/Z3',
            not_proved=['%s.%s: %s'%(m,k,w) for m,k,w in self.unproved]+['%s.%s: obligation failed'%(m,k) for m,k,_,_ in failed],
            vacuity_guards=dict(run=len(self.canary),refuted_as_required=sum(1 for c in self.canary if c[3]['status']!='proved'),vacuous=['%s.%s %s'%v for v in vac]),
            bounded_stage=dict(label='bounded, not counted as proved',evaluations=sum(s['cases'] for s in conc),distinct_nontrivial=sum(s['distinct'] for s in conc),operations=sum(s['ops'] for s in conc),
                cases=['%s/%s seed %s: %d cases'%(s['h'],s['case'],s.get('seed'),s['cases']) for s in conc],
                rule='random operation histories from a seeded tape against a plain reference model, with AddressSanitizer, UBSan, debug assertions and a leak check; a case is non-trivial when it reached a state that exercises the property, distinct by tape',
                not_built=[h for h,_ in broken]))
        if self.cfg['level']!='proof':
            cov['evaluations']=cov['bounded_stage']['evaluations']; cov['distinct_nontrivial']=cov['bounded_stage']['distinct_nontrivial']; cov['rule']=cov['bounded_stage']['rule']
            cov['explanation']=self.cfg['note']; cov['samples']=['%s/%s seed %s'%(s['h'],s['case'],s.get('seed')) for s in conc]
        ev=dict(property=self.pid,tier=self.tier,seed=self.seed,level=self.cfg['level'],coverage=cov,
            assumptions=self.assume+GENERAL,wall_s=round(time.time()-self.t0,1),violations=1 if viol else 0)
        json.dump(ev,open(HERE+'/evidence/%s.json'%self.pid,'w'),indent=1)
GENERAL=['memory is modelled as typed field maps per class; reference counts are dropped (objects stay allocated while reachable), out-of-memory and exceptions from library calls are not modelled; the sanitizer stage covers these within its bound',
 'loops without a decreases clause are proved partially correct only; non-termination is covered by the exit guards and the time limit of the bounded stage',
 'templates are verified for the instantiations in the module drivers; value and key types are opaque with a total equality']
if __name__=='__main__':
    tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get('VERIF_TIER','quick')
    sys.exit(Check(sys.argv[1],tier).main())
