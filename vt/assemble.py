"""Turns translated functions + contracts into Verus files and runs the verifier on each of them."""
import os, re, json, subprocess, time, hashlib, concurrent.futures as cf
from cxx2verus import *

LIB = r'''
#![allow(unused_imports, unused_variables, unused_mut, unused_assignments, dead_code, unused_parens, unused_braces, unreachable_code, non_camel_case_types, non_snake_case)]
use vstd::prelude::*;
use vstd::seq_lib::*;
use vstd::set_lib::*;
use vstd::multiset::*;
use vstd::imap::*;
verus! {
global size_of usize == 8;
pub type Ptr = u64;

// ---- values of std::vector (library model; element access requires the index in range)
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct CVec<T> { p: core::marker::PhantomData<T> }
impl<T> CVec<T> { pub uninterp spec fn view(&self) -> Seq<T>; }
impl<T> Clone for CVec<T> { #[verifier::external_body] fn clone(&self) -> Self { CVec { p: core::marker::PhantomData } } }
impl<T> Copy for CVec<T> {}
#[verifier::external_body] pub broadcast proof fn cvec_len_bound<T>(v: CVec<T>) ensures #[trigger] v@.len() <= 0x0fff_ffff_ffff_ffff {}
#[verifier::external_body] pub fn cvec_eq<T>(a: &CVec<T>, b: &CVec<T>) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn cvec_empty<T>() -> (r: CVec<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body] pub fn cvec_nondet<T>() -> (r: CVec<T>) { unimplemented!() }
impl<T: Copy> CVec<T> {
    #[verifier::external_body] pub fn len(&self) -> (r: u64) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, i: u64) -> (r: T) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn set(&self, i: u64, v: T) -> (r: CVec<T>) requires i < self@.len() ensures r@ == self@.update(i as int, v) { unimplemented!() }
    #[verifier::external_body] pub fn push(&self, v: T) -> (r: CVec<T>) ensures r@ == self@.push(v) { unimplemented!() }
    #[verifier::external_body] pub fn pop(&self) -> (r: CVec<T>) requires self@.len() > 0 ensures r@ == self@.drop_last() { unimplemented!() }
    #[verifier::external_body] pub fn begin(&self) -> (r: CIt<T>) ensures r.v == *self, r.i == 0 { unimplemented!() }
    #[verifier::external_body] pub fn end(&self) -> (r: CIt<T>) ensures r.v == *self, r.i == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn insert_at(&self, i: u64, v: T) -> (r: CVec<T>) requires i <= self@.len() ensures r@ == self@.insert(i as int, v) { unimplemented!() }
    #[verifier::external_body] pub fn insert_n(&self, i: u64, n: u64, v: T) -> (r: CVec<T>) requires i <= self@.len()
        ensures r@ == self@.subrange(0, i as int) + Seq::new(n as nat, |k: int| v) + self@.subrange(i as int, self@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn insert_range(&self, i: u64, a: CIt<T>, b: CIt<T>) -> (r: CVec<T>) requires i <= self@.len(), a.v@ == b.v@, a.i <= b.i <= a.v@.len()
        ensures r@ == self@.subrange(0, i as int) + a.v@.subrange(a.i as int, b.i as int) + self@.subrange(i as int, self@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn erase_range(&self, i: u64, j: u64) -> (r: CVec<T>) requires i <= j <= self@.len()
        ensures r@ == self@.subrange(0, i as int) + self@.subrange(j as int, self@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn resized(&self, n: u64, v: T) -> (r: CVec<T>)
        ensures r@ == (if n <= self@.len() { self@.subrange(0, n as int) } else { self@ + Seq::new((n - self@.len()) as nat, |k: int| v) }) { unimplemented!() }
}
// ---- random-access iterators: the vector value they were taken from, and an index
#[verifier::reject_recursive_types(T)]
pub struct CIt<T> { pub v: CVec<T>, pub i: u64 }
impl<T> Clone for CIt<T> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl<T> Copy for CIt<T> {}
#[verifier::external_body] pub fn cit_nondet<T>() -> (r: CIt<T>) { unimplemented!() }
impl<T: Copy> CIt<T> {
    #[verifier::external_body] pub fn inc(&self) -> (r: CIt<T>) requires self.i < self.v@.len() ensures r.v == self.v, r.i == self.i + 1 { unimplemented!() }
    #[verifier::external_body] pub fn dec(&self) -> (r: CIt<T>) requires self.i > 0 ensures r.v == self.v, r.i == self.i - 1 { unimplemented!() }
    #[verifier::external_body] pub fn add(&self, n: i64) -> (r: CIt<T>) requires 0 <= self.i + n <= self.v@.len() ensures r.v == self.v, r.i == self.i + n { unimplemented!() }
    #[verifier::external_body] pub fn diff(&self, o: CIt<T>) -> (r: i64) requires self.v == o.v ensures r == self.i - o.i { unimplemented!() }
    #[verifier::external_body] pub fn deref(&self) -> (r: T) requires self.i < self.v@.len() ensures r == self.v@[self.i as int] { unimplemented!() }
    #[verifier::external_body] pub fn same(&self, o: CIt<T>) -> (r: bool) requires self.v@ == o.v@ ensures r == (self.i == o.i) { unimplemented!() }
}
// ---- optional out-parameters (T* that may be null)
pub struct OutP<T> { pub nn: bool, pub v: T }
impl<T: Copy> Clone for OutP<T> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl<T: Copy> Copy for OutP<T> {}
#[verifier::external_body] pub fn outp_null<T: Copy>() -> (r: OutP<T>) ensures !r.nn { unimplemented!() }
#[verifier::external_body] pub fn outp_some<T: Copy>(v: T) -> (r: OutP<T>) ensures r.nn, r.v == v { unimplemented!() }
impl<T: Copy> OutP<T> {
    #[verifier::external_body] pub fn get(&self) -> (r: T) requires self.nn ensures r == self.v { unimplemented!() }
    #[verifier::external_body] pub fn set(&mut self, x: T) requires old(self).nn ensures final(self).nn, final(self).v == x { unimplemented!() }
}
// ---- assert() and throw
#[verifier::external_body] pub fn cxx_assert_fail() -> ! requires false { unimplemented!() }
#[verifier::external_body] pub fn cxx_unexpected_throw() -> ! requires false { unimplemented!() }
#[verifier::external_body] pub fn cxx_throw() -> ! { unimplemented!() }
'''
for a in RNG:
    LIB += '#[verifier::external_body] pub fn nondet_%s() -> (r: %s) { unimplemented!() }\n'%(a,a)
    for b in RNG:
        if a!=b and not (RNG[a][0]>=RNG[b][0] and RNG[a][1]<=RNG[b][1]):
            LIB += '#[verifier::external_body] pub fn cast_%s_%s(x: %s) -> (r: %s) requires %d <= x <= %d ensures r as int == x as int { unimplemented!() }\n'%(a,b,a,b,max(RNG[a][0],RNG[b][0]),min(RNG[a][1],RNG[b][1]))
LIB += '''
// u64 arithmetic with a converted i64 operand wraps modulo 2^64: exact whenever the mathematical result is in range
#[verifier::external_body] pub fn wadd_u64_i64(a: u64, d: i64) -> (r: u64) requires 0 <= a + d <= u64::MAX ensures r == a + d { unimplemented!() }
#[verifier::external_body] pub fn wsub_u64_i64(a: u64, d: i64) -> (r: u64) requires 0 <= a - d <= u64::MAX ensures r == a - d { unimplemented!() }
#[verifier::external_body] pub fn neg_u64_i64(a: u64) -> (r: i64) requires a <= 0x7fff_ffff_ffff_ffff ensures r == -(a as int) { unimplemented!() }
#[verifier::external_body] pub fn mask_i64(a: i64, m: i64) -> (r: i64) requires a >= 0, m >= 0 ensures r == a % ((m + 1) as i64), 0 <= r <= m { unimplemented!() }
#[verifier::external_body] pub fn mask_u64(a: u64, m: u64) -> (r: u64) requires m < u64::MAX ensures r == a % ((m + 1) as u64), r <= m { unimplemented!() }
'''
LIB += '#[verifier::external_body] pub fn nondet_bool() -> (r: bool) { unimplemented!() }\n'

def sub_spec(s,pre):
    """H0 / H in a requires or ensures clause"""
    if pre: return re.sub(r'\bH0?\b','old(h)@',s)
    return re.sub(r'\bH\b','final(h)@',re.sub(r'\bH0\b','old(h)@',s))
def sub_spec_ro(s): return re.sub(r'\bH0?\b','h@',s)
def sub_body(s): return re.sub(r'\bH\b','h@',re.sub(r'\bH0\b','h0',s))
def clauses(c): return [c] if isinstance(c,str) and c else list(c or [])

class Program:
    def __init__(self, mod, repo='/repo'):
        self.mod=mod; self.repo=repo; self.err={}
    # ---- clang
    def extract(self, work):
        os.makedirs(work,exist_ok=True)
        drv=os.path.join(work,self.mod.NAME+'.cpp'); js=os.path.join(work,self.mod.NAME+'.json')
        open(drv,'w').write(self.mod.DRIVER)
        cmd=['clang++-18','-std=c++20','-I'+self.repo+'/include','-fsyntax-only','-w','-Xclang','-ast-dump=json','-Xclang','-ast-dump-filter=mdds',drv]
        with open(js,'w') as f: r=subprocess.run(cmd,stdout=f,stderr=subprocess.PIPE,text=True)
        if r.returncode!=0: raise Unsupported('clang: '+r.stderr[-800:])
        self.ast=AST(load_docs(js),self.mod); os.unlink(js)
        self.tr=Translator(self.mod,self.ast)
    # ---- names of parameters and locals on the baseline: a consistent renaming must not unbind the contract
    def baseline(self):
        if not hasattr(self,'_bl'):
            p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'baseline',self.mod.NAME+'.json')
            self._bl=json.load(open(p)) if os.path.exists(p) else {}
        return self._bl
    def save_baseline(self):
        p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'baseline',self.mod.NAME+'.json')
        os.makedirs(os.path.dirname(p),exist_ok=True)
        json.dump({k:[list(l) for l in x.locals] for k,x in sorted(self.fns.items())},open(p,'w'),indent=0,sort_keys=True)
    def translate1(self,key):
        self.tr.rename={}; bl=self.baseline().get(key)
        if bl is None: return self.tr.translate(key)
        self.tr.lenient=True
        try: x=self.tr.translate(key)
        finally: self.tr.lenient=False
        cur=[tuple(l) for l in x.locals]; base=[tuple(l) for l in bl]
        cn={n for n,_ in cur}; bn={n for n,_ in base}
        gone=[l for l in base if l[0] not in cn]; new=[l for l in cur if l[0] not in bn]
        for n,t in gone:
            for q in new:
                if q[1]==t: self.tr.rename[q[0]]=n; new.remove(q); break
        try: return self.tr.translate(key)
        finally: self.tr.rename={}
    # ---- translation of every function under contract
    def translate(self, keys=None):
        self.fns={}
        miss=dict(self.tr.missing)
        for key in self.mod.CONTRACTS:
            if keys is not None and key not in keys: continue
            if key in miss:
                self.err[key]='not found in the current sources (%d candidates)'%miss[key]; continue
            try: self.fns[key]=self.translate1(key)
            except Unsupported as e: self.err[key]='outside the translated subset: %s'%e
            except RecursionError as e: self.err[key]='translator recursion'
            except (KeyError,IndexError,AttributeError,TypeError,ValueError) as e:
                self.err[key]='translator: %s %s'%(type(e).__name__,e)
                if os.environ.get('VT_DEBUG'): raise
        # transitive write sets
        for k,x in self.fns.items():
            for g in self.mod.CONTRACTS[k].get('at',{}).values():
                for w in re.findall(r'\bgset_(\w+)\(',g): x.writes.add(w)
            for l in self.mod.CONTRACTS[k].get('loops',[]):
                for g in l.values():
                    if isinstance(g,str):
                        for w in re.findall(r'\bgset_(\w+)\(',g): x.writes.add(w)
        # ghost writes inside loops are attributed to every loop (coarse, sound)
        self.W={k:set(x.writes) for k,x in self.fns.items()}
        for k,c in self.mod.CONTRACTS.items():
            if 'writes' in c: self.W.setdefault(k,set()).update(c['writes'])
            self.W.setdefault(k,set())
        ch=True
        while ch:
            ch=False
            for k,x in self.fns.items():
                for c in x.calls:
                    n=self.W[k]|self.W.get(c,set())
                    if n!=self.W[k]: self.W[k]=n; ch=True
        for k in self.err:
            # unknown body: everything may be written
            pass
    def allfields(self):
        out=[]
        seen=set()
        for cls,fl in self.tr.heap.items():
            if cls not in self.mod.ABSTRACT: out.append(('al_'+cls,'Set<Ptr>'))
            for n,t in fl:
                o=self.mod.FIELD_OWNER.get((cls,n),cls); nm='%s_%s'%(o,n)
                if nm in seen: continue
                seen.add(nm); out.append((nm,'Map<Ptr, %s>'%rust(t)))
        for n,t in self.mod.GHOST: out.append((n,'Map<Ptr, %s>'%t if not t.startswith('!') else t[1:]))
        return out
    def heap_text(self):
        t=self.tr; o=[]
        for n in self.mod.OPAQUE:
            o.append('#[derive(PartialEq, Eq, Clone, Copy)] pub struct %s { pub id: u64 }'%n)
            o.append('#[verifier::external_body] pub fn eq_%s(a: %s, b: %s) -> (r: bool) ensures r == (a == b) { unimplemented!() }'%(n,n,n))
            o.append('#[verifier::external_body] pub fn nondet_%s() -> (r: %s) { unimplemented!() }'%(n,n))
            o.append('pub uninterp spec fn spec_default_%s() -> %s;'%(n,n))
            o.append('#[verifier::external_body] pub fn default_%s() -> (r: %s) ensures r == spec_default_%s() { unimplemented!() }'%(n,n,n))
        for n,fl in list(t.recs.items())+list(t.T.pairs.items()):
            o.append('#[derive(Clone, Copy)] pub struct %s { %s }'%(n,', '.join('pub %s: %s'%(fieldn(a),rust(b)) for a,b in fl)))
            # members that are fixed-size arrays (modelled as sequences) always have their length
            al=['r.%s@.len() == %s'%('.'.join(fieldn(b) for b in a.split('.')),q) for a,q in self.mod.__dict__.get('ARRAYS',{}).get(n,[])]
            o.append('#[verifier::external_body] pub fn nondet_%s() -> (r: %s)%s { unimplemented!() }'%(n,n,' ensures '+', '.join(al) if al else ''))
        fs=self.allfields()
        if fs:
            o.append('#[verifier::ext_equal] pub ghost struct Heap { %s }'%', '.join('pub %s: %s'%(a,b) for a,b in fs))
            done=set()
            for cls,fl in t.heap.items():
                for n,ty in fl:
                    ow=self.mod.FIELD_OWNER.get((cls,n),cls); nm='%s_%s'%(ow,n)
                    if nm in done: continue
                    done.add(nm)
                    al=' || '.join('%%s.al_%s.contains(p)'%c for c in self.mod.OWNER_ALLOC.get(ow,[ow]))
                    o.append('#[verifier::external_body] pub fn ld_%s(h: &Ghost<Heap>, p: Ptr) -> (r: %s) requires %s ensures r == h@.%s[p] { unimplemented!() }'%(nm,rust(ty),al.replace('%s','h@'),nm))
                    o.append('#[verifier::external_body] pub fn st_%s(h: &mut Ghost<Heap>, p: Ptr, v: %s) requires %s ensures final(h)@ == (Heap { %s: old(h)@.%s.insert(p, v), ..old(h)@ }) { unimplemented!() }'%(nm,rust(ty),al.replace('%s','old(h)@'),nm,nm))
                fresh=' && '.join('!old(h)@.al_%s.contains(p)'%c for c in t.heap if c not in self.mod.ABSTRACT)
                if cls in self.mod.ABSTRACT: continue
                o.append('#[verifier::external_body] pub fn new_%s(h: &mut Ghost<Heap>) -> (p: Ptr) ensures p != 0, %s%s, final(h)@ == (Heap { al_%s: old(h)@.al_%s.insert(p), ..old(h)@ }) { unimplemented!() }'%(cls,fresh,self.mod.ALLOC_FACT.get(cls,''),cls,cls))
                o.append('#[verifier::external_body] pub fn delete_%s(h: &mut Ghost<Heap>, p: Ptr) requires old(h)@.al_%s.contains(p) ensures final(h)@ == (Heap { al_%s: old(h)@.al_%s.remove(p), ..old(h)@ }) { unimplemented!() }'%(cls,cls,cls,cls))
            for n,ty in self.mod.GHOST:
                if ty.startswith('!'): o.append('#[verifier::external_body] pub fn gset_%s(h: &mut Ghost<Heap>, v: Ghost<%s>) ensures final(h)@ == (Heap { %s: v@, ..old(h)@ }) { unimplemented!() }'%(n,ty[1:],n))
                else: o.append('#[verifier::external_body] pub fn gset_%s(h: &mut Ghost<Heap>, p: Ptr, v: Ghost<%s>) ensures final(h)@ == (Heap { %s: old(h)@.%s.insert(p, v@), ..old(h)@ }) { unimplemented!() }'%(n,ty,n,n))
        else:
            o.append('pub ghost struct Heap { pub unit: int }')
        return '\n'.join(o)
    def ro(self,k): return not self.W[k]
    def sig(self,k):
        f=self.tr.fn_by_key[k]
        return self.fns[k].params
    def split_of(self,k):
        from itertools import product
        return list(product(*self.mod.CONTRACTS[k]['split']))
    def header(self,k,external,name=None,drop_ens=False,extra=()):
        c=self.mod.CONTRACTS[k]; x=self.fns[k]; ro=self.ro(k)
        ps=['h: &%sGhost<Heap>'%('' if ro else 'mut ')]+['%s: %s'%(n,t) for n,t,_ in x.params]
        rt=self.tr.rty(self.tr.fn_by_key[k])
        s='pub fn %s(%s)%s\n'%(name or self.tr.fnname(k),', '.join(ps),' -> (%s: %s)'%('RES' if any(q[0]=='r' for q in x.params) else 'r',rust(rt)) if rt[0]!='void' else '')
        sp=(lambda t,pre: sub_spec_ro(t)) if ro else sub_spec
        req=[sp(t,True) for t in clauses(c.get('requires'))+list(extra)]
        ens=[sp(t,False) for t in clauses(c.get('ensures'))]
        if not ro:
            for n,_ in self.allfields():
                if n not in self.W[k]: ens.append('final(h)@.%s == old(h)@.%s'%(n,n))
        if 'throws' in c: ens.append('!(%s)'%sp(c['throws'],True))
        if req: s+='    requires\n'+''.join('        %s,\n'%q for q in req)
        if ens and not drop_ens: s+='    ensures\n'+''.join('        %s,\n'%q for q in ens)
        if c.get('decreases') and not external: s+='    decreases %s\n'%sp(c['decreases'],True)
        return s
    def body(self,k,canary=None):
        c=self.mod.CONTRACTS[k]; x=self.fns[k]; ro=self.ro(k)
        out=[]; ghost=lambda t: sub_body(t)
        lw={}
        if not ro: out.append('    let ghost h0 = h@;')
        else: out.append('    let ghost h0 = h@;')
        for p,t,_ in x.params:
            if not t.startswith('&'): out.append('    let ghost %s__0 = %s;'%(p,p))
        if canary=='entry' and not c.get('cuts'): out.append('    assert(false);')
        loops=c.get('loops',[])
        cw={k2:self.W[k2] for k2 in self.W}
        gw=set()
        for a,g in c.get('at',{}).items():
            if a not in('entry','exit'): gw|=set(re.findall(r'\bgset_(\w+)\(',g))
        for l in c.get('loops',[]):
            for g in l.values():
                if isinstance(g,str): gw|=set(re.findall(r'\bgset_(\w+)\(',g))
        for l in x.body:
            if isinstance(l,str):
                out.append('    '+l); continue
            t=l[0]
            if t=='@@G': out.append(ghost(l[1]))
            elif t=='@@CALL':
                _,key,_,pre,args=l
                out.append('    %s%s(%s);'%(pre,self.tr.fnname(key),', '.join(['h']+args)))
            elif t=='@@CALLTHROW':
                _,key,args=l
                cc=self.mod.CONTRACTS[key]; cond=cc['throws']
                names=[p[0] for p in self.fns[key].params] if key in self.fns else None
                if names is None: raise Unsupported('throwing callee')
                m={n:re.sub(r'^&mut ','',a) for n,a in zip(names,args)}
                cond=re.sub(r'\b(%s)\b'%'|'.join(map(re.escape,names)),lambda q:'('+m[q.group(1)]+')',cond)
                cond=re.sub(r'\bH0?\b','h@',cond)
                mine=c.get('throws')
                if mine is None: out.append('    assert(!(%s));'%cond)
                else: out.append('    assert((%s) ==> ((%s) && %s));'%(cond,re.sub(r'\bH0?\b','h0',mine),c.get('throw_unchanged','h@ == h0')))
            elif t=='@@THROW':
                out.append('    assert(%s); assert(%s);'%(re.sub(r'\bH0?\b','h0',l[1]),c.get('throw_unchanged','h@ == h0')))
                out.append('    cxx_throw();')
            elif t=='@@LHEAD':
                L=l[1]; ws=set()
                for w in l[2]:
                    if isinstance(w,tuple): ws|=self.W.get(w[1],set())
                    else: ws.add(w)
                ws|=gw
                spec=loops[L-1] if L-1<len(loops) else {}
                out.append('    let ghost hl%d = h@;'%L)
                if spec.get('before'): out.append(ghost(spec['before']))
                inv=[ghost(q) for q in clauses(spec.get('inv'))]
                if not ro:
                    inv+=['h@.%s == hl%d.%s'%(n,L,n) for n,_ in self.allfields() if n not in ws]
                out.append('    loop')
                if spec.get('xb'): out.append('        invariant_except_break\n'+''.join('            %s,\n'%ghost(q) for q in clauses(spec['xb'])))
                if inv: out.append('        invariant\n'+''.join('            %s,\n'%q for q in inv))
                if spec.get('ens'): out.append('        ensures\n'+''.join('            %s,\n'%ghost(q) for q in clauses(spec['ens'])))
                if spec.get('dec'): out.append('        decreases %s'%ghost(spec['dec']))
            elif t in('@@LBEGIN','@@LEND','@@LBREAK','@@LAFTER','@@LDONE'):
                L=l[1]; spec=loops[L-1] if L-1<len(loops) else {}
                g=spec.get({'@@LBEGIN':'begin','@@LEND':'end','@@LBREAK':'brk','@@LAFTER':'after','@@LDONE':'done'}[t])
                if g: out.append(ghost(g))
        txt='\n'.join(out)
        if canary=='exit':
            # an assertion that must fail at every return
            txt=re.sub(r'(\n\s*)return\b',r'\1assert(false); return',txt)
            if not re.search(r'return[^;]*;\s*\}*\s*$',txt): txt+='\n    assert(false);'
        return txt
    def file_for(self,k,canary=None):
        c=self.mod.CONTRACTS[k]; need=set(self.fns[k].calls)
        o=[LIB,self.heap_text(),self.mod.PRELUDE]
        for q in sorted(need):
            if q==k: continue
            if q not in self.fns: raise Unsupported('callee %s could not be translated'%q)
            o.append('#[verifier::external_body]\n'+self.header(q,True)+'{ unimplemented!() }')
        attrs='#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n'
        if c.get('rlimit'): attrs+='#[verifier::rlimit(%s)]\n'%c['rlimit']
        if c.get('spinoff',True): attrs+='#[verifier::spinoff_prover]\n'
        if (not c.get('decreases') and k in need) or any(not (c.get('loops',[])[i] if i<len(c.get('loops',[])) else {}).get('dec') for i in range(self.fns[k].loops)): attrs+='#[verifier::exec_allows_no_decreases_clause]\n'
        for a in c.get('attrs',[]): attrs+=a+'\n'
        b=self.body(k,canary)
        if c.get('broadcast'): b='    broadcast use %s;\n'%c['broadcast']+b
        if c.get('split') and canary is None:
            # one obligation per case of a case distinction on the arguments, and one that the cases are exhaustive
            if c.get('cuts') or self.ro(k): raise Unsupported('split and cuts together')
            for i,cs in enumerate(self.split_of(k)):
                o.append(attrs+self.header(k,False,self.tr.fnname(k)+'__s%d'%i,extra=cs)+'{\n'+b+'\n}')
            rq=lambda t: re.sub(r'\bH0?\b','h',t)
            x=self.fns[k]
            o.append('pub proof fn %s__cases(h: Heap, %s)\n    requires\n%s    ensures\n%s{}'%(self.tr.fnname(k),', '.join('%s: %s'%(n,t.lstrip('&')) for n,t,_ in x.params),
                ''.join('        %s,\n'%rq(t) for t in clauses(c.get('requires'))),''.join('        %s,\n'%' || '.join('(%s)'%rq(q) for q in g) for g in c['split'])))
        else: o+=self.split_cuts(k,attrs,b,canary)
        o.append('} // verus!\nfn main() {}')
        return '\n'.join(o)
    def split_cuts(self,k,attrs,b,canary):
        """cut points: the rest of a body after `//@CUT n` becomes a separately verified function whose precondition is the cut assertion"""
        c=self.mod.CONTRACTS[k]; cuts=c.get('cuts') or []
        head=self.header(k,False,drop_ens=canary is not None)
        out=[]; n=0; x=self.fns[k]
        params=[(p,t) for p,t,_ in x.params]
        sig='h: &mut Ghost<Heap>, '+', '.join('%s: %s'%p for p in params)
        rt=self.tr.rty(self.tr.fn_by_key[k]); ret=' -> (%s: %s)'%('RES' if any(q[0]=='r' for q in self.fns[k].params) else 'r',rust(rt)) if rt[0]!='void' else ''
        known=[]   # (kind,name,type,mut)
        orig={}; avail={p for p,_ in params}
        while True:
            lines=b.split('\n'); depth=0; cut=None; decl=[]
            for i,l in enumerate(lines):
                if '//@CUT' in l and depth==0: cut=i; break
                if '//@CUT' in l: raise Unsupported('cut point not at the top level of the function')
                if depth==0:
                    for m in re.finditer(r'\blet (ghost )?(mut )?(\w+)(?:: ([^=;]+?))? =',l): decl.append((m.group(3),'g' if m.group(1) else 'x',(m.group(4) or '').strip(),bool(m.group(2))))
                depth+=l.count('{')-l.count('}')
            if cut is None:
                out.append(attrs+head+'{\n'+b+'\n}'); return out
            rest='\n'.join(lines[cut+1:]); spec=cuts[n] if n<len(cuts) else {}; n+=1
            gh=dict(spec.get('ghosts',{})); gh['h0']='Heap'
            for d in decl:
                if re.match(r'hl\d+$',d[0]): gh[d[0]]='Heap'
            live={}
            for nm,kd,ty,mu in known+decl: live[nm]=(kd,ty or dict(params).get(nm,'') or (live[nm][1] if nm in live else ''),mu)
            words=set(re.findall(r'\w+',rest))|set(re.findall(r'\w+',' '.join(clauses(spec.get('req')))))
            callargs=['h']; sigp=['h: &mut Ghost<Heap>']; pro=[]; names=[]
            pn={p for p,_ in params}
            ensw=set(re.findall(r'\w+',' '.join(clauses(c.get('ensures')))))
            newknown=[]
            for p,t in params:
                if t.startswith('&'): sigp.append('%s: %s'%(p,t)); callargs.append(p); continue
                orig[p]=p+'__0'
                if p in avail and p not in live and p in words: sigp.append('%s: %s'%(p,t)); callargs.append(p)
                else: avail.discard(p)
            for nm,(kd,ty,mu) in live.items():
                if nm not in words and nm not in orig.values(): continue
                if kd=='x':
                    if not ty: raise Unsupported('cut: no type for '+nm)
                    sigp.append('%s: %s'%(nm,ty)); callargs.append(nm); newknown.append((nm,'x',ty,mu))
                    if mu: pro.append('    let mut %s = %s;'%(nm,nm))
                else:
                    t=gh.get(nm) or ty or (dict(params).get(nm[:-3]) if nm.endswith('__0') else None)
                    if not t: raise Unsupported('cut: no type for ghost '+nm)
                    sigp.append('Ghost(%s): Ghost<%s>'%(nm,t)); callargs.append('Ghost(%s)'%nm); newknown.append((nm,'g',t,mu))
                    if mu: pro.append('    let ghost mut %s = %s;'%(nm,nm))
            if 'h0' not in live: sigp.append('Ghost(h0): Ghost<Heap>'); callargs.append('Ghost(h0)'); newknown.append(('h0','g','Heap',False))
            pre=lines[:cut]
            fn=self.tr.fnname(k)+'__cut%d'%n
            out.append(attrs+head+'{\n'+'\n'.join(pre)+'\n    return %s(%s);\n}'%(fn,', '.join(callargs)))
            # the continuation
            def so(t):
                for p,o0 in orig.items(): t=re.sub(r'(?<![\w.])%s\b'%re.escape(p),o0,t)
                return re.sub(r'\bH\b','final(h)@',re.sub(r'\bH0\b','h0',t))
            req=[re.sub(r'\bH\b','old(h)@',re.sub(r'\bH0\b','h0',q)) for q in clauses(spec.get('req'))]
            req+=['%s == %s__0'%(p,p) for p,t in params if p in avail and p not in live and '%s: %s'%(p,t) in sigp and p+'__0' in live]
            ens=[so(q) for q in clauses(c.get('ensures'))]
            for f,_ in self.allfields():
                if f not in self.W[k]: req.append('old(h)@.%s == h0.%s'%(f,f)); ens.append('final(h)@.%s == h0.%s'%(f,f))
            head='pub fn %s(%s)%s\n'%(fn,', '.join(sigp),ret)+'    requires\n'+''.join('        %s,\n'%q for q in req)
            if canary is None: head+='    ensures\n'+''.join('        %s,\n'%q for q in ens)
            if canary=='entry': pro.append('    assert(false);')
            b='\n'.join(pro)+'\n'+rest; known=newknown
    def prelude_file(self):
        return '\n'.join([LIB,self.heap_text(),self.mod.PRELUDE,'} // verus!\nfn main() {}'])

VERUS=os.environ.get('VERUS','verus')
def run_verus(path,fn=None,rlimit=None,extra=(),timeout=600):
    cmd=[VERUS,path,'--output-json','--time','--multiple-errors','5','--no-report-long-running' ]
    if fn: cmd+=['--verify-root','--verify-function','*'+fn+'*']
    if rlimit: cmd+=['--rlimit',str(rlimit)]
    cmd+=list(extra)
    t=time.time()
    try:
        r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,timeout=timeout)
    except subprocess.TimeoutExpired: return dict(status='timeout',out='',time=time.time()-t,verified=0,errors=1,smt=0,cmd=' '.join(cmd))
    dt=time.time()-t
    try: j=json.loads(r.stdout[r.stdout.index('{'):])
    except Exception: return dict(status='broken',out=r.stderr[-6000:]+r.stdout[-500:],time=dt,verified=0,errors=1,smt=0,cmd=' '.join(cmd))
    vr=j.get('verification-results',{})
    smt=(j.get('times-ms',{}).get('smt') or {}).get('smt-run',0)
    if vr.get('encountered-error') or vr.get('encountered-vir-error') or (vr.get('verified',0)==0 and vr.get('errors',0)==0):
        st='failed' if vr.get('errors',0)>0 and not vr.get('encountered-vir-error') else 'broken'
    elif vr.get('errors',0)==0: st='proved'
    else: st='failed'
    if st=='failed':
        er=[l for l in re.findall(r'^error: (.*)$',r.stderr,re.M) if not l.startswith('aborting')]
        if er and all('esource limit' in l or 'rlimit' in l for l in er): st='undecided'
    return dict(status=st,out=r.stderr,time=dt,verified=vr.get('verified',0),errors=vr.get('errors',0),smt=smt/1000.0,cmd=' '.join(cmd))
