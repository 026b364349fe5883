from base import *
NAME='ssmap'
DRIVER="""
#include <cstddef>
#include <string_view>
struct Val { unsigned long id; };
bool operator==(const Val&, const Val&);
bool operator!=(const Val&, const Val&);
#include <mdds/sorted_string_map.hpp>
template class mdds::sorted_string_map<Val>;
"""
HEAP={}
ABSTRACT={}
RECORDS={'entry':r'map_entry<Val>$','ssm':r'sorted_string_map<Val','cmp':r'ssmap::detail::compare<Val>$','lkf':r'linear_key_finder<Val>$'}
OPAQUE=['Val','Str']
TYPES_RAW=[(r'^(const )?(mdds::ssmap::|ssmap::)?(detail::)?(entry_type|map_entry<.*>) \*$',('it',('r','entry'))),(r'^(const )?(std::)?span<.*>$',('vec',('r','entry')))]
TYPES=[(r'^(.*::)?map_entry<.*>$|^(.*::)?entry_type$',('r','entry')),(r'^(std::)?(basic_)?string_view(<.*>)?$',('v','Str')),(r'^Val$|^(.*::)?value_type$',('v','Val')),(r'^(.*::)?size_type$',('i','u64')),
 (r'^(.*::)?linear_key_finder<.*>$|^func_find_key_type$|^(.*::)?KeyFinderT<.*>$',('r','lkf')),(r'^(.*::)?compare<.*>$',('r','cmp'))]
FIELD_TYPES={'entry.key':('v','Str'),'entry.value':('v','Val')}
PRELUDE=r"""
// the order of string_view: a total order
pub uninterp spec fn str_lt(a: Str, b: Str) -> bool;
pub broadcast axiom fn str_lt_total(a: Str, b: Str) ensures (#[trigger] str_lt(a, b)) ==> !str_lt(b, a) && a != b, !str_lt(a, b) && a != b ==> str_lt(b, a);
pub broadcast axiom fn str_lt_trans(a: Str, b: Str, c: Str) requires #[trigger] str_lt(a, b), #[trigger] str_lt(b, c) ensures str_lt(a, c);
#[verifier::external_body] pub fn lt_Str(a: Str, b: Str) -> (r: bool) ensures r == str_lt(a, b) { unimplemented!() }
pub open spec fn sorted(s: Seq<entry>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> !str_lt(#[trigger] s[j].key, #[trigger] s[i].key) }
pub open spec fn ents(m: ssm) -> Seq<entry> { m.m_entries.v@ }
pub open spec fn wf(m: ssm) -> bool {
    &&& m.m_entries.i == 0 && m.m_entries_end.v == m.m_entries.v && m.m_entries_end.i == ents(m).len() && m.m_entry_size == ents(m).len()
    &&& m.m_func_find_key.m_entries == m.m_entries && m.m_func_find_key.m_entries_end == m.m_entries_end
}
// std::lower_bound, for a range partitioned by the comparator of this file (proved to be the order of the keys)
#[verifier::external_body] pub fn lower_bound_entry(b: CIt<entry>, e: CIt<entry>, x: entry) -> (r: CIt<entry>)
    requires b.v == e.v, b.i <= e.i <= b.v@.len(), forall|i: int, j: int| b.i <= i <= j < e.i ==> !str_lt(#[trigger] b.v@[j].key, #[trigger] b.v@[i].key)
    ensures r.v == b.v, b.i <= r.i <= e.i, forall|k: int| b.i <= k < r.i ==> str_lt(#[trigger] b.v@[k].key, x.key), forall|k: int| r.i <= k < e.i ==> !str_lt(#[trigger] b.v@[k].key, x.key)
{ unimplemented!() }
"""
CONTRACTS={
 'cmp.operator()':dict(ensures=['r == str_lt(entry1.key, entry2.key)']),
 'lkf.ctor':dict(ensures=['final(this).m_entries == entries && final(this).m_entries_end == entries_end']),
 'lkf.operator()':dict(requires=['this.m_entries.v == this.m_entries_end.v','this.m_entries.i <= this.m_entries_end.i <= this.m_entries.v@.len()'],
   ensures=['(exists|k: int| this.m_entries.i <= k < this.m_entries_end.i && (#[trigger] this.m_entries.v@[k]).value == v && this.m_entries.v@[k].key == r && forall|j: int| this.m_entries.i <= j < k ==> (#[trigger] this.m_entries.v@[j]).value != v) || (r == spec_default_Str() && forall|j: int| this.m_entries.i <= j < this.m_entries_end.i ==> (#[trigger] this.m_entries.v@[j]).value != v)'],
   loops=[dict(inv=['lib_it.v == this.m_entries.v','this.m_entries.v == this.m_entries_end.v','this.m_entries.i <= lib_it.i <= this.m_entries_end.i','this.m_entries_end.i <= this.m_entries.v@.len()','forall|j: int| this.m_entries.i <= j < lib_it.i ==> (#[trigger] this.m_entries.v@[j]).value != v__0','v == v__0'],
     ens=['lib_it.i < this.m_entries_end.i ==> this.m_entries.v@[lib_it.i as int].value == v__0'],dec='this.m_entries_end.i - lib_it.i')]),
 'ssm.ctor/2':dict(requires=['entries@.len() <= 0x7fff_ffff_ffff_ffff'],ensures=['wf(*final(this)) && ents(*final(this)) == entries@ && final(this).m_null_value == null_value']),
 'ssm.find/1':dict(requires=['wf(this)','sorted(ents(this))'],
   ensures=['(exists|k: int| 0 <= k < ents(this).len() && (#[trigger] ents(this)[k]).key == input && ents(this)[k].value == r && forall|j: int| 0 <= j < k ==> (#[trigger] ents(this)[j]).key != input) || (r == this.m_null_value && forall|j: int| 0 <= j < ents(this).len() ==> (#[trigger] ents(this)[j]).key != input)'],
   broadcast='str_lt_total, str_lt_trans'),
 'ssm.find_key':dict(requires=['wf(this)'],
   ensures=['(exists|k: int| 0 <= k < ents(this).len() && (#[trigger] ents(this)[k]).value == v && ents(this)[k].key == r && forall|j: int| 0 <= j < k ==> (#[trigger] ents(this)[j]).value != v) || (r == spec_default_Str() && forall|j: int| 0 <= j < ents(this).len() ==> (#[trigger] ents(this)[j]).value != v)']),
 'ssm.size':dict(requires=['wf(this)'],ensures=['r == ents(this).len()']),
}
def libcall(tr,e,name,args,want_lv):
    if name=='lower_bound' and len(args)==4:
        import re
        from cxx2verus import qt,Unsupported
        if not re.search(r'ssmap::detail::compare<',qt(args[3])): raise Unsupported('lower_bound with another comparator')
        f=tr.fn_by_key.get('cmp.operator()')
        if f is None: raise Unsupported('comparator not found')
        tr.callrec('cmp.operator()')
        a=tr.ev(args[0]); b=tr.ev(args[1]); x=tr.ev_value(args[2])
        t=('it',('r','entry')); return (tr.let('lower_bound_entry(%s, %s, %s)'%(a[0],b[0],x[0]),t),t)
def libmember(tr,e,cal,obj,name,args,arrow):
    if name in('data','size','begin','end') and not args:
        o=tr.skip(obj)
        lv=tr.lv(obj)
        if lv.ty[0]=='vec' and name=='data': return (tr.let('%s.begin()'%tr.load(lv),('it',lv.ty[1])),('it',lv.ty[1]))
def libop(tr,e,name,args,want_lv):
    if name in('operator<','operator<=>') and len(args)==2:
        va,vb=tr.ev_pair(args[0],args[1])
        if va[1]==('v','Str') and name=='operator<': return (tr.let('lt_Str(%s, %s)'%(va[0],vb[0]),('b',)),('b',))
