from base import *
import re
NAME='coll'
DRIVER="""
#include <cstddef>
#include <cstdint>
#include <vector>
#include <memory>
#include <algorithm>
#include <cassert>
// any vector type with this interface; its members are specified in the prelude (position: proved for the real vector in module mtv)
namespace mdds_drv {
struct Blk { int type; unsigned long position; unsigned long size; };
struct Mtv {
    typedef std::size_t size_type; typedef const Blk* const_iterator; typedef std::pair<const_iterator, size_type> const_position_type;
    const_position_type position(const const_iterator& hint, size_type pos) const;
    size_type size() const; bool empty() const; const_iterator cbegin() const; const_iterator cend() const;
};
}
#include <mdds/global.hpp>
#include <mdds/multi_type_vector/types.hpp>
#include <mdds/multi_type_vector/collection.hpp>
template class mdds::mtv::collection<mdds_drv::Mtv>;
template mdds::mtv::collection<mdds_drv::Mtv>::collection(const std::vector<mdds_drv::Mtv*>::iterator&, const std::vector<mdds_drv::Mtv*>::iterator&);
template class mdds::mtv::detail::side_iterator<mdds_drv::Mtv>;
"""
HEAP={'blk':r'mdds_drv::Blk<','mtv':r'mdds_drv::Mtv<'}
RECORDS={'node':r'side_iterator::node<','item':r'side_iterator::mtv_item<','sit':r'side_iterator<mdds_drv::Mtv','range':r'collection::range<','coll':r'collection<mdds_drv::Mtv'}
NS=r'^(typename )?(mdds_drv::|mdds::|mtv::|detail::|collection<[\w:]+>::|side_iterator<[\w:]+>::)*'
TYPES_RAW=[(r'^const const_iterator &$',('p','blk')),(r'^const_iterator$',('r','sit')),(r'^(const )?(mdds_drv::)?Blk \*( ?const)?$',('p','blk'))]
TYPES=[(NS+r'(Mtv|mtv_type)$',('p','mtv',1)),(NS+r'Mtv::const_iterator$',('p','blk')),(NS+r'Blk$',('p','blk',1)),(r'^(typename )?(const_iterator::|mdds::mtv::detail::|detail::|collection<[\w:]+>::|side_iterator<[\w:]+>::)*mtv_item$',('r','item')),
 (r'^(mdds::mtv::)?(detail::)?side_iterator(<[\w:]+>)?$|^(mdds::mtv::)?collection<[\w:]+>::const_iterator$',('r','sit')),(NS+r'range$',('r','range')),(r'^(mdds::mtv::)?collection(<[\w:]+>)?$',('r','coll')),
 (NS+r'(node|value_type)$',('r','node')),(NS+r'size_type$|^uintptr_t$|^(std::)?size_t$',('i','u64')),(NS+r'element_t$',('i','i32')),(NS+r'(begin|end)_state_type$',('i','i32'))]

GHOST=[]
PRELUDE=r"""
// ---- the vector interface the collection is built on, for vectors that do not change while it is used
pub uninterp spec fn vlen(v: Ptr) -> u64;                    // number of elements
pub uninterp spec fn vblk(v: Ptr, p: u64) -> Ptr;            // the block holding element p
pub uninterp spec fn voff(v: Ptr, p: u64) -> u64;            // the offset of element p in it
pub uninterp spec fn vits(v: Ptr) -> Set<Ptr>;               // the positions an iterator of v may have
pub type PosT = Pair_Ptr_u64;
#[verifier::external_body] pub fn mtv_position(v: Ptr, hint: Ptr, p: u64) -> (r: PosT) requires vits(v).contains(hint), p < vlen(v) ensures r.first == vblk(v, p), r.second == voff(v, p), vits(v).contains(r.first) { unimplemented!() }
#[verifier::external_body] pub fn mtv_size(v: Ptr) -> (r: u64) ensures r == vlen(v) { unimplemented!() }
#[verifier::external_body] pub fn mtv_empty(v: Ptr) -> (r: bool) ensures r == (vlen(v) == 0) { unimplemented!() }
#[verifier::external_body] pub fn mtv_cbegin(v: Ptr) -> (r: Ptr) ensures vits(v).contains(r) { unimplemented!() }
#[verifier::external_body] pub fn mtv_cend(v: Ptr) -> (r: Ptr) ensures vits(v).contains(r) { unimplemented!() }
// ---- collection
// usable: at least one vector, all of one nonzero length, both ranges within bounds and not empty
pub open spec fn wfc(c: coll) -> bool {
    &&& 0 < c.m_vectors@.len() <= 0x7fff_ffff_ffff_ffff && c.m_mtv_size > 0
    &&& forall|k: int| 0 <= k < c.m_vectors@.len() ==> vlen(#[trigger] c.m_vectors@[k]) == c.m_mtv_size
    &&& c.m_col_range.size > 0 && c.m_col_range.start + c.m_col_range.size <= c.m_vectors@.len()
    &&& c.m_elem_range.size > 0 && c.m_elem_range.start + c.m_elem_range.size <= c.m_mtv_size
}
// made without vectors
pub open spec fn wfn(c: coll) -> bool { c.m_vectors@.len() == 0 && c.m_mtv_size == 0 && c.m_identity == 0 && c.m_col_range.start == 0 && c.m_col_range.size == 0 && c.m_elem_range.start == 0 && c.m_elem_range.size == 0 }
// ---- iterator: the vectors walked over, the element range and the position (element, vector) in it
pub open spec fn cols(s: sit) -> Seq<Ptr> { Seq::new(s.m_vectors@.len(), |k: int| s.m_vectors@[k].vector) }
pub open spec fn wfi(h: Heap, s: sit) -> bool {
    &&& 0 < s.m_vectors@.len() && s.m_index_offset + s.m_vectors@.len() <= u64::MAX && s.m_elem_pos <= s.m_elem_pos_end
    &&& forall|k: int| 0 <= k < s.m_vectors@.len() ==> s.m_elem_pos_end <= vlen((#[trigger] s.m_vectors@[k]).vector) && vits(s.m_vectors@[k].vector).contains(s.m_vectors@[k].block_pos)
    &&& s.m_index_offset <= s.m_cur_node.index && s.m_cur_node.index < s.m_index_offset + s.m_vectors@.len()
    &&& (s.m_elem_pos == s.m_elem_pos_end ==> s.m_cur_node.index == s.m_index_offset)
    // the current node: element m_elem_pos of the vector at index
    &&& (s.m_elem_pos < s.m_elem_pos_end ==> {
        let v = s.m_vectors@[s.m_cur_node.index - s.m_index_offset].vector;
        s.m_cur_node.position == s.m_elem_pos && s.m_cur_node.elem_position.first == vblk(v, s.m_elem_pos) && s.m_cur_node.elem_position.second == voff(v, s.m_elem_pos)
            && s.m_cur_node.type_ == h.blk_type[vblk(v, s.m_elem_pos)] })
}
pub open spec fn vok(h: Heap) -> bool { forall|v: Ptr, p: u64| p < vlen(v) ==> h.al_blk.contains(#[trigger] vblk(v, p)) }
pub open spec fn same_place(a: sit, b: sit) -> bool { a.m_identity == b.m_identity && a.m_elem_pos_end == b.m_elem_pos_end && a.m_elem_pos == b.m_elem_pos && a.m_cur_node.index == b.m_cur_node.index }
// t is one step after s: the same element of the next vector, or the next element of the first vector
pub open spec fn succ(s: sit, t: sit) -> bool {
    &&& cols(t) =~= cols(s) && t.m_index_offset == s.m_index_offset && t.m_elem_pos_end == s.m_elem_pos_end && t.m_identity == s.m_identity
    &&& if s.m_cur_node.index + 1 < s.m_index_offset + s.m_vectors@.len() { t.m_elem_pos == s.m_elem_pos && t.m_cur_node.index == s.m_cur_node.index + 1 }
        else { t.m_elem_pos == s.m_elem_pos + 1 && t.m_cur_node.index == s.m_index_offset }
}
// s walks over the collection's element range and collection range
pub open spec fn itof(c: coll, s: sit) -> bool {
    &&& s.m_elem_pos_end == c.m_elem_range.start + c.m_elem_range.size && s.m_index_offset == c.m_col_range.start && s.m_identity == c.m_identity && s.m_elem_pos >= c.m_elem_range.start
    &&& cols(s) =~= c.m_vectors@.subrange(c.m_col_range.start as int, c.m_col_range.start + c.m_col_range.size)
}
// the number of steps from begin() to s
pub open spec fn stepno(c: coll, s: sit) -> int { (s.m_elem_pos - c.m_elem_range.start) * c.m_col_range.size + (s.m_cur_node.index - c.m_col_range.start) }
// walking from begin() visits the elements of the ranges in row order, one per step, and compares equal to end() exactly after (elements x vectors) steps
pub proof fn lem_begin(c: coll, s: sit) requires itof(c, s), s.m_elem_pos == c.m_elem_range.start, s.m_cur_node.index == c.m_col_range.start ensures stepno(c, s) == 0 { assert(0 * c.m_col_range.size == 0) by(nonlinear_arith); }
pub proof fn lem_step(h: Heap, c: coll, s: sit, t: sit)
    requires wfc(c), wfi(h, s), itof(c, s), succ(s, t), s.m_elem_pos < s.m_elem_pos_end
    ensures itof(c, t), stepno(c, t) == stepno(c, s) + 1
{
    assert(cols(s).len() == c.m_col_range.size); assert(cols(t).len() == cols(s).len());
    let (a, n) = (s.m_elem_pos - c.m_elem_range.start, c.m_col_range.size as int);
    assert((a + 1) * n == a * n + n) by(nonlinear_arith);
}
pub proof fn lem_end(h: Heap, c: coll, s: sit, e: sit)
    requires wfc(c), wfi(h, s), itof(c, s), wfi(h, e), itof(c, e), e.m_elem_pos == e.m_elem_pos_end
    ensures same_place(s, e) == (stepno(c, s) == c.m_elem_range.size * c.m_col_range.size), stepno(c, s) <= c.m_elem_range.size * c.m_col_range.size, same_place(s, e) == (s.m_elem_pos == s.m_elem_pos_end)
{
    assert(cols(s).len() == c.m_col_range.size);
    let (a, n, m, b) = (s.m_elem_pos - c.m_elem_range.start, c.m_col_range.size as int, c.m_elem_range.size as int, s.m_cur_node.index - c.m_col_range.start);
    if s.m_elem_pos < s.m_elem_pos_end { assert(a * n + b < m * n) by(nonlinear_arith) requires 0 <= a < m, 0 <= b < n; }
}
// and at step k it stands on element start + k / n of vector start + k % n
pub proof fn lem_row(h: Heap, c: coll, s: sit)
    requires wfc(c), wfi(h, s), itof(c, s)
    ensures s.m_elem_pos == c.m_elem_range.start + stepno(c, s) / (c.m_col_range.size as int), s.m_cur_node.index == c.m_col_range.start + stepno(c, s) % (c.m_col_range.size as int)
{
    assert(cols(s).len() == c.m_col_range.size);
    let (a, n, b) = (s.m_elem_pos - c.m_elem_range.start, c.m_col_range.size as int, s.m_cur_node.index - c.m_col_range.start);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a * n + b, n, a, b);
}
"""
CONTRACTS={
 'sit.operator++/0':dict(requires=['vok(H)','wfi(H,*old(this))','old(this).m_elem_pos < old(this).m_elem_pos_end'],
   ensures=['wfi(H,*final(this))','succ(*old(this), *final(this))']),
 'sit.operator++/1':dict(requires=['vok(H)','wfi(H,*old(this))','old(this).m_elem_pos < old(this).m_elem_pos_end'],
   ensures=['r == *old(this)','wfi(H,*final(this))','succ(*old(this), *final(this))']),
 'sit.operator==':dict(ensures=['r == same_place(this, other)']),
 'coll.ctor/0':dict(ensures=['wfn(*final(this))']),
 'coll.ctor/2':dict(requires=['begin.v == end.v','begin.i < end.i <= begin.v@.len()','begin.v@.len() <= 0x7fff_ffff_ffff_ffff','forall|k: int| begin.i <= k < end.i ==> (#[trigger] begin.v@[k]) != 0'],
   throws='exists|k: int| begin.i <= k < end.i && (vlen(#[trigger] begin.v@[k]) == 0 || vlen(begin.v@[k]) != vlen(begin.v@[begin.i as int]))',throw_unchanged='true',
   ensures=['wfc(*final(this))','final(this).m_vectors@ =~= begin.v@.subrange(begin.i as int, end.i as int)','final(this).m_elem_range.start == 0 && final(this).m_elem_range.size == final(this).m_mtv_size && final(this).m_col_range.start == 0 && final(this).m_col_range.size == end.i - begin.i'],
   loops=[dict(inv=['it.v == begin.v','begin.i <= it.i <= end.i','end.v == begin.v','begin.i < end.i <= begin.v@.len()','begin.v@.len() <= 0x7fff_ffff_ffff_ffff','this.m_vectors@ =~= begin.v@.subrange(begin.i as int, it.i as int)','it.i == begin.i ==> this.m_mtv_size == 0','it.i > begin.i ==> this.m_mtv_size > 0','forall|k: int| begin.i <= k < it.i ==> vlen(#[trigger] begin.v@[k]) == this.m_mtv_size'],dec='end.i - it.i'),
     dict(inv=['lib_it.v == this.m_vectors','lib_it.i <= this.m_vectors@.len()'],dec='this.m_vectors@.len() - lib_it.i')]),
 'coll.set_collection_range':dict(requires=['wfc(*old(this))'],throws='start >= old(this).m_vectors@.len() || size == 0 || start + size > old(this).m_vectors@.len()',throw_unchanged='*this == *old(this)',
   ensures=['wfc(*final(this))','final(this).m_col_range.start == start && final(this).m_col_range.size == size','final(this).m_vectors == old(this).m_vectors && final(this).m_mtv_size == old(this).m_mtv_size && final(this).m_elem_range == old(this).m_elem_range && final(this).m_identity == old(this).m_identity']),
 'coll.set_element_range':dict(requires=['wfc(*old(this))'],throws='start >= old(this).m_mtv_size || size == 0 || start + size > old(this).m_mtv_size',throw_unchanged='*this == *old(this)',
   ensures=['wfc(*final(this))','final(this).m_elem_range.start == start && final(this).m_elem_range.size == size','final(this).m_vectors == old(this).m_vectors && final(this).m_mtv_size == old(this).m_mtv_size && final(this).m_col_range == old(this).m_col_range && final(this).m_identity == old(this).m_identity']),
 'coll.build_iterator_state':dict(requires=['wfc(this) || wfn(this)'],ensures=['r@.len() == this.m_col_range.size','forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).vector == this.m_vectors@[this.m_col_range.start + k] && vits(r@[k].vector).contains(r@[k].block_pos)'],
   loops=[dict(inv=['lib_it.v == this.m_vectors','wfc(this) || wfn(this)','this.m_col_range.start <= lib_it.i <= this.m_col_range.start + this.m_col_range.size','it_end.i == this.m_col_range.start + this.m_col_range.size && it_end.v == this.m_vectors','cols@.len() == lib_it.i - this.m_col_range.start','forall|k: int| 0 <= k < cols@.len() ==> (#[trigger] cols@[k]).vector == this.m_vectors@[this.m_col_range.start + k] && vits(cols@[k].vector).contains(cols@[k].block_pos)'],dec='it_end.i - lib_it.i')]),
 'coll.begin':dict(requires=['vok(H)','wfc(this) || wfn(this)'],ensures=['wfn(this) ==> r.m_elem_pos == 0 && r.m_elem_pos_end == 0 && r.m_identity == 0 && r.m_cur_node.index == 0','wfc(this) ==> wfi(H,r)','itof(this, r)','r.m_elem_pos == this.m_elem_range.start && r.m_cur_node.index == this.m_col_range.start']),
 'coll.end':dict(requires=['vok(H)','wfc(this) || wfn(this)'],ensures=['wfn(this) ==> r.m_elem_pos == 0 && r.m_elem_pos_end == 0 && r.m_identity == 0 && r.m_cur_node.index == 0','wfc(this) ==> wfi(H,r)','itof(this, r)','r.m_elem_pos == r.m_elem_pos_end && r.m_cur_node.index == this.m_col_range.start']),
 'coll.swap':dict(ensures=['*final(this) == *old(other) && *final(other) == *old(this)']), 'coll.size':dict(ensures=['r == this.m_mtv_size']),
}
def intercept(tr,e,f,name,args,obj):
    U=('i','u64')
    if obj is None or name not in('position','size','empty','cbegin','cend'): return None
    try: o=tr.objlv(obj,(tr.skip(e['inner'][0])).get('isArrow'))
    except Exception: return None
    if o.ty[:2]!=('p','mtv'): return None
    v=tr.load(o)
    if name=='position':
        a=tr.let(tr.ev(args[0])[0],('p','blk')); b=tr.let(tr.icast(tr.ev(args[1]),U)[0],U); t=tr.T.pair(('p','blk'),U)
        return (tr.let('mtv_position(%s, %s, %s)'%(v,a,b),t),t)
    t={'size':U,'empty':('b',)}.get(name,('p','blk'))
    return (tr.let('mtv_%s(%s)'%(name,v),t),t)
