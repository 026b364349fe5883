import re
from base import *
NAME='mtv'
DRIVER='''
#include <cstddef>
struct Val { unsigned long id; };
bool operator==(const Val&, const Val&);
bool operator!=(const Val&, const Val&);
#include <mdds/multi_type_vector/types.hpp>
#include <mdds/multi_type_vector/macro.hpp>
#include <mdds/multi_type_vector/block_funcs.hpp>
using blk = mdds::mtv::default_element_block<50, Val>;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(Val, 50, Val{}, blk)
#include <mdds/multi_type_vector/soa/main.hpp>
struct evt { void element_block_acquired(const mdds::mtv::base_element_block*); void element_block_released(const mdds::mtv::base_element_block*); };
struct traits : mdds::mtv::default_traits { using block_funcs = mdds::mtv::element_block_funcs<blk>; using event_func = evt; };
using vec_t = mdds::mtv::soa::multi_type_vector<traits>;
template class mdds::mtv::soa::multi_type_vector<traits>;
vec_t::iterator use(vec_t& v, unsigned long p, const Val& x, Val& y)
{
    v.push_back(x); v.insert(p, &x, &x + 1); v.set(p, &x, &x + 1); v.get(p, y); v.release(p, y); v.get<Val>(p);
    return v.set(p, x);
}
'''
HEAP={'eb':r'^mdds::mtv::base_element_block<>$','mtv':r'^multi_type_vector<traits>$'}
RECORDS={'bst':r'^multi_type_vector::blocks_type<>$','pd':r'iterator_value_node::private_data<>$','node':r'iterator_value_node<','cct':r'clone_construction_type','adj':r'adjust_block_positions<.*traits>::blocks_type,16>$'}
OPAQUE=['Val','evt']
TYPES_RAW=[(r'^(const )?std::vector<.*base_element_block \*>',('vec',('p','eb')))]
TYPES=[(r'^(.*::)?event_func$|^evt$',('v','evt')),(r'^(.*::)?clone_construction_type$',('r','cct')),(r'^(const )?(.*::)?iterator_updater<.*>$',('r','mit')),(r'^(.*::)?adjust_block_positions(<.*>|_func)$',('r','adj')),(r'^(mdds::mtv::|mtv::)?base_element_block$',('p','eb',1)),(r'^(mdds::mtv::soa::)?multi_type_vector<traits>$|^multi_type_vector$|^(.*::)?parent_type$',('p','mtv',1)),
 (r'^(.*::)?blocks_type$',('r','bst')),(r'^(.*::)?(const_)?iterator$|^(mdds::mtv::soa::)?(detail::)?(const_)?iterator_base<.*>$',('r','mit')),(r'^(.*::)?private_data$',('r','pd')),
 (r'^Val$|^(.*::)?value_type$',('v','Val')),(r'^(.*::)?element_t$',('i','i32')),(r'^(.*::)?size_type$',('i','u64'))]
FIELD_TYPES={'mtv.m_block_store':('r','bst')}
SKIP_FIELDS={'m_hdl_event','m_block_states','m_cow_store'}
# the event handler of a container not yet constructed has been told of nothing
ALLOC_FACT={'mtv':', forall|b: Ptr| !old(h)@.g_ev[p].contains(b)'}
GHOST=[('g_el','Seq<Val>'),('g_ev','Set<Ptr>')]
CONSTS={}
DEFVAL={'mit':'mk_itr(0, 0)'}
PRELUDE=r"""
pub enum Cell { Empty, Elem(i32, Val) }
pub uninterp spec fn dflt() -> Val;
pub struct mit { pub parent: Ptr, pub index: u64 }
impl Clone for mit { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Copy for mit {}
pub open spec fn st(h: Heap, t: Ptr) -> bst { h.mtv_m_block_store[t] }
pub open spec fn ps(h: Heap, t: Ptr) -> Seq<u64> { st(h, t).positions@ }
pub open spec fn sz(h: Heap, t: Ptr) -> Seq<u64> { st(h, t).sizes@ }
pub open spec fn db(h: Heap, t: Ptr) -> Seq<Ptr> { st(h, t).element_blocks@ }
pub open spec fn nb(h: Heap, t: Ptr) -> int { ps(h, t).len() as int }
pub open spec fn cur(h: Heap, t: Ptr) -> u64 { h.mtv_m_cur_size[t] }
// sum of the first i sizes
pub open spec fn psum(s: Seq<u64>, i: int) -> int decreases i { if i <= 0 { 0 } else { psum(s, i - 1) + s[i - 1] } }
#[verifier::opaque] pub open spec fn posok(p: Seq<u64>, s: Seq<u64>) -> bool { p.len() == s.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == psum(s, i) }
pub open spec fn chain_at(p: Seq<u64>, s: Seq<u64>, m: int) -> bool { p[m] == if m == 0 { 0 } else { p[m - 1] + s[m - 1] } }
// what a block of n cells with element block b holds
pub open spec fn bcells(h: Heap, b: Ptr, n: int) -> Seq<Cell> { if b == 0 { Seq::new(n as nat, |k: int| Cell::Empty) } else { Seq::new(h.g_el[b].len(), |k: int| Cell::Elem(h.eb_type[b], h.g_el[b][k])) } }
pub open spec fn flat(b: Seq<Seq<Cell>>) -> Seq<Cell> decreases b.len() { if b.len() == 0 { Seq::empty() } else { flat(b.drop_last()) + b.last() } }
pub open spec fn blks(h: Heap, t: Ptr) -> Seq<Seq<Cell>> { Seq::new(db(h, t).len(), |i: int| bcells(h, db(h, t)[i], sz(h, t)[i] as int)) }
// the logical content
#[verifier::opaque] pub open spec fn view(h: Heap, t: Ptr) -> Seq<Cell> { flat(blks(h, t)) }
pub open spec fn kind(h: Heap, b: Ptr) -> i32 { if b == 0 { -1i32 } else { h.eb_type[b] } }
pub open spec fn blkok(h: Heap, t: Ptr, i: int) -> bool { sz(h, t)[i] > 0 && (db(h, t)[i] != 0 ==> h.al_eb.contains(db(h, t)[i]) && h.g_el[db(h, t)[i]].len() == sz(h, t)[i] && h.eb_type[db(h, t)[i]] != -1) }
// every element block belongs to one place, and the event handler was told about exactly these
#[verifier::opaque] pub open spec fn owned(h: Heap, t: Ptr) -> bool {
    &&& forall|i: int, j: int| #![trigger db(h, t)[i], db(h, t)[j]] 0 <= i < j < db(h, t).len() && db(h, t)[i] != 0 ==> db(h, t)[i] != db(h, t)[j]
    &&& forall|i: int| 0 <= i < db(h, t).len() && db(h, t)[i] != 0 ==> h.g_ev[t].contains(#[trigger] db(h, t)[i])
    &&& forall|b: Ptr| #[trigger] h.g_ev[t].contains(b) ==> b != 0 && h.al_eb.contains(b) && exists|i: int| 0 <= i < db(h, t).len() && #[trigger] db(h, t)[i] == b
}
pub open spec fn shp(h: Heap, t: Ptr) -> bool {
    &&& h.al_mtv.contains(t) && sz(h, t).len() == nb(h, t) && db(h, t).len() == nb(h, t) && posok(ps(h, t), sz(h, t)) && cur(h, t) == psum(sz(h, t), nb(h, t)) && cur(h, t) <= 0x7fff_ffff_ffff_ffff
    &&& forall|i: int| 0 <= i < nb(h, t) ==> #[trigger] blkok(h, t, i)
}
// neighbouring blocks differ in type, but for the pairs a..b
#[verifier::opaque] pub open spec fn canx(h: Heap, t: Ptr, a: int, b: int) -> bool { forall|k: int| #![trigger db(h, t)[k]] 0 <= k && k + 1 < nb(h, t) && !(a <= k < b) ==> kind(h, db(h, t)[k]) != kind(h, db(h, t)[k + 1]) }
pub open spec fn canon(h: Heap, t: Ptr) -> bool { canx(h, t, 0, 0) }
pub open spec fn wfm(h: Heap, t: Ptr, m: int) -> bool { shp(h, t) && owned(h, t) && canx(h, t, m - 1, m + 1) }
pub open spec fn emp(n: int) -> Seq<Cell> { Seq::new(n as nat, |k: int| Cell::Empty) }
// of the other containers nothing changed
#[verifier::opaque] pub open spec fn oth(h: Heap, g: Heap, t: Ptr) -> bool { g.al_mtv == h.al_mtv && forall|u: Ptr| #![trigger g.mtv_m_block_store[u]] #![trigger g.g_ev[u]] #![trigger g.mtv_m_cur_size[u]] u != t ==> g.mtv_m_block_store[u] == h.mtv_m_block_store[u] && g.mtv_m_cur_size[u] == h.mtv_m_cur_size[u] && g.g_ev[u] == h.g_ev[u] }
pub proof fn lem_oth(h: Heap, g: Heap, f: Heap, t: Ptr) requires oth(h, g, t), oth(g, f, t) ensures oth(h, f, t) { reveal(oth); assert forall|u: Ptr| #![trigger f.mtv_m_block_store[u]] #![trigger f.g_ev[u]] #![trigger f.mtv_m_cur_size[u]] u != t implies f.mtv_m_block_store[u] == h.mtv_m_block_store[u] && f.mtv_m_cur_size[u] == h.mtv_m_cur_size[u] && f.g_ev[u] == h.g_ev[u] by { assert(f.g_ev[u] == g.g_ev[u]); assert(g.g_ev[u] == h.g_ev[u]); } }
pub open spec fn wf(h: Heap, t: Ptr) -> bool { shp(h, t) && owned(h, t) && canon(h, t) }
// only the container t and its element blocks changed
#[verifier::opaque] pub open spec fn frm(h: Heap, g: Heap, t: Ptr) -> bool {
    &&& g.al_mtv == h.al_mtv
    &&& forall|u: Ptr| #![trigger g.mtv_m_block_store[u]] #![trigger g.g_ev[u]] #![trigger g.mtv_m_cur_size[u]] u != t ==> g.mtv_m_block_store[u] == h.mtv_m_block_store[u] && g.mtv_m_cur_size[u] == h.mtv_m_cur_size[u] && g.g_ev[u] == h.g_ev[u]
    &&& forall|b: Ptr| #[trigger] h.al_eb.contains(b) && !h.g_ev[t].contains(b) ==> g.al_eb.contains(b) && g.g_el[b] == h.g_el[b] && g.eb_type[b] == h.eb_type[b] && !g.g_ev[t].contains(b)
    &&& forall|b: Ptr| #[trigger] g.al_eb.contains(b) && (!h.al_eb.contains(b) || h.g_ev[t].contains(b)) ==> g.g_ev[t].contains(b)
}
pub proof fn lem_frm0(h: Heap, t: Ptr) ensures frm(h, h, t) { reveal(frm); }
pub proof fn lem_frm2(h: Heap, g: Heap, f: Heap, t: Ptr) requires frm(h, g, t), frm(g, f, t) ensures frm(h, f, t)
{ reveal(frm); assert forall|u: Ptr| #![trigger f.mtv_m_block_store[u]] #![trigger f.g_ev[u]] #![trigger f.mtv_m_cur_size[u]] u != t implies f.mtv_m_block_store[u] == h.mtv_m_block_store[u] && f.mtv_m_cur_size[u] == h.mtv_m_cur_size[u] && f.g_ev[u] == h.g_ev[u] by { assert(f.g_ev[u] == g.g_ev[u]); assert(g.g_ev[u] == h.g_ev[u]); }
  assert forall|b: Ptr| #[trigger] h.al_eb.contains(b) && !h.g_ev[t].contains(b) implies f.al_eb.contains(b) && f.g_el[b] == h.g_el[b] && f.eb_type[b] == h.eb_type[b] && !f.g_ev[t].contains(b) by { assert(g.al_eb.contains(b)); }
  assert forall|b: Ptr| #[trigger] f.al_eb.contains(b) && (!h.al_eb.contains(b) || h.g_ev[t].contains(b)) implies f.g_ev[t].contains(b) by { if g.al_eb.contains(b) { } } }
// ---- sums and positions
pub proof fn lem_mono(s: Seq<u64>, i: int, j: int) requires 0 <= i <= j <= s.len() ensures psum(s, i) <= psum(s, j) decreases j - i { if i < j { lem_mono(s, i, j - 1); } }
pub proof fn lem_same(s: Seq<u64>, r: Seq<u64>, i: int) requires 0 <= i <= s.len(), i <= r.len(), forall|k: int| 0 <= k < i ==> s[k] == r[k] ensures psum(s, i) == psum(r, i) decreases i { if i > 0 { lem_same(s, r, i - 1); } }
// shp gives: positions strictly increase, block i covers [p_i, p_i + s_i), the blocks tile [0, cur)
pub proof fn lem_tile(h: Heap, t: Ptr, i: int) requires shp(h, t), 0 <= i < nb(h, t)
    ensures ps(h, t)[i] == psum(sz(h, t), i), ps(h, t)[i] + sz(h, t)[i] <= cur(h, t), sz(h, t)[i] > 0, i + 1 < nb(h, t) ==> ps(h, t)[i + 1] == ps(h, t)[i] + sz(h, t)[i], i + 1 == nb(h, t) ==> cur(h, t) == ps(h, t)[i] + sz(h, t)[i], i == 0 ==> ps(h, t)[i] == 0, i > 0 ==> ps(h, t)[i] == ps(h, t)[i - 1] + sz(h, t)[i - 1] && ps(h, t)[i - 1] == psum(sz(h, t), i - 1)
{ reveal(posok); assert(blkok(h, t, i)); lem_mono(sz(h, t), i + 1, nb(h, t)); if i > 0 { assert(ps(h, t)[i - 1] == psum(sz(h, t), i - 1)); } if i + 1 < nb(h, t) { assert(ps(h, t)[i + 1] == psum(sz(h, t), i + 1)); } assert(psum(sz(h, t), i + 1) == psum(sz(h, t), i) + sz(h, t)[i]); }
pub proof fn lem_sorted(h: Heap, t: Ptr, i: int, j: int) requires shp(h, t), 0 <= i < j < nb(h, t) ensures ps(h, t)[i] + sz(h, t)[i] <= ps(h, t)[j]
{ lem_tile(h, t, i); lem_tile(h, t, j); lem_mono(sz(h, t), i + 1, j); assert(psum(sz(h, t), i + 1) == psum(sz(h, t), i) + sz(h, t)[i]); }
// the positions after replacing the blocks i..j0 by i..j1
#[verifier::spinoff_prover] #[verifier::rlimit(80)] pub proof fn lem_splice(p0: Seq<u64>, s0: Seq<u64>, p1: Seq<u64>, s1: Seq<u64>, i: int, j0: int, j1: int, d: int)
    requires posok(p0, s0), p1.len() == s1.len(), 0 <= i <= j0 <= p0.len(), i <= j1, p1.len() - j1 == p0.len() - j0, forall|k: int| 0 <= k < i ==> p1[k] == p0[k] && s1[k] == s0[k],
        forall|k: int| j1 <= k < p1.len() ==> s1[k] == s0[k - j1 + j0] && p1[k] == p0[k - j1 + j0] + d, forall|m: int| i <= m <= j1 && m < p1.len() ==> #[trigger] chain_at(p1, s1, m)
    ensures posok(p1, s1), p1.len() > 0 ==> psum(s1, p1.len() as int) == p1.last() + s1.last(), p1.len() == 0 ==> psum(s1, p1.len() as int) == 0,
        j1 < p1.len() ==> psum(s1, p1.len() as int) == psum(s0, p0.len() as int) + d
{
    reveal(posok); let n = p1.len() as int;
    assert forall|k: int| 0 <= k < n implies #[trigger] p1[k] == psum(s1, k) by { lem_splice1(p0, s0, p1, s1, i, j0, j1, d, k); }
    if j1 < n { assert(p0.last() == psum(s0, p0.len() - 1)); assert(p1.last() == psum(s1, n - 1)); assert(p1.last() == p0[n - 1 - j1 + j0] + d); }
}
proof fn lem_splice1(p0: Seq<u64>, s0: Seq<u64>, p1: Seq<u64>, s1: Seq<u64>, i: int, j0: int, j1: int, d: int, k: int)
    requires posok(p0, s0), p1.len() == s1.len(), 0 <= i <= j0 <= p0.len(), i <= j1, p1.len() - j1 == p0.len() - j0, forall|k: int| 0 <= k < i ==> p1[k] == p0[k] && s1[k] == s0[k],
        forall|k: int| j1 <= k < p1.len() ==> s1[k] == s0[k - j1 + j0] && p1[k] == p0[k - j1 + j0] + d, forall|m: int| i <= m <= j1 && m < p1.len() ==> #[trigger] chain_at(p1, s1, m), 0 <= k < p1.len()
    ensures p1[k] == psum(s1, k) decreases k
{
    reveal(posok); 
    if k > 0 { lem_splice1(p0, s0, p1, s1, i, j0, j1, d, k - 1); }
    if k < i { lem_same(s0, s1, k); assert(p0[k] == psum(s0, k)); }
    else if k <= j1 { assert(chain_at(p1, s1, k)); }
    else { let m = k - j1 + j0; assert(p0[m] == psum(s0, m)); assert(p0[m - 1] == psum(s0, m - 1)); assert(s1[k - 1] == s0[k - 1 - j1 + j0]); assert(p1[k - 1] == p0[k - 1 - j1 + j0] + d); }
}
// ---- content
pub proof fn lem_flat_cat(a: Seq<Seq<Cell>>, b: Seq<Seq<Cell>>) ensures flat(a + b) == flat(a) + flat(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); assert(flat(a) + flat(b) =~= flat(a)); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lem_flat_cat(a, b.drop_last()); assert(flat(a + b) =~= flat(a) + flat(b)); } }
pub proof fn lem_flat1(a: Seq<Cell>) ensures flat(seq![a]) == a { reveal_with_fuel(flat, 3); assert(seq![a].drop_last() =~= Seq::<Seq<Cell>>::empty()); assert(flat(seq![a]) =~= a); }
pub proof fn lem_flat2(a: Seq<Cell>, b: Seq<Cell>) ensures flat(seq![a, b]) == a + b { lem_flat1(a); lem_flat1(b); lem_flat_cat(seq![a], seq![b]); assert(seq![a] + seq![b] =~= seq![a, b]); }
pub proof fn lem_flat3(a: Seq<Cell>, b: Seq<Cell>, c: Seq<Cell>) ensures flat(seq![a, b, c]) == a + b + c { lem_flat2(a, b); lem_flat1(c); lem_flat_cat(seq![a, b], seq![c]); assert(seq![a, b] + seq![c] =~= seq![a, b, c]); }
pub proof fn lem_len(h: Heap, t: Ptr, i: int) requires shp(h, t), 0 <= i <= nb(h, t) ensures flat(blks(h, t).take(i)).len() == psum(sz(h, t), i), i == nb(h, t) ==> view(h, t).len() == cur(h, t) decreases i
{
    reveal(view); let b = blks(h, t);
    if i > 0 { lem_len(h, t, i - 1); assert(b.take(i).drop_last() =~= b.take(i - 1)); assert(b.take(i).last() == b[i - 1]); assert(blkok(h, t, i - 1)); }
    if i == nb(h, t) { assert(b.take(i) =~= b); }
}
// the cells of block i
pub proof fn lem_cell(h: Heap, t: Ptr, i: int, o: int) requires shp(h, t), 0 <= i < nb(h, t), 0 <= o < sz(h, t)[i]
    ensures view(h, t).len() == cur(h, t), ps(h, t)[i] + o < cur(h, t), view(h, t)[ps(h, t)[i] + o] == (if db(h, t)[i] == 0 { Cell::Empty } else { Cell::Elem(h.eb_type[db(h, t)[i]], h.g_el[db(h, t)[i]][o]) })
{
    reveal(view); let b = blks(h, t); lem_tile(h, t, i); lem_len(h, t, i); lem_len(h, t, nb(h, t)); assert(blkok(h, t, i));
    lem_flat_cat(b.take(i), b.skip(i)); assert(b.take(i) + b.skip(i) =~= b); lem_flat_cat(seq![b[i]], b.skip(i + 1)); assert(seq![b[i]] + b.skip(i + 1) =~= b.skip(i)); lem_flat1(b[i]);
}
// replacing the blocks i..j by the blocks mid replaces the cells between their positions
#[verifier::spinoff_prover] #[verifier::rlimit(80)] pub proof fn lem_edit(h: Heap, g: Heap, t: Ptr, i: int, j: int, mid: Seq<Seq<Cell>>)
    requires shp(h, t), 0 <= i <= j <= nb(h, t), blks(g, t) =~= blks(h, t).take(i) + mid + blks(h, t).skip(j)
    ensures view(g, t) == view(h, t).take(psum(sz(h, t), i)) + flat(mid) + view(h, t).skip(psum(sz(h, t), j)), flat(blks(h, t).subrange(i, j)) == view(h, t).subrange(psum(sz(h, t), i), psum(sz(h, t), j)), 
        0 <= psum(sz(h, t), i) <= psum(sz(h, t), j) <= cur(h, t), view(h, t).len() == cur(h, t)
{
    reveal(view); let b = blks(h, t); lem_len(h, t, i); lem_len(h, t, j); lem_len(h, t, nb(h, t)); lem_mono(sz(h, t), 0, i); lem_mono(sz(h, t), i, j); lem_mono(sz(h, t), j, nb(h, t));
    lem_flat_cat(b.take(i), b.skip(i)); assert(b.take(i) + b.skip(i) =~= b); lem_flat_cat(b.take(j), b.skip(j)); assert(b.take(j) + b.skip(j) =~= b);
    lem_flat_cat(b.take(i), b.subrange(i, j)); assert(b.take(i) + b.subrange(i, j) =~= b.take(j));
    lem_flat_cat(b.take(i) + mid, b.skip(j)); lem_flat_cat(b.take(i), mid); 
    assert(flat(b).take(psum(sz(h, t), i)) =~= flat(b.take(i))); assert(flat(b).skip(psum(sz(h, t), j)) =~= flat(b.skip(j)));
    assert(flat(b.subrange(i, j)) =~= flat(b).subrange(psum(sz(h, t), i), psum(sz(h, t), j)));
}
pub proof fn lem_empty_cells(h: Heap, n: int, m: int) requires n >= 0, m >= 0 ensures bcells(h, 0, n) + bcells(h, 0, m) == bcells(h, 0, n + m) { assert(bcells(h, 0, n) + bcells(h, 0, m) =~= bcells(h, 0, n + m)); }
// the cells of block i as a whole
pub proof fn lem_block(h: Heap, t: Ptr, i: int) requires shp(h, t), 0 <= i < nb(h, t) ensures bcells(h, db(h, t)[i], sz(h, t)[i] as int) == view(h, t).subrange(ps(h, t)[i] as int, ps(h, t)[i] + sz(h, t)[i]), bcells(h, db(h, t)[i], sz(h, t)[i] as int).len() == sz(h, t)[i], view(h, t).len() == cur(h, t)
{ lem_tile(h, t, i); assert(blks(h, t) =~= blks(h, t).take(i) + blks(h, t).subrange(i, i + 1) + blks(h, t).skip(i + 1)); lem_edit(h, h, t, i, i + 1, blks(h, t).subrange(i, i + 1)); assert(blks(h, t).subrange(i, i + 1) =~= seq![blks(h, t)[i]]); lem_flat1(blks(h, t)[i]); assert(blkok(h, t, i)); assert(psum(sz(h, t), i + 1) == psum(sz(h, t), i) + sz(h, t)[i]); }
pub open spec fn blk_of(h: Heap, t: Ptr, i: int, row: int) -> bool { 0 <= i < nb(h, t) && ps(h, t)[i] <= row < ps(h, t)[i] + sz(h, t)[i] }

// ---- the blocks i..j of h become the blocks i..i+n of g, all later positions move by d
#[verifier::opaque] pub open spec fn splc(h: Heap, g: Heap, t: Ptr, i: int, j: int, n: int, d: int) -> bool {
    &&& 0 <= i <= j <= nb(h, t) && n >= 0 && nb(g, t) == nb(h, t) - (j - i) + n && sz(g, t).len() == nb(g, t) && db(g, t).len() == nb(g, t)
    &&& forall|k: int| 0 <= k < i ==> #[trigger] db(g, t)[k] == db(h, t)[k] && sz(g, t)[k] == sz(h, t)[k] && ps(g, t)[k] == ps(h, t)[k]
    &&& forall|k: int| i + n <= k < nb(g, t) ==> #[trigger] db(g, t)[k] == db(h, t)[k - n + (j - i)] && sz(g, t)[k] == sz(h, t)[k - n + (j - i)] && ps(g, t)[k] == ps(h, t)[k - n + (j - i)] + d
    &&& forall|k: int| 0 <= k < nb(h, t) && !(i <= k < j) && db(h, t)[k] != 0 ==> g.al_eb.contains(#[trigger] db(h, t)[k]) && el(g, db(h, t)[k]) == el(h, db(h, t)[k]) && g.eb_type[db(h, t)[k]] == h.eb_type[db(h, t)[k]]
}
pub open spec fn endof(h: Heap, t: Ptr) -> int { if nb(h, t) == 0 { 0 } else { ps(h, t).last() + sz(h, t).last() } }
#[verifier::spinoff_prover] #[verifier::rlimit(80)] pub proof fn lem_shp(h: Heap, g: Heap, t: Ptr, i: int, j: int, n: int, d: int)
    requires shp(h, t), splc(h, g, t, i, j, n, d), oth(h, g, t), forall|m: int| i <= m <= i + n && m < nb(g, t) ==> #[trigger] chain_at(ps(g, t), sz(g, t), m), forall|k: int| i <= k < i + n ==> #[trigger] blkok(g, t, k),
        cur(g, t) == cur(h, t) + d, cur(g, t) <= 0x7fff_ffff_ffff_ffff, i + n == nb(g, t) ==> cur(g, t) == endof(g, t)
    ensures shp(g, t), view(g, t) == view(h, t).take(psum(sz(h, t), i)) + flat(blks(g, t).subrange(i, i + n)) + view(h, t).skip(psum(sz(h, t), j)), psum(sz(g, t), i) == psum(sz(h, t), i), 0 <= psum(sz(h, t), i) <= psum(sz(h, t), j) <= cur(h, t),
        i < nb(h, t) ==> psum(sz(h, t), i) == ps(h, t)[i], j < nb(h, t) ==> psum(sz(h, t), j) == ps(h, t)[j], i == nb(h, t) ==> psum(sz(h, t), i) == cur(h, t), j == nb(h, t) ==> psum(sz(h, t), j) == cur(h, t), j > 0 ==> psum(sz(h, t), j) == ps(h, t)[j - 1] + sz(h, t)[j - 1],
        view(h, t).len() == cur(h, t), view(g, t).len() == cur(g, t)
{
    reveal(splc); reveal(oth);
    assert(posok(ps(h, t), sz(h, t)));
    assert forall|k: int| 0 <= k < i implies ps(g, t)[k] == ps(h, t)[k] && sz(g, t)[k] == sz(h, t)[k] by { assert(db(g, t)[k] == db(h, t)[k]); }
    assert forall|k: int| i + n <= k < nb(g, t) implies sz(g, t)[k] == sz(h, t)[k - (i + n) + j] && ps(g, t)[k] == ps(h, t)[k - (i + n) + j] + d by { assert(db(g, t)[k] == db(h, t)[k - n + (j - i)]); }
    lem_splice(ps(h, t), sz(h, t), ps(g, t), sz(g, t), i, j, i + n, d);
    assert forall|k: int| 0 <= k < nb(g, t) implies #[trigger] blkok(g, t, k) by { if k < i { assert(db(g, t)[k] == db(h, t)[k]); assert(blkok(h, t, k)); } else if k >= i + n { assert(db(g, t)[k] == db(h, t)[k - n + (j - i)]); assert(blkok(h, t, k - n + (j - i))); } }
    assert(cur(g, t) == psum(sz(g, t), nb(g, t)));
    assert(shp(g, t));
    lem_same(sz(g, t), sz(h, t), i);
    assert forall|k: int| 0 <= k < blks(g, t).len() implies #[trigger] blks(g, t)[k] =~= (blks(h, t).take(i) + blks(g, t).subrange(i, i + n) + blks(h, t).skip(j))[k] by {
        if k < i { assert(db(g, t)[k] == db(h, t)[k]); assert(blks(h, t).take(i)[k] == blks(h, t)[k]); }
        else if k >= i + n { assert(db(g, t)[k] == db(h, t)[k - n + (j - i)]); assert(blks(h, t).skip(j)[k - n - i] == blks(h, t)[k - n - i + j]); }
    }
    assert(blks(g, t) =~= blks(h, t).take(i) + blks(g, t).subrange(i, i + n) + blks(h, t).skip(j));
    lem_edit(h, g, t, i, j, blks(g, t).subrange(i, i + n));
    if i < nb(h, t) { lem_tile(h, t, i); } if j < nb(h, t) { lem_tile(h, t, j); } if j > 0 { lem_tile(h, t, j - 1); assert(psum(sz(h, t), j) == psum(sz(h, t), j - 1) + sz(h, t)[j - 1]); }
    lem_len(g, t, nb(g, t));
}
// ownership after such a change: dead blocks left the set, new ones joined it
#[verifier::spinoff_prover] #[verifier::rlimit(80)] pub proof fn lem_own(h: Heap, g: Heap, t: Ptr, i: int, j: int, n: int, d: int)
    requires owned(h, t), shp(h, t), splc(h, g, t, i, j, n, d),
        forall|k: int| i <= k < i + n && db(g, t)[k] != 0 ==> g.al_eb.contains(#[trigger] db(g, t)[k]) && g.g_ev[t].contains(db(g, t)[k]) && (!h.al_eb.contains(db(g, t)[k]) || exists|m: int| i <= m < j && #[trigger] db(h, t)[m] == db(g, t)[k]),
        forall|k: int, m: int| #![trigger db(g, t)[k], db(g, t)[m]] i <= k < m < i + n && db(g, t)[k] != 0 ==> db(g, t)[k] != db(g, t)[m],
        forall|b: Ptr| #[trigger] g.g_ev[t].contains(b) ==> (exists|k: int| i <= k < i + n && b != 0 && #[trigger] db(g, t)[k] == b) || (h.g_ev[t].contains(b) && forall|m: int| i <= m < j ==> #[trigger] db(h, t)[m] != b),
        forall|b: Ptr| #[trigger] h.g_ev[t].contains(b) && (forall|m: int| i <= m < j ==> #[trigger] db(h, t)[m] != b) ==> g.g_ev[t].contains(b),
    ensures owned(g, t)
{
    reveal(splc); reveal(owned);
    assert forall|a: int, b: int| #![trigger db(g, t)[a], db(g, t)[b]] 0 <= a < b < db(g, t).len() && db(g, t)[a] != 0 implies db(g, t)[a] != db(g, t)[b] by {
        let oa = if a < i { a } else { a - n + (j - i) }; let ob = if b < i { b } else { b - n + (j - i) };
        if !(i <= a < i + n) { assert(db(g, t)[a] == db(h, t)[oa]); assert(blkok(h, t, oa)); }
        if !(i <= b < i + n) { assert(db(g, t)[b] == db(h, t)[ob]); assert(blkok(h, t, ob)); }
    }
    assert forall|a: int| 0 <= a < db(g, t).len() && db(g, t)[a] != 0 implies g.g_ev[t].contains(#[trigger] db(g, t)[a]) by {
        let oa = if a < i { a } else { a - n + (j - i) };
        if !(i <= a < i + n) { assert(db(g, t)[a] == db(h, t)[oa]); assert(h.g_ev[t].contains(db(h, t)[oa])); assert forall|m: int| i <= m < j implies #[trigger] db(h, t)[m] != db(h, t)[oa] by {} }
    }
    assert forall|b: Ptr| #[trigger] g.g_ev[t].contains(b) implies b != 0 && g.al_eb.contains(b) && exists|a: int| 0 <= a < db(g, t).len() && #[trigger] db(g, t)[a] == b by {
        if !(exists|k: int| i <= k < i + n && b != 0 && #[trigger] db(g, t)[k] == b) {
            let a = choose|a: int| 0 <= a < db(h, t).len() && #[trigger] db(h, t)[a] == b;
            assert(!(i <= a < j)); let x = if a < i { a } else { a + n - (j - i) };
            assert(db(g, t)[x] == b);
        } else { let k = choose|k: int| i <= k < i + n && b != 0 && #[trigger] db(g, t)[k] == b; assert(db(g, t)[k] == b); }
    }
}
pub proof fn lem_has(h: Heap, t: Ptr, i: int) requires owned(h, t), 0 <= i < db(h, t).len(), db(h, t)[i] != 0 ensures h.g_ev[t].contains(db(h, t)[i]), h.al_eb.contains(db(h, t)[i]), forall|k: int| 0 <= k < db(h, t).len() && k != i ==> #[trigger] db(h, t)[k] != db(h, t)[i] { reveal(owned); }
pub proof fn lem_adj(h: Heap, t: Ptr, a: int, b: int, i: int) requires canx(h, t, a, b), 0 <= i, i + 1 < nb(h, t), !(a <= i < b) ensures kind(h, db(h, t)[i]) != kind(h, db(h, t)[i + 1]) { reveal(canx); assert(db(h, t)[i] == db(h, t)[i]); }
pub proof fn lem_canx_id(h: Heap, t: Ptr, a: int, b: int, c: int, e: int) requires canx(h, t, a, b), forall|k: int| a <= k < b && 0 <= k && k + 1 < nb(h, t) && !(c <= k < e) ==> kind(h, #[trigger] db(h, t)[k]) != kind(h, db(h, t)[k + 1]) ensures canx(h, t, c, e) { reveal(canx); }
// canonical after such a change but for the pairs c..e, when the new boundaries are
#[verifier::spinoff_prover] #[verifier::rlimit(80)] pub proof fn lem_can(h: Heap, g: Heap, t: Ptr, i: int, j: int, n: int, d: int, a: int, b: int, c: int, e: int)
    requires canx(h, t, a, b), splc(h, g, t, i, j, n, d), shp(h, t),
        forall|k: int| a <= k < b && 0 <= k < i - 1 ==> #[trigger] bt(k) && c <= k < e, forall|k: int| a <= k < b && j <= k ==> #[trigger] bt(k) && c <= k + n - (j - i) < e,
        !(c <= i - 1 < e) && n > 0 && i > 0 ==> kind(g, db(g, t)[i]) != kind(h, db(h, t)[i - 1]), !(c <= i + n - 1 < e) && n > 0 && j < nb(h, t) ==> kind(g, db(g, t)[i + n - 1]) != kind(h, db(h, t)[j]), !(c <= i - 1 < e) && n == 0 && i > 0 && j < nb(h, t) ==> kind(h, db(h, t)[i - 1]) != kind(h, db(h, t)[j]),
        forall|m: int| i < m < i + n && !(c <= m - 1 < e) ==> kind(g, #[trigger] db(g, t)[m]) != kind(g, db(g, t)[m - 1])
    ensures canx(g, t, c, e)
{
    reveal(splc); reveal(canx);
    assert forall|k: int| #![trigger db(g, t)[k]] 0 <= k && k + 1 < nb(g, t) && !(c <= k < e) implies kind(g, db(g, t)[k]) != kind(g, db(g, t)[k + 1]) by {
        let b = k + 1; let oa = if k < i { k } else { k - n + (j - i) }; let ob = if b < i { b } else { b - n + (j - i) };
        if i < b < i + n { assert(kind(g, db(g, t)[b]) != kind(g, db(g, t)[b - 1])); }
        else if i <= b <= i + n { if !(i <= k < i + n) { assert(db(g, t)[k] == db(h, t)[oa]); } if !(i <= b < i + n) { assert(db(g, t)[b] == db(h, t)[ob]); } }
        else { assert(bt(oa)); assert(db(g, t)[k] == db(h, t)[oa] && db(g, t)[b] == db(h, t)[ob]); assert(kind(h, db(h, t)[oa]) != kind(h, db(h, t)[ob])); }
    }
}
pub open spec fn bt(k: int) -> bool { true }
// ---- trusted: element blocks (typed vectors behind base_element_block), by block_funcs and the mdds_mtv_* functions
pub open spec fn el(h: Heap, b: Ptr) -> Seq<Val> { h.g_el[b] }
pub open spec fn setel(h: Heap, b: Ptr, s: Seq<Val>) -> Heap { Heap { g_el: h.g_el.insert(b, s), ..h } }
#[verifier::external_body] pub fn eb_create(h: &mut Ghost<Heap>, ty: i32, n: u64) -> (r: Ptr) requires ty != -1 ensures r != 0, !old(h)@.al_eb.contains(r), final(h)@ == (Heap { al_eb: old(h)@.al_eb.insert(r), eb_type: old(h)@.eb_type.insert(r, ty), g_el: old(h)@.g_el.insert(r, Seq::new(n as nat, |k: int| dflt())), ..old(h)@ }) { unimplemented!() }
#[verifier::external_body] pub fn eb_delete(h: &mut Ghost<Heap>, b: Ptr) requires b != 0 ==> old(h)@.al_eb.contains(b) ensures final(h)@ == (if b == 0 { old(h)@ } else { Heap { al_eb: old(h)@.al_eb.remove(b), ..old(h)@ } }) { unimplemented!() }
#[verifier::external_body] pub fn eb_resize(h: &mut Ghost<Heap>, b: Ptr, n: u64) requires old(h)@.al_eb.contains(b) ensures final(h)@ == setel(old(h)@, b, if n <= el(old(h)@, b).len() { el(old(h)@, b).take(n as int) } else { el(old(h)@, b) + Seq::new((n - el(old(h)@, b).len()) as nat, |k: int| dflt()) }) { unimplemented!() }
#[verifier::external_body] pub fn eb_erase(h: &mut Ghost<Heap>, b: Ptr, i: u64, n: u64) requires old(h)@.al_eb.contains(b), i + n <= el(old(h)@, b).len() ensures final(h)@ == setel(old(h)@, b, el(old(h)@, b).take(i as int) + el(old(h)@, b).skip(i + n)) { unimplemented!() }
#[verifier::external_body] pub fn eb_overwrite(h: &mut Ghost<Heap>, b: Ptr, i: u64, n: u64) requires old(h)@.al_eb.contains(b), i + n <= el(old(h)@, b).len() ensures final(h)@ == old(h)@ { unimplemented!() }
#[verifier::external_body] pub fn eb_append_block(h: &mut Ghost<Heap>, b: Ptr, s: Ptr) requires old(h)@.al_eb.contains(b), old(h)@.al_eb.contains(s), old(h)@.eb_type[b] == old(h)@.eb_type[s] ensures final(h)@ == setel(old(h)@, b, el(old(h)@, b) + el(old(h)@, s)) { unimplemented!() }
#[verifier::external_body] pub fn eb_append_from(h: &mut Ghost<Heap>, b: Ptr, s: Ptr, i: u64, n: u64) requires b != s, old(h)@.al_eb.contains(b), old(h)@.al_eb.contains(s), old(h)@.eb_type[b] == old(h)@.eb_type[s], i + n <= el(old(h)@, s).len() ensures final(h)@ == setel(old(h)@, b, el(old(h)@, b) + el(old(h)@, s).subrange(i as int, i + n)) { unimplemented!() }
#[verifier::external_body] pub fn eb_assign_from(h: &mut Ghost<Heap>, b: Ptr, s: Ptr, i: u64, n: u64) requires b != s, old(h)@.al_eb.contains(b), old(h)@.al_eb.contains(s), old(h)@.eb_type[b] == old(h)@.eb_type[s], i + n <= el(old(h)@, s).len() ensures final(h)@ == setel(old(h)@, b, el(old(h)@, s).subrange(i as int, i + n)) { unimplemented!() }
#[verifier::external_body] pub fn eb_prepend_from(h: &mut Ghost<Heap>, b: Ptr, s: Ptr, i: u64, n: u64) requires b != s, old(h)@.al_eb.contains(b), old(h)@.al_eb.contains(s), old(h)@.eb_type[b] == old(h)@.eb_type[s], i + n <= el(old(h)@, s).len() ensures final(h)@ == setel(old(h)@, b, el(old(h)@, s).subrange(i as int, i + n) + el(old(h)@, b)) { unimplemented!() }
#[verifier::external_body] pub fn eb_size(h: &mut Ghost<Heap>, b: Ptr) -> (r: u64) requires old(h)@.al_eb.contains(b) ensures final(h)@ == old(h)@, r == el(old(h)@, b).len() { unimplemented!() }
#[verifier::external_body] pub fn eb_get(h: &Ghost<Heap>, b: Ptr, i: u64) -> (r: Val) requires h@.al_eb.contains(b), h@.eb_type[b] == 50, i < el(h@, b).len() ensures r == el(h@, b)[i as int] { unimplemented!() }
#[verifier::external_body] pub fn eb_set(h: &mut Ghost<Heap>, b: Ptr, i: u64, v: Val) requires old(h)@.al_eb.contains(b), old(h)@.eb_type[b] == 50, i < el(old(h)@, b).len() ensures final(h)@ == setel(old(h)@, b, el(old(h)@, b).update(i as int, v)) { unimplemented!() }
#[verifier::external_body] pub fn eb_append(h: &mut Ghost<Heap>, b: Ptr, v: Val) requires old(h)@.al_eb.contains(b), old(h)@.eb_type[b] == 50 ensures final(h)@ == setel(old(h)@, b, el(old(h)@, b).push(v)) { unimplemented!() }
#[verifier::external_body] pub fn eb_prepend(h: &mut Ghost<Heap>, b: Ptr, v: Val) requires old(h)@.al_eb.contains(b), old(h)@.eb_type[b] == 50 ensures final(h)@ == setel(old(h)@, b, seq![v] + el(old(h)@, b)) { unimplemented!() }
#[verifier::external_body] pub fn dflt_val() -> (r: Val) ensures r == dflt() { unimplemented!() }
// ---- the event handler: told of each block once when acquired, once when released
#[verifier::external_body] pub fn ev_acquired(h: &mut Ghost<Heap>, t: Ptr, b: Ptr) requires b != 0, old(h)@.al_eb.contains(b), !old(h)@.g_ev[t].contains(b) ensures final(h)@ == (Heap { g_ev: old(h)@.g_ev.insert(t, old(h)@.g_ev[t].insert(b)), ..old(h)@ }) { unimplemented!() }
#[verifier::external_body] pub fn ev_released(h: &mut Ghost<Heap>, t: Ptr, b: Ptr) requires old(h)@.al_eb.contains(b), old(h)@.g_ev[t].contains(b) ensures final(h)@ == (Heap { g_ev: old(h)@.g_ev.insert(t, old(h)@.g_ev[t].remove(b)), ..old(h)@ }) { unimplemented!() }
#[verifier::external_body] pub fn ev_swapped(h: &mut Ghost<Heap>, t: Ptr, u: Ptr) ensures final(h)@ == (Heap { g_ev: old(h)@.g_ev.insert(t, old(h)@.g_ev[u]).insert(u, old(h)@.g_ev[t]), ..old(h)@ }) { unimplemented!() }
// equality of two element blocks; std::equal over two block lists; a copy of every block of a list
pub open spec fn eqb(h: Heap, a: Ptr, b: Ptr) -> bool { if a == 0 || b == 0 { a == b } else { h.eb_type[a] == h.eb_type[b] && h.g_el[a] == h.g_el[b] } }
pub open spec fn blkall(h: Heap, s: Seq<Ptr>) -> bool { forall|i: int| 0 <= i < s.len() && #[trigger] s[i] != 0 ==> h.al_eb.contains(s[i]) }
#[verifier::opaque] pub open spec fn eqbs(h: Heap, a: Seq<Ptr>, b: Seq<Ptr>) -> bool { a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> eqb(h, a[i], b[i]) }
#[verifier::external_body] pub fn eb_equal(h: &Ghost<Heap>, a: Ptr, b: Ptr) -> (r: bool) requires h@.al_eb.contains(a), h@.al_eb.contains(b) ensures r == (h@.eb_type[a] == h@.eb_type[b] && h@.g_el[a] == h@.g_el[b]) { unimplemented!() }
#[verifier::external_body] pub fn eb_equal_lists(h: &Ghost<Heap>, a: &CVec<Ptr>, b: &CVec<Ptr>) -> (r: bool) requires a@.len() <= b@.len(), blkall(h@, a@), blkall(h@, b@) ensures a@.len() == b@.len() ==> r == eqbs(h@, a@, b@) { unimplemented!() }
#[verifier::opaque] pub open spec fn fresh_copies(h: Heap, s: Seq<Ptr>, g: Heap, d: Seq<Ptr>) -> bool {
    &&& d.len() == s.len() && forall|b: Ptr| #![trigger g.al_eb.contains(b)] h.al_eb.contains(b) ==> g.al_eb.contains(b) && g.g_el[b] == h.g_el[b] && g.eb_type[b] == h.eb_type[b]
    &&& forall|i: int| #![trigger d[i]] #![trigger s[i]] 0 <= i < s.len() ==> (d[i] == 0 <==> s[i] == 0) && (d[i] != 0 ==> g.al_eb.contains(d[i]) && !h.al_eb.contains(d[i]) && eqb(g, d[i], s[i]))
    &&& forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() && d[i] != 0 ==> d[i] != d[j]
}
#[verifier::external_body] pub fn eb_copy_lists(h: &mut Ghost<Heap>, a: &CVec<Ptr>) -> (r: CVec<Ptr>) requires blkall(old(h)@, a@) ensures fresh_copies(old(h)@, a@, final(h)@, r@),
    final(h)@ == (Heap { al_eb: final(h)@.al_eb, eb_type: final(h)@.eb_type, g_el: final(h)@.g_el, ..old(h)@ }) { unimplemented!() }
// ---- trusted: an iterator to the given block, and stepping it
impl mit { #[verifier::external_body] pub fn next(self) -> (r: mit) ensures r.parent == self.parent, r.index == self.index + 1 { unimplemented!() } #[verifier::external_body] pub fn prev(self) -> (r: mit) requires self.index > 0 ensures r.parent == self.parent, r.index == self.index - 1 { unimplemented!() } }
#[verifier::external_body] pub fn mk_itr(t: Ptr, i: u64) -> (r: mit) ensures r.parent == t, r.index == i { unimplemented!() }
// std::lower_bound over sorted numbers
#[verifier::external_body] pub fn lower_bound_u64(b: CIt<u64>, e: CIt<u64>, x: u64) -> (r: CIt<u64>)
    requires b.v == e.v, b.i <= e.i <= b.v@.len(), forall|i: int, j: int| b.i <= i <= j < e.i ==> #[trigger] b.v@[i] <= #[trigger] b.v@[j]
    ensures r.v == b.v, b.i <= r.i <= e.i, forall|k: int| b.i <= k < r.i ==> #[trigger] b.v@[k] < x, forall|k: int| r.i <= k < e.i ==> x <= #[trigger] b.v@[k]
{ unimplemented!() }
"""
SORTED='proof { assert forall|i: int, j: int| 0 <= i <= j < nb(h@, this) implies #[trigger] ps(h@, this)[i] <= #[trigger] ps(h@, this)[j] by { if i < j { lem_sorted(h@, this, i, j); } } }'
ENT='proof { if nb(h@, this) > 0 { lem_tile(h@, this, 0); } }'
CONTRACTS={
 'mtv.size':dict(requires=['H.al_mtv.contains(this)'],ensures=['r == cur(H, this)']),
 'mtv.block_size':dict(requires=['H.al_mtv.contains(this)'],ensures=['r == nb(H, this)']),
 'mtv.empty':dict(requires=['shp(H, this)'],ensures=['r == (cur(H, this) == 0)'],at={'entry':'proof { if nb(h@, this) > 0 { lem_tile(h@, this, 0); } }'}),
 'mtv.get_block_position/2':dict(where='unsigned long|size_type, (size_type|unsigned)',requires=['shp(H, this)','start_block_index < nb(H, this) && row < cur(H, this) ==> ps(H, this)[start_block_index as int] <= row'],
   ensures=['row >= cur(H, this) || start_block_index >= nb(H, this) ==> r == nb(H, this)','row < cur(H, this) && start_block_index < nb(H, this) ==> blk_of(H, this, r as int, row as int) && start_block_index <= r'],
   broadcast='cvec_len_bound',at={'entry':SORTED,'decl:pos':'proof { lem_tile(h@, this, pos as int); if pos + 1 < nb(h@, this) { lem_tile(h@, this, pos + 1); } }'}),
 'mtv.get_type':dict(requires=['shp(H, this)'],throws='pos >= cur(H, this)',ensures=['pos < cur(H, this)','r == (match view(H, this)[pos as int] { Cell::Empty => -1, Cell::Elem(ty, v) => ty as int })'],
   at={'entry':ENT,'decl:blk_data':'proof { lem_cell(h@, this, block_index as int, pos - ps(h@, this)[block_index as int]); assert(blkok(h@, this, block_index as int)); }'}),
 'mtv.is_empty':dict(requires=['shp(H, this)'],throws='pos >= cur(H, this)',ensures=['pos < cur(H, this)','r == (view(H, this)[pos as int] is Empty)'],
   at={'entry':ENT,'exit':'proof { lem_cell(h@, this, block_index as int, pos - ps(h@, this)[block_index as int]); assert(blkok(h@, this, block_index as int)); }'}),
 'mtv.get_impl':dict(requires=['shp(H, this)','pos < cur(H, this) ==> (match view(H, this)[pos as int] { Cell::Empty => true, Cell::Elem(ty, v) => ty == 50 })'],throws='pos >= cur(H, this)',
   ensures=['pos < cur(H, this)','*final(value) == (match view(H, this)[pos as int] { Cell::Empty => dflt(), Cell::Elem(ty, v) => v })'],
   at={'entry':ENT,'decl:data':'proof { lem_cell(h@, this, block_index as int, pos - ps(h@, this)[block_index as int]); assert(blkok(h@, this, block_index as int)); }'}),
}
B3=['positions','sizes','element_blocks']
def each(f,*fs): return ' && '.join(f.replace('@F',x) for x in (fs or B3))
CONTRACTS.update({
 'bst.erase/1':dict(requires=[each('index < old(this).@F@.len()')],ensures=[each('final(this).@F@ == old(this).@F@.remove(index as int)')]),
 'bst.erase/2':dict(requires=[each('index + size <= old(this).@F@.len()')],ensures=[each('final(this).@F@ == old(this).@F@.take(index as int) + old(this).@F@.skip(index + size)')]),
 'bst.insert/2#n':dict(bind='bst.insert/2',where='size_type, size_type',requires=[each('index <= old(this).@F@.len()')],ensures=[
   'final(this).positions@ == old(this).positions@.take(index as int) + Seq::new(size as nat, |k: int| 0u64) + old(this).positions@.skip(index as int)',
   'final(this).sizes@ == old(this).sizes@.take(index as int) + Seq::new(size as nat, |k: int| 0u64) + old(this).sizes@.skip(index as int)',
   'final(this).element_blocks@ == old(this).element_blocks@.take(index as int) + Seq::new(size as nat, |k: int| 0 as Ptr) + old(this).element_blocks@.skip(index as int)']),
 'bst.insert/4':dict(requires=[each('index <= old(this).@F@.len()')],ensures=['final(this).positions@ == old(this).positions@.insert(index as int, pos)','final(this).sizes@ == old(this).sizes@.insert(index as int, size)','final(this).element_blocks@ == old(this).element_blocks@.insert(index as int, data)']),
 'bst.push_back/3':dict(requires=[],ensures=['final(this).positions@ == old(this).positions@.push(pos)','final(this).sizes@ == old(this).sizes@.push(size)','final(this).element_blocks@ == old(this).element_blocks@.push(data)']),
 'bst.calc_block_position':dict(requires=['index < old(this).positions@.len()','old(this).positions@.len() == old(this).sizes@.len()','index > 0 ==> old(this).positions@[index - 1] + old(this).sizes@[index - 1] <= 0xffff_ffff_ffff_ffff'],
   ensures=['final(this).positions@ == old(this).positions@.update(index as int, if index == 0 { 0u64 } else { (old(this).positions@[index - 1] + old(this).sizes@[index - 1]) as u64 })','final(this).sizes@ == old(this).sizes@','final(this).element_blocks@ == old(this).element_blocks@']),
 'bst.calc_next_block_position':dict(requires=['index < old(this).positions@.len() && index < old(this).sizes@.len()','old(this).positions@[index as int] + old(this).sizes@[index as int] <= 0xffff_ffff_ffff_ffff'],ensures=['r == old(this).positions@[index as int] + old(this).sizes@[index as int]','*final(this) == *old(this)']),
 'bst.swap/2':dict(requires=[each('index1 < old(this).@F@.len() && index2 < old(this).@F@.len()')],ensures=[each('final(this).@F@ == old(this).@F@.update(index1 as int, old(this).@F@[index2 as int]).update(index2 as int, old(this).@F@[index1 as int])')]),
 'bst.swap/1':dict(requires=[],ensures=[each('final(this).@F@ == old(other).@F@ && final(other).@F@ == old(this).@F@')]),
 'bst.clear':dict(requires=[],ensures=[each('final(this).@F@.len() == 0')]),
 'adj.operator()':dict(requires=['0 <= start_block_index','forall|k: int| start_block_index <= k < old(block_store).positions@.len() ==> 0 <= #[trigger] old(block_store).positions@[k] + delta <= 0xffff_ffff_ffff_ffff'],
   ensures=['final(block_store).sizes@ == old(block_store).sizes@','final(block_store).element_blocks@ == old(block_store).element_blocks@','final(block_store).positions@.len() == old(block_store).positions@.len()',
     'forall|k: int| 0 <= k < old(block_store).positions@.len() ==> #[trigger] final(block_store).positions@[k] == old(block_store).positions@[k] + if k >= start_block_index { delta as int } else { 0 }'],
   loops=[dict(before='assert(len - start_block_index == (n - start_block_index) - (n - start_block_index) % 16);',inv=['0 <= start_block_index <= i <= len','len <= n','n == block_store.positions@.len()','n == old(block_store).positions@.len()','rem == n - len','(len - i) % 16 == 0','block_store.sizes@ == old(block_store).sizes@','block_store.element_blocks@ == old(block_store).element_blocks@',
      'forall|k: int| start_block_index <= k < old(block_store).positions@.len() ==> 0 <= #[trigger] old(block_store).positions@[k] + delta <= 0xffff_ffff_ffff_ffff',
      'forall|k: int| 0 <= k < old(block_store).positions@.len() ==> #[trigger] block_store.positions@[k] == old(block_store).positions@[k] + if start_block_index <= k < i { delta as int } else { 0 }'],dec='len - i'),
     dict(inv=['0 <= start_block_index <= i_2 <= rem','rem == n','n == block_store.positions@.len()','n == old(block_store).positions@.len()','block_store.sizes@ == old(block_store).sizes@','block_store.element_blocks@ == old(block_store).element_blocks@',
      'forall|k: int| start_block_index <= k < old(block_store).positions@.len() ==> 0 <= #[trigger] old(block_store).positions@[k] + delta <= 0xffff_ffff_ffff_ffff',
      'forall|k: int| 0 <= k < old(block_store).positions@.len() ==> #[trigger] block_store.positions@[k] == old(block_store).positions@[k] + if start_block_index <= k < i_2 { delta as int } else { 0 }'],dec='rem - i_2')]),
})
NEWB='(!H0.al_eb.contains(db(H, this)[%s]) || db(H, this)[%s] == db(H0, this)[%s]) && db(H, this)[%s] != 0'
SAMEP=['ps(H, this) == ps(H0, this)','sz(H, this) == sz(H0, this)','cur(H, this) == cur(H0, this)','H.al_mtv == H0.al_mtv']
OTH=['oth(H0, H, this)']
CONTRACTS.update({
 'mtv.create_new_block_with_new_cell':dict(requires=['H.al_mtv.contains(this)','block_index < db(H, this).len()','forall|b: Ptr| #[trigger] H.g_ev[this].contains(b) ==> H.al_eb.contains(b)','db(H, this)[block_index as int] != 0 ==> H.g_ev[this].contains(db(H, this)[block_index as int])'],
   ensures=SAMEP+OTH+[NEWB.replace('%s','block_index as int'),'db(H, this) == db(H0, this).update(block_index as int, db(H, this)[block_index as int])',
     'H.al_eb == (if db(H0, this)[block_index as int] != 0 { H0.al_eb.remove(db(H0, this)[block_index as int]) } else { H0.al_eb }).insert(db(H, this)[block_index as int])',
     'H.g_ev[this] == (if db(H0, this)[block_index as int] != 0 { H0.g_ev[this].remove(db(H0, this)[block_index as int]) } else { H0.g_ev[this] }).insert(db(H, this)[block_index as int])',
     'H.g_el == H0.g_el.insert(db(H, this)[block_index as int], seq![cell])','H.eb_type == H0.eb_type.insert(db(H, this)[block_index as int], 50)'],
   at={'exit':'proof { '+'assert(oth(h0, h@, this)) by { reveal(oth); } let nb_ = db(h@, this)[block_index as int]; assert(h@.g_el[nb_] =~= seq![cell]); assert(h@.g_el =~= h0.g_el.insert(nb_, seq![cell])); }'}),
 'mtv.delete_element_block':dict(requires=['H.al_mtv.contains(this)','block_index < db(H, this).len()','db(H, this)[block_index as int] != 0 ==> H.g_ev[this].contains(db(H, this)[block_index as int]) && H.al_eb.contains(db(H, this)[block_index as int])'],
   ensures=SAMEP+OTH+['db(H, this) == db(H0, this).update(block_index as int, 0)','H.al_eb == (if db(H0, this)[block_index as int] != 0 { H0.al_eb.remove(db(H0, this)[block_index as int]) } else { H0.al_eb })',
     'H.g_ev[this] == (if db(H0, this)[block_index as int] != 0 { H0.g_ev[this].remove(db(H0, this)[block_index as int]) } else { H0.g_ev[this] })','H.g_el == H0.g_el','H.eb_type == H0.eb_type'],at={'exit':'proof { assert(oth(h0, h@, this)) by { reveal(oth); } }'}),
 'mtv.is_previous_block_of_type':dict(requires=['H.al_mtv.contains(this)','block_index <= nb(H, this)','db(H, this).len() == nb(H, this)','block_index > 0 && db(H, this)[block_index - 1] != 0 ==> H.al_eb.contains(db(H, this)[block_index - 1]) && H.eb_type[db(H, this)[block_index - 1]] != -1'],ensures=['r == (block_index > 0 && kind(H, db(H, this)[block_index - 1]) == cat)'],),
 'mtv.is_next_block_of_type':dict(requires=['H.al_mtv.contains(this)','block_index < nb(H, this)','nb(H, this) <= 0x7fff_ffff_ffff_ffff','db(H, this).len() == nb(H, this)','block_index + 1 < nb(H, this) && db(H, this)[block_index + 1] != 0 ==> H.al_eb.contains(db(H, this)[block_index + 1]) && H.eb_type[db(H, this)[block_index + 1]] != -1'],ensures=['r == (block_index + 1 < nb(H, this) && kind(H, db(H, this)[block_index + 1]) == cat)'],),
})

OTHP='assert(oth(h0, h@, this)) by { reveal(oth); }'
def lemma(name,params,req,ens,i,j,n,d,pre='',view='',own='',can='',rev='',ca=('0','0','0','0'),parts='socf',chain='',frm=None):
    """the lemma that the state g is h with the blocks i..j of container t replaced by n blocks and the rest moved by d"""
    T='if i_ < nb(h, t) { lem_tile(h, t, i_); } if j_ < nb(h, t) { lem_tile(h, t, j_); } if j_ > 0 { lem_tile(h, t, j_ - 1); } if i_ > 0 { lem_tile(h, t, i_ - 1); } '
    o=['let i_ = (%s) as int; let j_ = (%s) as int; let n_ = (%s) as int; let d_ = (%s) as int;'%(i,j,n,d),pre]
    if frm is not None: o.append(frm)
    else: o.append('assert(frm(h, g, t)) by { reveal(frm); reveal(oth); '+''.join('if i_ + %d < j_ && db(h, t)[i_ + %d] != 0 { lem_has(h, t, i_ + %d); } '%(k,k,k) for k in range(4))+' assert forall|u: Ptr| #![trigger g.mtv_m_block_store[u]] #![trigger g.g_ev[u]] #![trigger g.mtv_m_cur_size[u]] u != t implies g.mtv_m_block_store[u] == h.mtv_m_block_store[u] && g.mtv_m_cur_size[u] == h.mtv_m_cur_size[u] && g.g_ev[u] == h.g_ev[u] by {} assert forall|b: Ptr| #[trigger] h.al_eb.contains(b) && !h.g_ev[t].contains(b) implies g.al_eb.contains(b) && g.g_el[b] == h.g_el[b] && g.eb_type[b] == h.eb_type[b] && !g.g_ev[t].contains(b) by {} assert forall|b: Ptr| #[trigger] g.al_eb.contains(b) && (!h.al_eb.contains(b) || h.g_ev[t].contains(b)) implies g.g_ev[t].contains(b) by {} }')
    o.append('assert(splc(h, g, t, i_, j_, n_, d_)) by { reveal(splc); reveal(owned); '+T+' assert forall|k: int| 0 <= k < nb(h, t) implies #[trigger] blkok(h, t, k) by {} '+rev+' }')
    o.append('assert forall|m: int| i_ <= m <= i_ + n_ && m < nb(g, t) implies #[trigger] chain_at(ps(g, t), sz(g, t), m) by { reveal(splc); '+T+chain+' }')
    o.append('assert forall|k: int| i_ <= k < i_ + n_ implies #[trigger] blkok(g, t, k) by { '+T+''.join('if i_ + %d < j_ { assert(blkok(h, t, i_ + %d)); } '%(k,k) for k in range(4))+' if i_ < nb(h, t) { assert(blkok(h, t, i_)); } } assert(cur(g, t) == cur(h, t) + d_); assert(i_ + n_ == nb(g, t) ==> cur(g, t) == endof(g, t)) by { reveal(splc); '+T+' } lem_shp(h, g, t, i_, j_, n_, d_);')
    if 'o' in parts: o.append('assert(owned(g, t)) by { reveal(owned); '+''.join('if i_ + %d < i_ + n_ { assert(db(g, t)[i_ + %d] == st(g, t).element_blocks@[i_ + %d]); } '%(k,k,k) for k in range(4))+own+' lem_own(h, g, t, i_, j_, n_, d_); }')
    if 'c' in parts: o.append('assert(canx(g, t, %s, %s)) by { '%ca[2:]+' let i_ = i_; if i_ > 0 && i_ < nb(h, t) && !(%s <= i_ - 1 < %s) { lem_adj(h, t, %s, %s, i_ - 1); } if 0 < j_ && j_ < nb(h, t) && !(%s <= j_ - 1 < %s) { lem_adj(h, t, %s, %s, j_ - 1); } '%(ca[:2]*4)+can+' reveal(splc); lem_can(h, g, t, i_, j_, n_, d_, %s, %s, %s, %s); }'%ca)
    o.append(view)
    return '#[verifier::spinoff_prover] #[verifier::rlimit(80)] pub proof fn %s(h: Heap, g: Heap, t: Ptr%s)\n    requires %s\n    ensures %s\n{\n    %s\n}\n'%(name,params and ', '+params,',\n        '.join(req),', '.join(ens),'\n    '.join(x for x in o if x))
SEQ='ps(g, t) == @p, sz(g, t) == @s, db(g, t) == @b'
def seqs(p,s_,b): return ['ps(g, t) == '+p,'sz(g, t) == '+s_,'db(g, t) == '+b]
WF0=['wf(h, t)','oth(h, g, t)']
PRELUDE+="pub open spec fn fresh(h: Heap, b: Ptr) -> bool { b != 0 && !h.al_eb.contains(b) }\n"
PRELUDE+=lemma('lem_top','i: int, x: Ptr, v: Val',WF0+['0 <= i < nb(h, t)','sz(h, t)[i] > 1','kind(h, db(h, t)[i]) != 50','i > 0 ==> kind(h, db(h, t)[i - 1]) != 50']+
  seqs('ps(h, t).insert(i, ps(h, t)[i]).update(i + 1, (ps(h, t)[i] + 1) as u64)','sz(h, t).insert(i, 1).update(i + 1, (sz(h, t)[i] - 1) as u64)','db(h, t).insert(i, x)')+
  ['fresh(h, x)','cur(g, t) == cur(h, t)','g.al_eb == h.al_eb.insert(x)','g.g_ev[t] == h.g_ev[t].insert(x)','g.eb_type == h.eb_type.insert(x, 50)','g.g_el == (if db(h, t)[i] != 0 { h.g_el.insert(db(h, t)[i], el(h, db(h, t)[i]).skip(1)) } else { h.g_el }).insert(x, seq![v])'],
  ['wf(g, t)','frm(h, g, t)','view(g, t) == view(h, t).update(ps(h, t)[i] as int, Cell::Elem(50, v))'],
  'i','i + 1','2','0',pre='lem_tile(h, t, i); assert(blkok(h, t, i));',
  view='let b0 = db(h, t)[i]; let a = bcells(g, x, 1); let b = bcells(g, b0, sz(g, t)[i + 1] as int); lem_block(h, t, i); assert(b =~= bcells(h, b0, sz(h, t)[i] as int).skip(1)); assert(a =~= seq![Cell::Elem(50, v)]); lem_flat2(a, b); assert(blks(g, t).subrange(i, i + 2) =~= seq![a, b]); assert(view(g, t) =~= view(h, t).update(ps(h, t)[i] as int, Cell::Elem(50, v)));')
PRELUDE+=lemma('lem_bot','i: int, x: Ptr, v: Val',WF0+['0 <= i < nb(h, t)','sz(h, t)[i] > 1','kind(h, db(h, t)[i]) != 50','i + 1 < nb(h, t) ==> kind(h, db(h, t)[i + 1]) != 50']+
  seqs('ps(h, t).insert(i + 1, (ps(h, t)[i] + sz(h, t)[i] - 1) as u64)','sz(h, t).update(i, (sz(h, t)[i] - 1) as u64).insert(i + 1, 1)','db(h, t).insert(i + 1, x)')+
  ['fresh(h, x)','cur(g, t) == cur(h, t)','g.al_eb == h.al_eb.insert(x)','g.g_ev[t] == h.g_ev[t].insert(x)','g.eb_type == h.eb_type.insert(x, 50)','g.g_el == (if db(h, t)[i] != 0 { h.g_el.insert(db(h, t)[i], el(h, db(h, t)[i]).take(sz(h, t)[i] - 1)) } else { h.g_el }).insert(x, seq![v])'],
  ['wf(g, t)','frm(h, g, t)','view(g, t) == view(h, t).update(ps(h, t)[i] + sz(h, t)[i] - 1, Cell::Elem(50, v))'],
  'i','i + 1','2','0',pre='lem_tile(h, t, i); assert(blkok(h, t, i));',
  view='let b0 = db(h, t)[i]; let a = bcells(g, x, 1); let b = bcells(g, b0, sz(g, t)[i] as int); lem_block(h, t, i); assert(b =~= bcells(h, b0, sz(h, t)[i] as int).take(sz(h, t)[i] - 1)); assert(a =~= seq![Cell::Elem(50, v)]); lem_flat2(b, a); assert(blks(g, t).subrange(i, i + 2) =~= seq![b, a]); assert(view(g, t) =~= view(h, t).update(ps(h, t)[i] + sz(h, t)[i] - 1, Cell::Elem(50, v)));')

EQ=lambda l,h='h0',g='h@': ' '.join('assert(%s);'%re.sub(r'\bt\b','this',re.sub(r'\bg\b',g,re.sub(r'\bh\b',h,x))).replace(' == ',' =~= ',1) for x in l)
# ---- writing one cell v at offset o of block i (whose kind is not 50), by where it lands
P,S,B='ps(h, t)','sz(h, t)','db(h, t)'
DROP='(if db(h, t)[i] != 0 { h.%s.remove(db(h, t)[i]) } else { h.%s })'
def dropped(x=''): return ['g.al_eb == (if db(h, t)[i] != 0 { h.al_eb.remove(db(h, t)[i]) } else { h.al_eb })'+x,'g.g_ev[t] == (if db(h, t)[i] != 0 { h.g_ev[t].remove(db(h, t)[i]) } else { h.g_ev[t] })'+x]
SAMEA=['g.al_eb == h.al_eb','g.g_ev[t] == h.g_ev[t]','g.eb_type == h.eb_type']
SHR='(if db(h, t)[i] != 0 { h.g_el.insert(db(h, t)[i], el(h, db(h, t)[i]).%s) } else { h.g_el })'
CASES={
 'rep':(seqs(P,S,B+'.update(i, x)')+['x != 0','(!h.al_eb.contains(x) || x == db(h, t)[i])','g.eb_type == h.eb_type.insert(x, 50)','g.g_el == h.g_el.insert(x, seq![v])']+dropped('.insert(x)'),
   'i','i + 1','1','let a = bcells(g, x, 1); assert(a =~= seq![Cell::Elem(50, v)]); lem_flat1(a); assert(blks(g, t).subrange(i, i + 1) =~= seq![a]);'),
 'ap1':(seqs(P+'.remove(i)',S+'.update(i - 1, (sz(h, t)[i - 1] + 1) as u64).remove(i)',B+'.remove(i)')+['g.eb_type == h.eb_type','g.g_el == h.g_el.insert(db(h, t)[i - 1], el(h, db(h, t)[i - 1]).push(v))']+dropped(),
   'i - 1','i + 1','1','let q = db(h, t)[i - 1]; let a = bcells(g, q, sz(g, t)[i - 1] as int); lem_block(h, t, i - 1); lem_tile(h, t, i - 1); assert(a =~= bcells(h, q, sz(h, t)[i - 1] as int).push(Cell::Elem(50, v))); lem_flat1(a); assert(blks(g, t).subrange(i - 1, i) =~= seq![a]);'),
 'ap2':(seqs(P+'.update(i, (ps(h, t)[i] + 1) as u64)',S+'.update(i - 1, (sz(h, t)[i - 1] + 1) as u64).update(i, (sz(h, t)[i] - 1) as u64)',B)+SAMEA+['g.g_el == '+SHR%'skip(1)'+'.insert(db(h, t)[i - 1], el(h, db(h, t)[i - 1]).push(v))'],
   'i - 1','i + 1','2','let q = db(h, t)[i - 1]; let a = bcells(g, q, sz(g, t)[i - 1] as int); lem_block(h, t, i - 1); lem_block(h, t, i); lem_tile(h, t, i - 1); assert(a =~= bcells(h, q, sz(h, t)[i - 1] as int).push(Cell::Elem(50, v))); let b = bcells(g, db(h, t)[i], sz(g, t)[i] as int); assert(b =~= bcells(h, db(h, t)[i], sz(h, t)[i] as int).skip(1)); lem_flat2(a, b); assert(blks(g, t).subrange(i - 1, i + 1) =~= seq![a, b]);'),
 'pn1':(seqs(P+'.update(i + 1, (ps(h, t)[i + 1] - 1) as u64).remove(i)',S+'.update(i + 1, (sz(h, t)[i + 1] + 1) as u64).remove(i)',B+'.remove(i)')+['g.eb_type == h.eb_type','g.g_el == h.g_el.insert(db(h, t)[i + 1], seq![v] + el(h, db(h, t)[i + 1]))']+dropped(),
   'i','i + 2','1','let q = db(h, t)[i + 1]; let a = bcells(g, q, sz(g, t)[i] as int); lem_block(h, t, i + 1); lem_tile(h, t, i + 1); assert(a =~= seq![Cell::Elem(50, v)] + bcells(h, q, sz(h, t)[i + 1] as int)); lem_flat1(a); assert(blks(g, t).subrange(i, i + 1) =~= seq![a]);'),
 'pn2':(seqs(P+'.update(i + 1, (ps(h, t)[i + 1] - 1) as u64)',S+'.update(i, (sz(h, t)[i] - 1) as u64).update(i + 1, (sz(h, t)[i + 1] + 1) as u64)',B)+SAMEA+['g.g_el == '+SHR%'take(sz(h, t)[i] - 1)'+'.insert(db(h, t)[i + 1], seq![v] + el(h, db(h, t)[i + 1]))'],
   'i','i + 2','2','let q = db(h, t)[i + 1]; let a = bcells(g, q, sz(g, t)[i + 1] as int); lem_block(h, t, i + 1); lem_block(h, t, i); lem_tile(h, t, i + 1); assert(a =~= seq![Cell::Elem(50, v)] + bcells(h, q, sz(h, t)[i + 1] as int)); let b = bcells(g, db(h, t)[i], sz(g, t)[i] as int); assert(b =~= bcells(h, db(h, t)[i], sz(h, t)[i] as int).take(sz(h, t)[i] - 1)); lem_flat2(b, a); assert(blks(g, t).subrange(i, i + 2) =~= seq![b, a]);'),
}
for jn,keep,dead in(('jp','i - 1','i + 1'),('jn','i + 1','i - 1')):
    CASES[jn]=(seqs(P+'.take(i) + ps(h, t).skip(i + 2)',S+'.update(i - 1, (sz(h, t)[i - 1] + 1 + sz(h, t)[i + 1]) as u64).take(i) + sz(h, t).skip(i + 2)',B+'.update(i - 1, db(h, t)[%s]).take(i) + db(h, t).skip(i + 2)'%keep)+['g.eb_type == h.eb_type','g.g_el == h.g_el.insert(db(h, t)[%s], el(h, db(h, t)[i - 1]).push(v) + el(h, db(h, t)[i + 1])).insert(db(h, t)[%s], g.g_el[db(h, t)[%s]])'%(keep,dead,dead)]+
     ['g.al_eb == (if db(h, t)[i] != 0 { h.al_eb.remove(db(h, t)[i]) } else { h.al_eb }).remove(db(h, t)[%s])'%dead,'g.g_ev[t] == (if db(h, t)[i] != 0 { h.g_ev[t].remove(db(h, t)[i]) } else { h.g_ev[t] }).remove(db(h, t)[%s])'%dead],
     'i - 1','i + 2','1','let q = db(h, t)[%s]; let a = bcells(g, q, sz(g, t)[i - 1] as int); lem_block(h, t, i - 1); lem_block(h, t, i + 1); lem_tile(h, t, i - 1); lem_tile(h, t, i + 1); assert(a =~= bcells(h, db(h, t)[i - 1], sz(h, t)[i - 1] as int).push(Cell::Elem(50, v)) + bcells(h, db(h, t)[i + 1], sz(h, t)[i + 1] as int)); lem_flat1(a); assert(blks(g, t).subrange(i - 1, i) =~= seq![a]);'%keep)
CASES['top']=(seqs('ps(h, t).insert(i, ps(h, t)[i]).update(i + 1, (ps(h, t)[i] + 1) as u64)','sz(h, t).insert(i, 1).update(i + 1, (sz(h, t)[i] - 1) as u64)','db(h, t).insert(i, x)')+['fresh(h, x)','g.al_eb == h.al_eb.insert(x)','g.g_ev[t] == h.g_ev[t].insert(x)','g.eb_type == h.eb_type.insert(x, 50)','g.g_el == '+SHR%'skip(1)'+'.insert(x, seq![v])'],None)
CASES['bot']=(seqs('ps(h, t).insert(i + 1, (ps(h, t)[i] + sz(h, t)[i] - 1) as u64)','sz(h, t).update(i, (sz(h, t)[i] - 1) as u64).insert(i + 1, 1)','db(h, t).insert(i + 1, x)')+['fresh(h, x)','g.al_eb == h.al_eb.insert(x)','g.g_ev[t] == h.g_ev[t].insert(x)','g.eb_type == h.eb_type.insert(x, 50)','g.g_el == '+SHR%'take(sz(h, t)[i] - 1)'+'.insert(x, seq![v])'],None)
GUARD={'rep':'sz(h, t)[i] == 1 && o == 0 && !pk(h, t, i) && !nk(h, t, i)','ap1':'sz(h, t)[i] == 1 && o == 0 && pk(h, t, i) && !nk(h, t, i)','ap2':'sz(h, t)[i] > 1 && o == 0 && pk(h, t, i)','pn1':'sz(h, t)[i] == 1 && o == 0 && !pk(h, t, i) && nk(h, t, i)',
 'pn2':'sz(h, t)[i] > 1 && o == sz(h, t)[i] - 1 && nk(h, t, i)','jp':'sz(h, t)[i] == 1 && o == 0 && pk(h, t, i) && nk(h, t, i)','jn':'sz(h, t)[i] == 1 && o == 0 && pk(h, t, i) && nk(h, t, i)','top':'sz(h, t)[i] > 1 && o == 0 && !pk(h, t, i)','bot':'sz(h, t)[i] > 1 && o == sz(h, t)[i] - 1 && !nk(h, t, i)'}
PRELUDE+="""// is the block before / after block i of the type written
pub open spec fn pk(h: Heap, t: Ptr, i: int) -> bool { i > 0 && kind(h, db(h, t)[i - 1]) == 50 }
pub open spec fn nk(h: Heap, t: Ptr, i: int) -> bool { i + 1 < nb(h, t) && kind(h, db(h, t)[i + 1]) == 50 }
"""
PRE_I='lem_tile(h, t, i); assert(blkok(h, t, i)); if db(h, t)[i] != 0 { lem_has(h, t, i); } if i > 0 && db(h, t)[i - 1] != 0 { lem_has(h, t, i - 1); } if i + 1 < nb(h, t) && db(h, t)[i + 1] != 0 { lem_has(h, t, i + 1); } if i > 0 { lem_tile(h, t, i - 1); assert(blkok(h, t, i - 1)); } if i + 1 < nb(h, t) { lem_tile(h, t, i + 1); assert(blkok(h, t, i + 1)); }'
for cn,c in CASES.items():
    PRELUDE+='#[verifier::opaque] pub open spec fn set_%s(h: Heap, g: Heap, t: Ptr, i: int, o: int, v: Val, x: Ptr) -> bool {\n    %s\n}\n'%(cn,'\n    '.join('&&& '+z for z in [GUARD[cn].replace(' && ','\n    &&& ')]+c[0]))
    ENSV=['wf(g, t)','frm(h, g, t)','view(g, t) == view(h, t).update(ps(h, t)[i] + o, Cell::Elem(50, v))']
    REQV=WF0+['cur(g, t) == cur(h, t)','0 <= i < nb(h, t)','kind(h, db(h, t)[i]) != 50','0 <= o < sz(h, t)[i]','set_%s(h, g, t, i, o, v, x)'%cn]
    if c[1]:
        PRELUDE+=lemma('lem_set_'+cn,'i: int, o: int, v: Val, x: Ptr',REQV,ENSV,c[1],c[2],c[3],'0',pre='reveal(set_%s); '%cn+PRE_I,view=c[4]+' assert(view(g, t) =~= view(h, t).update(ps(h, t)[i] + o, Cell::Elem(50, v)));')
    else:
        PRELUDE+='pub proof fn lem_set_%s(h: Heap, g: Heap, t: Ptr, i: int, o: int, v: Val, x: Ptr)\n    requires %s\n    ensures %s\n{ reveal(set_%s); lem_%s(h, g, t, i, x, v); }\n'%(cn,', '.join(REQV),', '.join(ENSV),cn,cn)
def SETX(i,o,x,v,only=('rep','ap1','ap2','pn1','pn2','jp','jn','top','bot')):
    """at the exit of a function that wrote v at offset o of block i"""
    out=['let i = (%s) as int; let o = (%s) as int; let x = %s; let v = %s;'%(i,o,x,v),OTHP]
    for cn in only:
        g=re.sub(r'\bt\b','this',re.sub(r'\bh\b','h0',GUARD[cn]))
        if cn=='jp': g+=' && db(h@, this)[i - 1] == db(h0, this)[i - 1]'
        if cn=='jn': g+=' && db(h@, this)[i - 1] != db(h0, this)[i - 1]'
        out.append('if %s { assert(set_%s(h0, h@, this, i, o, %s, x)) by { reveal(set_%s); %s %s } lem_set_%s(h0, h@, this, i, o, %s, x); }'%(g,cn,v,cn,{'jp':'assert(h@.g_el[db(h0, this)[i - 1]] =~= el(h0, db(h0, this)[i - 1]).push(v) + el(h0, db(h0, this)[i + 1]));','jn':'assert(h@.g_el[db(h0, this)[i + 1]] =~= el(h0, db(h0, this)[i - 1]).push(v) + el(h0, db(h0, this)[i + 1]));'}.get(cn,''),EQ([z for z in CASES[cn][0] if ' == ' in z and not z.startswith('(')]),cn,v))
    return ' '.join(out)

PRELUDE+=lemma('lem_mid','i: int, off: int, n: int, x: Ptr',WF0+['cur(g, t) == cur(h, t)','0 <= i < nb(h, t)','0 < off','0 < n','off + n < sz(h, t)[i]',
   'ps(g, t) == ps(h, t).take(i + 1) + seq![(ps(h, t)[i] + off) as u64, (ps(h, t)[i] + off + n) as u64] + ps(h, t).skip(i + 1)','sz(g, t) == sz(h, t).take(i) + seq![off as u64, n as u64, (sz(h, t)[i] - off - n) as u64] + sz(h, t).skip(i + 1)',
   'db(g, t) == db(h, t).take(i) + seq![db(g, t)[i], 0 as Ptr, db(g, t)[i + 2]] + db(h, t).skip(i + 1)',
   'db(h, t)[i] == 0 ==> db(g, t)[i] == 0 && db(g, t)[i + 2] == 0 && g.al_eb == h.al_eb && g.g_ev[t] == h.g_ev[t] && g.eb_type == h.eb_type && g.g_el == h.g_el',
   'db(h, t)[i] != 0 ==> fresh(h, x) && (db(g, t)[i] == x && db(g, t)[i + 2] == db(h, t)[i] || db(g, t)[i + 2] == x && db(g, t)[i] == db(h, t)[i]) && g.al_eb == h.al_eb.insert(x) && g.g_ev[t] == h.g_ev[t].insert(x) && g.eb_type == h.eb_type.insert(x, h.eb_type[db(h, t)[i]]) && g.g_el == h.g_el.insert(db(g, t)[i], el(h, db(h, t)[i]).take(off)).insert(db(g, t)[i + 2], el(h, db(h, t)[i]).skip(off + n))'],
  ['wfm(g, t, i + 1)','frm(h, g, t)','kind(g, db(g, t)[i]) == kind(h, db(h, t)[i])','kind(g, db(g, t)[i + 2]) == kind(h, db(h, t)[i])','kind(h, db(h, t)[i]) != -1 ==> canon(g, t)','view(g, t) == view(h, t).take(ps(h, t)[i] + off) + emp(n) + view(h, t).skip(ps(h, t)[i] + off + n)'],
  'i','i + 1','3','0',pre=PRE_I,ca=('0','0','i','i + 2'),
  view='let a = bcells(g, db(g, t)[i], sz(g, t)[i] as int); let b = bcells(g, db(g, t)[i + 2], sz(g, t)[i + 2] as int); let w = bcells(h, db(h, t)[i], sz(h, t)[i] as int); lem_block(h, t, i); assert(a =~= w.take(off)); assert(b =~= w.skip(off + n)); lem_flat3(a, emp(n), b); assert(bcells(g, 0, n) =~= emp(n)); assert(blks(g, t).subrange(i, i + 3) =~= seq![a, emp(n), b]); assert(view(g, t) =~= view(h, t).take(ps(h, t)[i] + off) + emp(n) + view(h, t).skip(ps(h, t)[i] + off + n)); if kind(h, db(h, t)[i]) != -1 { lem_canx_id(g, t, i, i + 2, 0, 0); }')
PRELUDE+=lemma('lem_fill','m: int, x: Ptr, v: Val',['wfm(h, t, m)','oth(h, g, t)','cur(g, t) == cur(h, t)','0 <= m < nb(h, t)','db(h, t)[m] == 0','sz(h, t)[m] == 1','m > 0 ==> kind(h, db(h, t)[m - 1]) != 50','m + 1 < nb(h, t) ==> kind(h, db(h, t)[m + 1]) != 50']+seqs(P,S,B+'.update(m, x)')+
   ['fresh(h, x)','g.al_eb == h.al_eb.insert(x)','g.g_ev[t] == h.g_ev[t].insert(x)','g.eb_type == h.eb_type.insert(x, 50)','g.g_el == h.g_el.insert(x, seq![v])'],
   ['wf(g, t)','frm(h, g, t)','view(g, t) == view(h, t).update(ps(h, t)[m] as int, Cell::Elem(50, v))'],'m','m + 1','1','0',ca=('m - 1','m + 1','0','0'),pre='lem_tile(h, t, m); if m > 0 { assert(blkok(h, t, m - 1)); } if m + 1 < nb(h, t) { assert(blkok(h, t, m + 1)); }',
   view='let a = bcells(g, x, 1); assert(a =~= seq![Cell::Elem(50, v)]); lem_flat1(a); assert(blks(g, t).subrange(m, m + 1) =~= seq![a]); assert(view(g, t) =~= view(h, t).update(ps(h, t)[m] as int, Cell::Elem(50, v)));')
OWN_AL='proof { assert forall|b: Ptr| #[trigger] h@.g_ev[this].contains(b) implies h@.al_eb.contains(b) by { reveal(owned); reveal(oth); } reveal(oth); }'
ENTB='proof { let i = block_index as int; let h = h@; let t = this; '+PRE_I+' if i > 0 { lem_adj(h, t, 0, 0, i - 1); } if i + 1 < nb(h, t) { lem_adj(h, t, 0, 0, i); } assert forall|b: Ptr| #[trigger] h.g_ev[t].contains(b) implies h.al_eb.contains(b) by { reveal(owned); } }'
SETENS=lambda pos:['wf(H, this)','view(H, this) == view(H0, this).update(%s, Cell::Elem(50, %%s))'%pos,'frm(H0, H, this)','oth(H0, H, this)','cur(H, this) == cur(H0, this)']
def setens(pos,v='cell',itr=True): return [x.replace('%s',v) for x in SETENS(pos)]+(['r.parent == this','blk_of(H, this, r.index as int, %s)'%pos] if itr else [])
BI='block_index as int'
CONTRACTS.update({
 'bst.pop_back':dict(requires=[each('old(this).@F@.len() > 0')],ensures=[each('final(this).@F@ == old(this).@F@.drop_last()')]),
 'mtv.append_cell_to_block':dict(requires=['H.al_mtv.contains(this)','block_index < sz(H, this).len() && block_index < db(H, this).len()','sz(H, this)[block_index as int] < 0xffff_ffff_ffff_ffff','H.al_eb.contains(db(H, this)[block_index as int])','H.eb_type[db(H, this)[block_index as int]] == 50'],
   ensures=['oth(H0, H, this)','ps(H, this) == ps(H0, this)','sz(H, this) == sz(H0, this).update(block_index as int, (sz(H0, this)[block_index as int] + 1) as u64)','db(H, this) == db(H0, this)','cur(H, this) == cur(H0, this)','H.al_eb == H0.al_eb','H.eb_type == H0.eb_type','H.g_ev[this] == H0.g_ev[this]','H.g_el == H0.g_el.insert(db(H0, this)[block_index as int], el(H0, db(H0, this)[block_index as int]).push(cell))'],
   at={'exit':'proof { reveal(oth); }'}),
 'mtv.set_cell_to_top_of_data_block':dict(requires=['wf(H, this)','block_index < nb(H, this)','sz(H, this)[block_index as int] > 1','kind(H, db(H, this)[block_index as int]) != 50','block_index > 0 ==> kind(H, db(H, this)[block_index - 1]) != 50'],
   ensures=setens('ps(H0, this)[block_index as int] as int',itr=False)+['blk_of(H, this, block_index as int, ps(H0, this)[block_index as int] as int)','nb(H, this) == nb(H0, this) + 1'],
   at={'entry':ENTB,'before_call:mtv.create_new_block_with_new_cell':OWN_AL,'after_call:mtv.create_new_block_with_new_cell':'proof { reveal(oth); }',
    'exit':'proof { '+SETX('block_index','0','db(h@, this)[block_index as int]','cell')+' }'}),
 'mtv.set_cell_to_bottom_of_data_block':dict(requires=['wf(H, this)','block_index < nb(H, this)','sz(H, this)[block_index as int] > 1','kind(H, db(H, this)[block_index as int]) != 50','block_index + 1 < nb(H, this) ==> kind(H, db(H, this)[block_index + 1]) != 50'],
   ensures=setens('ps(H0, this)[block_index as int] + sz(H0, this)[block_index as int] - 1',itr=False)+['blk_of(H, this, block_index + 1, ps(H0, this)[block_index as int] + sz(H0, this)[block_index as int] - 1)','nb(H, this) == nb(H0, this) + 1'],
   at={'entry':ENTB,'before_call:mtv.create_new_block_with_new_cell':OWN_AL,'after_call:mtv.create_new_block_with_new_cell':'proof { reveal(oth); }',
    'exit':'proof { '+SETX('block_index','sz(h0, this)[block_index as int] - 1','db(h@, this)[block_index + 1]','cell')+' }'}),
 'mtv.set_new_block_to_middle':dict(requires=['wf(H, this)','block_index < nb(H, this)','0 < offset','0 < new_block_size','offset + new_block_size < sz(H, this)[block_index as int]'],
   ensures=['r == block_index + 1','wfm(H, this, r as int)','frm(H0, H, this)','oth(H0, H, this)','nb(H, this) == nb(H0, this) + 2','cur(H, this) == cur(H0, this)','kind(H, db(H, this)[block_index as int]) == kind(H0, db(H0, this)[block_index as int])','kind(H, db(H, this)[block_index + 2]) == kind(H0, db(H0, this)[block_index as int])','kind(H0, db(H0, this)[block_index as int]) != -1 ==> canon(H, this)',
     'db(H, this)[r as int] == 0','sz(H, this)[r as int] == new_block_size','ps(H, this)[r as int] == ps(H0, this)[block_index as int] + offset','view(H, this) == view(H0, this).take(ps(H0, this)[block_index as int] + offset) + emp(new_block_size as int) + view(H0, this).skip(ps(H0, this)[block_index as int] + offset + new_block_size)'],
   at={'entry':ENTB,'exit':'proof { '+OTHP+' let i = block_index as int; let off = offset as int; let n = new_block_size as int; let x = if db(h@, this)[i] == db(h0, this)[i] { db(h@, this)[i + 2] } else { db(h@, this)[i] }; '+
     EQ(['ps(g, t) == ps(h, t).take(i + 1) + seq![(ps(h, t)[i] + off) as u64, (ps(h, t)[i] + off + n) as u64] + ps(h, t).skip(i + 1)','sz(g, t) == sz(h, t).take(i) + seq![off as u64, n as u64, (sz(h, t)[i] - off - n) as u64] + sz(h, t).skip(i + 1)','db(g, t) == db(h, t).take(i) + seq![db(g, t)[i], 0 as Ptr, db(g, t)[i + 2]] + db(h, t).skip(i + 1)'])+
     ' if db(h0, this)[i] != 0 { '+EQ(['g.g_el == h.g_el.insert(db(g, t)[i], el(h, db(h, t)[i]).take(off)).insert(db(g, t)[i + 2], el(h, db(h, t)[i]).skip(off + n))','g.al_eb == h.al_eb.insert(x)','g.g_ev[t] == h.g_ev[t].insert(x)'])+' } lem_mid(h0, h@, this, i, off, n, x); }'}),
 'mtv.set_cell_to_middle_of_block':dict(requires=['wf(H, this)','block_index < nb(H, this)','0 < pos_in_block','pos_in_block + 1 < sz(H, this)[block_index as int]','kind(H, db(H, this)[block_index as int]) != 50'],
   ensures=setens('ps(H0, this)[block_index__0 as int] + pos_in_block'.replace('__0',''),itr=True),
   at={'before_call:mtv.create_new_block_with_new_cell':'let ghost h1 = h@; '+OWN_AL,'after_call:mtv.create_new_block_with_new_cell':'proof { assert(fresh(h1, db(h@, this)[block_index as int])) by { } lem_fill(h1, h@, this, block_index as int, db(h@, this)[block_index as int], cell); lem_frm2(h0, h1, h@, this); lem_oth(h0, h1, h@, this); lem_tile(h@, this, block_index as int); let p = ps(h0, this)[block_index__0 as int] + pos_in_block; assert(view(h@, this) =~= view(h0, this).update(p, Cell::Elem(50, cell))) by { lem_len(h0, this, nb(h0, this)); lem_tile(h0, this, block_index__0 as int); } }'}),
})
def retblk(i,o): return ''
for nm in('set_cell_to_empty_block','set_cell_to_non_empty_block_of_size_one'):
    off='pos_in_block' if 'empty_block'==nm[-11:] else '0'
    PP='ps(H0, this)[block_index as int] + '+off
    CONTRACTS['mtv.'+nm]=dict(rlimit=100,requires=['wf(H, this)','block_index < nb(H, this)']+(['pos_in_block < sz(H, this)[block_index as int]','kind(H, db(H, this)[block_index as int]) == -1'] if off!='0' else ['sz(H, this)[block_index as int] == 1','kind(H, db(H, this)[block_index as int]) != -1','kind(H, db(H, this)[block_index as int]) != 50']),
      ensures=setens(PP),at={'entry':ENTB,'before_call:mtv.create_new_block_with_new_cell':OWN_AL,'before_call:mtv.delete_element_block':OWN_AL,'after_call:mtv.delete_element_block':'proof { assert(oth(h0, h@, this)) by { reveal(oth); } reveal(oth); }','after_call:mtv.create_new_block_with_new_cell':'proof { assert(oth(h0, h@, this)) by { reveal(oth); } reveal(oth); }',
       'exit':'proof { let ofs = (%s) as int; let bi = block_index as int; let nn = sz(h0, this)[bi]; if !(nn > 1 && 0 < ofs < nn - 1) { let xx = if nn > 1 && ofs > 0 { if bi + 1 < nb(h@, this) { db(h@, this)[bi + 1] } else { 0 } } else { if bi < nb(h@, this) { db(h@, this)[bi] } else { 0 } }; '%off+SETX('bi','ofs','xx','cell')+' lem_tile(h@, this, ret.index as int); } }'})
CONTRACTS['mtv.set_cell_to_empty_block']['split']=[
  ['sz(H, this)[block_index as int] == 1','sz(H, this)[block_index as int] > 1 && pos_in_block == 0','pos_in_block > 0 && pos_in_block == sz(H, this)[block_index as int] - 1','pos_in_block > 0 && pos_in_block < sz(H, this)[block_index as int] - 1'],
  ['pk(H, this, block_index as int)','!pk(H, this, block_index as int)'],['nk(H, this, block_index as int)','!nk(H, this, block_index as int)']]
PRELUDE+=lemma('lem_over','i: int, o: int, v: Val',WF0+['cur(g, t) == cur(h, t)','0 <= i < nb(h, t)','kind(h, db(h, t)[i]) == 50','0 <= o < sz(h, t)[i]']+seqs(P,S,B)+SAMEA+['g.g_el == h.g_el.insert(db(h, t)[i], el(h, db(h, t)[i]).update(o, v))'],
  ['wf(g, t)','frm(h, g, t)','view(g, t) == view(h, t).update(ps(h, t)[i] + o, Cell::Elem(50, v))'],'i','i + 1','1','0',pre=PRE_I,
  view='let q = db(h, t)[i]; let a = bcells(g, q, sz(g, t)[i] as int); lem_block(h, t, i); assert(a =~= bcells(h, q, sz(h, t)[i] as int).update(o, Cell::Elem(50, v))); lem_flat1(a); assert(blks(g, t).subrange(i, i + 1) =~= seq![a]); assert(view(g, t) =~= view(h, t).update(ps(h, t)[i] + o, Cell::Elem(50, v)));')
CONTRACTS.update({
 'mtv.set_impl':dict(rlimit=100,requires=['wf(H, this)','blk_of(H, this, block_index as int, pos as int)'],ensures=setens('pos as int','value'),
   split=[['kind(H, db(H, this)[block_index as int]) == -1','kind(H, db(H, this)[block_index as int]) == 50','kind(H, db(H, this)[block_index as int]) != 50 && kind(H, db(H, this)[block_index as int]) != -1'],['pk(H, this, block_index as int)','!pk(H, this, block_index as int)'],['nk(H, this, block_index as int)','!nk(H, this, block_index as int)']],
   at={'entry':ENTB,'exit':'proof { let bi = block_index as int; let nn = sz(h0, this)[bi]; let ofs = pos - ps(h0, this)[bi]; if kind(h0, db(h0, this)[bi]) == 50 { '+OTHP+' lem_over(h0, h@, this, bi, ofs, value); lem_tile(h@, this, bi); } else if kind(h0, db(h0, this)[bi]) != -1 && nn > 1 && (ofs == 0 && pk(h0, this, bi) || ofs == nn - 1 && nk(h0, this, bi)) { '+SETX('bi','ofs','0','value',('ap2','pn2'))+' lem_tile(h@, this, ret.index as int); } }'}),
 'mtv.set/2':dict(requires=['wf(H, this)'],throws='pos >= cur(H, this)',ensures=['pos < cur(H, this)']+setens('pos as int','value'),at={'entry':ENT}),
})
# ---- growing at the end
PRELUDE+=lemma('lem_pushnew','x: Ptr, v: Val',WF0+['cur(h, t) < 0x7fff_ffff_ffff_ffff','nb(h, t) > 0 ==> kind(h, db(h, t).last()) != 50','cur(g, t) == cur(h, t) + 1']+seqs(P+'.push(cur(h, t))',S+'.push(1)',B+'.push(x)')+['fresh(h, x)','g.al_eb == h.al_eb.insert(x)','g.g_ev[t] == h.g_ev[t].insert(x)','g.eb_type == h.eb_type.insert(x, 50)','g.g_el == h.g_el.insert(x, seq![v])'],
  ['wf(g, t)','frm(h, g, t)','view(g, t) == view(h, t).push(Cell::Elem(50, v))'],'nb(h, t)','nb(h, t)','1','1',pre='if nb(h, t) > 0 { lem_tile(h, t, nb(h, t) - 1); assert(blkok(h, t, nb(h, t) - 1)); if db(h, t).last() != 0 { lem_has(h, t, nb(h, t) - 1); } }',
  view='let a = bcells(g, x, 1); assert(a =~= seq![Cell::Elem(50, v)]); lem_flat1(a); assert(blks(g, t).subrange(i_, i_ + 1) =~= seq![a]); assert(view(g, t) =~= view(h, t).push(Cell::Elem(50, v)));')
PRELUDE+=lemma('lem_pushold','v: Val',WF0+['cur(h, t) < 0x7fff_ffff_ffff_ffff','nb(h, t) > 0','kind(h, db(h, t).last()) == 50','cur(g, t) == cur(h, t) + 1']+seqs(P,S+'.update(nb(h, t) - 1, (sz(h, t).last() + 1) as u64)',B)+SAMEA+['g.g_el == h.g_el.insert(db(h, t).last(), el(h, db(h, t).last()).push(v))'],
  ['wf(g, t)','frm(h, g, t)','view(g, t) == view(h, t).push(Cell::Elem(50, v))'],'nb(h, t) - 1','nb(h, t)','1','1',pre='let i = nb(h, t) - 1; '+PRE_I,
  view='let q = db(h, t)[i]; let a = bcells(g, q, sz(g, t)[i] as int); lem_block(h, t, i); assert(a =~= bcells(h, q, sz(h, t)[i] as int).push(Cell::Elem(50, v))); lem_flat1(a); assert(blks(g, t).subrange(i, i + 1) =~= seq![a]); assert(view(g, t) =~= view(h, t).push(Cell::Elem(50, v)));')
PRELUDE+=lemma('lem_empnew','n: int',WF0+['n > 0','cur(h, t) + n <= 0x7fff_ffff_ffff_ffff','nb(h, t) > 0 ==> kind(h, db(h, t).last()) != -1','cur(g, t) == cur(h, t) + n']+seqs(P+'.push(cur(h, t))',S+'.push(n as u64)',B+'.push(0)')+SAMEA+['g.g_el == h.g_el'],
  ['wf(g, t)','frm(h, g, t)','view(g, t) == view(h, t) + emp(n)'],'nb(h, t)','nb(h, t)','1','n',pre='if nb(h, t) > 0 { lem_tile(h, t, nb(h, t) - 1); assert(blkok(h, t, nb(h, t) - 1)); if db(h, t).last() != 0 { lem_has(h, t, nb(h, t) - 1); } }',
  view='let a = bcells(g, 0, n); assert(a =~= emp(n)); lem_flat1(a); assert(blks(g, t).subrange(i_, i_ + 1) =~= seq![a]); assert(view(g, t) =~= view(h, t) + emp(n));')
PRELUDE+=lemma('lem_empold','n: int',WF0+['n > 0','cur(h, t) + n <= 0x7fff_ffff_ffff_ffff','nb(h, t) > 0','kind(h, db(h, t).last()) == -1','cur(g, t) == cur(h, t) + n']+seqs(P,S+'.update(nb(h, t) - 1, (sz(h, t).last() + n) as u64)',B)+SAMEA+['g.g_el == h.g_el'],
  ['wf(g, t)','frm(h, g, t)','view(g, t) == view(h, t) + emp(n)'],'nb(h, t) - 1','nb(h, t)','1','n',pre='let i = nb(h, t) - 1; '+PRE_I,
  view='let a = bcells(g, 0, sz(g, t)[i] as int); lem_block(h, t, i); assert(a =~= bcells(h, 0, sz(h, t)[i] as int) + emp(n)); lem_flat1(a); assert(blks(g, t).subrange(i, i + 1) =~= seq![a]); assert(view(g, t) =~= view(h, t) + emp(n));')
LASTB='proof { assert forall|b: Ptr| #[trigger] h@.g_ev[this].contains(b) implies h@.al_eb.contains(b) by { reveal(owned); } if nb(h@, this) > 0 { lem_tile(h@, this, nb(h@, this) - 1); assert(blkok(h@, this, nb(h@, this) - 1)); } }'
PUSHENS=['wf(H, this)','frm(H0, H, this)','oth(H0, H, this)']
CONTRACTS.update({
 'mtv.push_back_impl':dict(rlimit=60,requires=['wf(H, this)','cur(H, this) < 0x7fff_ffff_ffff_ffff'],ensures=PUSHENS+['cur(H, this) == cur(H0, this) + 1','view(H, this) == view(H0, this).push(Cell::Elem(50, value))','r.parent == this','r.index == nb(H, this) - 1','blk_of(H, this, r.index as int, cur(H0, this) as int)'],
   at={'entry':LASTB,'before_call:mtv.create_new_block_with_new_cell':OWN_AL,'after_call:mtv.create_new_block_with_new_cell':'proof { reveal(oth); }','exit':'proof { '+OTHP+' if nb(h@, this) > nb(h0, this) { let x = db(h@, this)[nb(h0, this)]; '+EQ(seqs(P+'.push(cur(h, t))',S+'.push(1)',B+'.push(x)')+['g.g_el == h.g_el.insert(x, seq![value])','g.al_eb == h.al_eb.insert(x)','g.g_ev[t] == h.g_ev[t].insert(x)'])+' lem_pushnew(h0, h@, this, x, value); } else { '+EQ(seqs(P,S+'.update(nb(h, t) - 1, (sz(h, t).last() + 1) as u64)',B))+' lem_pushold(h0, h@, this, value); } lem_tile(h@, this, nb(h@, this) - 1); }'}),
 'mtv.append_empty':dict(rlimit=60,requires=['wf(H, this)','0 < len','cur(H, this) + len <= 0x7fff_ffff_ffff_ffff'],ensures=PUSHENS+['cur(H, this) == cur(H0, this) + len','view(H, this) == view(H0, this) + emp(len as int)','r == (nb(H0, this) == 0 || kind(H0, db(H0, this).last()) != -1)','nb(H, this) == nb(H0, this) + if r { 1int } else { 0 }'],
   at={'entry':LASTB,'exit':'proof { '+OTHP+' if nb(h@, this) > nb(h0, this) { '+EQ(seqs(P+'.push(cur(h, t))',S+'.push(len)',B+'.push(0)'))+' lem_empnew(h0, h@, this, len as int); } else { '+EQ(seqs(P,S+'.update(nb(h, t) - 1, (sz(h, t).last() + len) as u64)',B))+' lem_empold(h0, h@, this, len as int); } }'}),
 'mtv.push_back_empty':dict(requires=['wf(H, this)','cur(H, this) < 0x7fff_ffff_ffff_ffff'],ensures=PUSHENS+['cur(H, this) == cur(H0, this) + 1','view(H, this) == view(H0, this) + emp(1)','r.parent == this','r.index == nb(H, this) - 1'],at={'entry':LASTB}),
 'mtv.push_back/1':dict(requires=['wf(H, this)','cur(H, this) < 0x7fff_ffff_ffff_ffff'],ensures=PUSHENS+['cur(H, this) == cur(H0, this) + 1','view(H, this) == view(H0, this).push(Cell::Elem(50, value))','r.parent == this','r.index == nb(H, this) - 1']),
})
# ---- emptying cells within one block
def others(b): return 'forall|b: Ptr| b == 0 || b != %s ==> #[trigger] g.g_el[b] == h.g_el[b]'%b
PRELUDE+='pub open spec fn drp(s: Set<Ptr>, b: Ptr) -> Set<Ptr> { if b != 0 { s.remove(b) } else { s } }\n'
PRE_M='lem_tile(h, t, i); lem_tile(h, t, i + 1); assert(blkok(h, t, i)); assert(blkok(h, t, i + 1)); if db(h, t)[i] != 0 { lem_has(h, t, i); } if db(h, t)[i + 1] != 0 { lem_has(h, t, i + 1); } if i > 0 { lem_tile(h, t, i - 1); assert(blkok(h, t, i - 1)); if db(h, t)[i - 1] != 0 { lem_has(h, t, i - 1); } } if i + 2 < nb(h, t) { lem_tile(h, t, i + 2); assert(blkok(h, t, i + 2)); if db(h, t)[i + 2] != 0 { lem_has(h, t, i + 2); } }'
PRELUDE+=lemma('lem_mrg','i: int',['shp(h, t)','owned(h, t)','canx(h, t, i, i + 1)','oth(h, g, t)','cur(g, t) == cur(h, t)','0 <= i','i + 1 < nb(h, t)','kind(h, db(h, t)[i]) == kind(h, db(h, t)[i + 1])']+seqs(P+'.remove(i + 1)',S+'.update(i, (sz(h, t)[i] + sz(h, t)[i + 1]) as u64).remove(i + 1)',B+'.remove(i + 1)')+
   ['g.eb_type == h.eb_type','db(h, t)[i] == 0 ==> g.al_eb == h.al_eb && g.g_ev[t] == h.g_ev[t] && g.g_el == h.g_el','db(h, t)[i] != 0 ==> g.al_eb == h.al_eb.remove(db(h, t)[i + 1]) && g.g_ev[t] == h.g_ev[t].remove(db(h, t)[i + 1])',
    'db(h, t)[i] != 0 ==> g.g_el[db(h, t)[i]] == el(h, db(h, t)[i]) + el(h, db(h, t)[i + 1])','forall|b: Ptr| b != db(h, t)[i] && b != db(h, t)[i + 1] ==> #[trigger] g.g_el[b] == h.g_el[b]'],
  ['wf(g, t)','frm(h, g, t)','view(g, t) == view(h, t)'],'i','i + 2','1','0',pre=PRE_M,ca=('i','i + 1','0','0'),
  view='let q = db(h, t)[i]; let a = bcells(g, q, sz(g, t)[i] as int); lem_block(h, t, i); lem_block(h, t, i + 1); assert(a =~= bcells(h, q, sz(h, t)[i] as int) + bcells(h, db(h, t)[i + 1], sz(h, t)[i + 1] as int)); lem_flat1(a); assert(blks(g, t).subrange(i, i + 1) =~= seq![a]); assert(view(g, t) =~= view(h, t));')
# the whole block i empty
pe=lambda i: '(%s > 0 && db(h, t)[%s - 1] == 0)'%(i,i)
ne=lambda i: '(%s + 1 < nb(h, t) && db(h, t)[%s + 1] == 0)'%(i,i)
VE='view(g, t) == view(h, t).take(ps(h, t)[i] + o) + emp(n) + view(h, t).skip(ps(h, t)[i] + o + n)'
SE={ # guard, seqs, i, j, n, view text
 'w0':('o == 0 && n == sz(h, t)[i] && !%s && !%s'%(pe('i'),ne('i')),seqs(P,S,B+'.update(i, 0)')+dropped(),'i','i + 1','1','let a = bcells(g, 0, n); assert(a =~= emp(n)); lem_flat1(a); assert(blks(g, t).subrange(i, i + 1) =~= seq![a]);'),
 'w1':('o == 0 && n == sz(h, t)[i] && %s && !%s'%(pe('i'),ne('i')),seqs(P+'.remove(i)',S+'.update(i - 1, (sz(h, t)[i - 1] + sz(h, t)[i]) as u64).remove(i)',B+'.remove(i)')+dropped(),'i - 1','i + 1','1','let a = bcells(g, 0, sz(g, t)[i - 1] as int); lem_block(h, t, i - 1); assert(a =~= bcells(h, 0, sz(h, t)[i - 1] as int) + emp(n)); lem_flat1(a); assert(blks(g, t).subrange(i - 1, i) =~= seq![a]);'),
 'w2':('o == 0 && n == sz(h, t)[i] && !%s && %s'%(pe('i'),ne('i')),seqs(P+'.remove(i + 1)',S+'.update(i, (sz(h, t)[i] + sz(h, t)[i + 1]) as u64).remove(i + 1)',B+'.update(i, 0).remove(i + 1)')+dropped(),'i','i + 2','1','let a = bcells(g, 0, sz(g, t)[i] as int); lem_block(h, t, i + 1); assert(a =~= emp(n) + bcells(h, 0, sz(h, t)[i + 1] as int)); lem_flat1(a); assert(blks(g, t).subrange(i, i + 1) =~= seq![a]);'),
 'w3':('o == 0 && n == sz(h, t)[i] && %s && %s'%(pe('i'),ne('i')),seqs(P+'.take(i) + ps(h, t).skip(i + 2)',S+'.update(i - 1, (sz(h, t)[i - 1] + sz(h, t)[i] + sz(h, t)[i + 1]) as u64).take(i) + sz(h, t).skip(i + 2)',B+'.take(i) + db(h, t).skip(i + 2)')+dropped(),'i - 1','i + 2','1','let a = bcells(g, 0, sz(g, t)[i - 1] as int); lem_block(h, t, i - 1); lem_block(h, t, i + 1); assert(a =~= bcells(h, 0, sz(h, t)[i - 1] as int) + emp(n) + bcells(h, 0, sz(h, t)[i + 1] as int)); lem_flat1(a); assert(blks(g, t).subrange(i - 1, i) =~= seq![a]);'),
 't1':('o == 0 && n < sz(h, t)[i] && '+pe('i'),seqs(P+'.update(i, (ps(h, t)[i] + n) as u64)',S+'.update(i, (sz(h, t)[i] - n) as u64).update(i - 1, (sz(h, t)[i - 1] + n) as u64)',B)+SAMEA[:2],'i - 1','i + 1','2','let a = bcells(g, 0, sz(g, t)[i - 1] as int); let b = bcells(g, db(h, t)[i], sz(g, t)[i] as int); lem_block(h, t, i - 1); lem_block(h, t, i); assert(a =~= bcells(h, 0, sz(h, t)[i - 1] as int) + emp(n)); assert(b =~= bcells(h, db(h, t)[i], sz(h, t)[i] as int).skip(n)); lem_flat2(a, b); assert(blks(g, t).subrange(i - 1, i + 1) =~= seq![a, b]);'),
 't2':('o == 0 && n < sz(h, t)[i] && !'+pe('i'),seqs(P+'.update(i, (ps(h, t)[i] + n) as u64).insert(i, ps(h, t)[i])',S+'.update(i, (sz(h, t)[i] - n) as u64).insert(i, n as u64)',B+'.insert(i, 0)')+SAMEA[:2],'i','i + 1','2','let a = bcells(g, 0, n); let b = bcells(g, db(h, t)[i], sz(g, t)[i + 1] as int); lem_block(h, t, i); assert(a =~= emp(n)); assert(b =~= bcells(h, db(h, t)[i], sz(h, t)[i] as int).skip(n)); lem_flat2(a, b); assert(blks(g, t).subrange(i, i + 2) =~= seq![a, b]);'),
 'b1':('o > 0 && o + n == sz(h, t)[i] && '+ne('i'),seqs(P+'.update(i + 1, (ps(h, t)[i] + o) as u64)',S+'.update(i, o as u64).update(i + 1, (sz(h, t)[i + 1] + n) as u64)',B)+SAMEA[:2],'i','i + 2','2','let a = bcells(g, 0, sz(g, t)[i + 1] as int); let b = bcells(g, db(h, t)[i], sz(g, t)[i] as int); lem_block(h, t, i); lem_block(h, t, i + 1); assert(a =~= emp(n) + bcells(h, 0, sz(h, t)[i + 1] as int)); assert(b =~= bcells(h, db(h, t)[i], sz(h, t)[i] as int).take(o)); lem_flat2(b, a); assert(blks(g, t).subrange(i, i + 2) =~= seq![b, a]);'),
 'b2':('o > 0 && o + n == sz(h, t)[i] && !'+ne('i'),seqs(P+'.insert(i + 1, (ps(h, t)[i] + o) as u64)',S+'.update(i, o as u64).insert(i + 1, n as u64)',B+'.insert(i + 1, 0)')+SAMEA[:2],'i','i + 1','2','let a = bcells(g, 0, n); let b = bcells(g, db(h, t)[i], sz(g, t)[i] as int); lem_block(h, t, i); assert(a =~= emp(n)); assert(b =~= bcells(h, db(h, t)[i], sz(h, t)[i] as int).take(o)); lem_flat2(b, a); assert(blks(g, t).subrange(i, i + 2) =~= seq![b, a]);'),
}
for cn,c in SE.items():
    keep=['g.g_el[db(h, t)[i]] == el(h, db(h, t)[i]).take(o) + el(h, db(h, t)[i]).skip(o + n)'] if cn[0]!='w' else []
    PRELUDE+='#[verifier::opaque] pub open spec fn se_%s(h: Heap, g: Heap, t: Ptr, i: int, o: int, n: int) -> bool {\n    %s\n}\n'%(cn,'\n    '.join('&&& '+z for z in [c[0].replace(' && ','\n    &&& ') if '(' not in c[0] else '('+c[0]+')']+c[1]+['g.eb_type == h.eb_type',others('db(h, t)[i]')]+keep))
    PRELUDE+=lemma('lem_se_'+cn,'i: int, o: int, n: int',WF0+['cur(g, t) == cur(h, t)','0 <= i < nb(h, t)','db(h, t)[i] != 0','0 <= o','0 < n','o + n <= sz(h, t)[i]','se_%s(h, g, t, i, o, n)'%cn],['wf(g, t)','frm(h, g, t)',VE],c[2],c[3],c[4],'0',pre='reveal(se_%s); '%cn+PRE_I+' if i > 0 { lem_adj(h, t, 0, 0, i - 1); } if i + 1 < nb(h, t) { lem_adj(h, t, 0, 0, i); } if i > 1 { assert(blkok(h, t, i - 2)); } if i + 2 < nb(h, t) { assert(blkok(h, t, i + 2)); }',view=c[5]+' assert(%s);'%VE.replace(' == ',' =~= ',1))
def SEX(i,o,n,only):
    out=['let i = (%s) as int; let o = (%s) as int; let n = (%s) as int;'%(i,o,n),OTHP]
    for cn in only:
        g=re.sub(r'\bt\b','this',re.sub(r'\bh\b','h0',SE[cn][0]))
        out.append('if %s { assert(se_%s(h0, h@, this, i, o, n)) by { reveal(se_%s); %s assert(h@.g_el[db(h0, this)[i]] =~= el(h0, db(h0, this)[i]).take(o) + el(h0, db(h0, this)[i]).skip(o + n) || o == 0 && n == sz(h0, this)[i]); } lem_se_%s(h0, h@, this, i, o, n); }'%(g,cn,cn,EQ([z for z in SE[cn][1] if ' == ' in z]),cn))
    return ' '.join(out)
EMPENS=lambda a,e,pre='':['wf(H, this)','frm(H0, H, this)','oth(H0, H, this)','cur(H, this) == cur(H0, this)','view(H, this) == view(H0, this).take(%s) + emp(%s - (%s)) + view(H0, this).skip(%s)'%(a,e,a,e)]
CONTRACTS.update({
 'mtv.merge_with_next_block':dict(rlimit=60,requires=['shp(H, this)','owned(H, this)','canx(H, this, block_index as int, block_index + 1)','block_index < nb(H, this)'],
   ensures=['wf(H, this)','frm(H0, H, this)','oth(H0, H, this)','cur(H, this) == cur(H0, this)','view(H, this) == view(H0, this)','r == (block_index + 1 < nb(H0, this) && kind(H0, db(H0, this)[block_index as int]) == kind(H0, db(H0, this)[block_index + 1]))','nb(H, this) == nb(H0, this) - if r { 1int } else { 0 }'],
   at={'entry':'proof { let i = block_index as int; let h = h@; let t = this; lem_frm0(h, t); assert(blkok(h, t, i)); if i + 1 < nb(h, t) { '+PRE_M+' } }',
    'before_call:mtv.delete_element_block':OWN_AL,
    'exit':'proof { '+OTHP+' let i = block_index as int; if nb(h@, this) < nb(h0, this) { '+EQ(seqs(P+'.remove(i + 1)',S+'.update(i, (sz(h, t)[i] + sz(h, t)[i + 1]) as u64).remove(i + 1)',B+'.remove(i + 1)'))+' lem_mrg(h0, h@, this, i); } else { lem_frm0(h0, this); lem_canx_id(h@, this, i, i + 1, 0, 0); } }'}),
 'mtv.set_whole_block_empty':dict(rlimit=100,requires=['wf(H, this)','block_index < nb(H, this)','db(H, this)[block_index as int] != 0'],ensures=EMPENS('ps(H0, this)[block_index as int] as int','ps(H0, this)[block_index as int] + sz(H0, this)[block_index as int]')+['r.parent == this','blk_of(H, this, r.index as int, ps(H0, this)[block_index as int] as int)'],
   at={'entry':ENTB,'before_call:mtv.delete_element_block':OWN_AL,'after_call:mtv.delete_element_block':'proof { reveal(oth); }','exit':'proof { '+SEX('block_index','0','sz(h0, this)[block_index as int]',('w0','w1','w2','w3'))+' lem_tile(h@, this, ret.index as int); }'}),
 'mtv.set_empty_in_single_block':dict(rlimit=100,requires=['wf(H, this)','blk_of(H, this, block_index as int, start_row as int)','blk_of(H, this, block_index as int, end_row as int)','start_row <= end_row'],ensures=EMPENS('start_row as int','end_row + 1')+['r.parent == this','blk_of(H, this, r.index as int, start_row as int)'],
   at={'entry':ENTB,'exit':'proof { let bi = block_index as int; let ofs = start_row - ps(h0, this)[bi]; let nn = end_row - start_row + 1; if db(h0, this)[bi] == 0 { lem_frm0(h0, this); lem_block(h0, this, bi); lem_empv(h0, this, bi, ofs, nn); '+OTHP+' } else if nn < sz(h0, this)[bi] { if (ofs == 0 || ofs + nn == sz(h0, this)[bi]) { '+SEX('bi','ofs','nn',('t1','t2','b1','b2'))+' } lem_tile(h@, this, ret.index as int); } }'}),
})
PRELUDE+="pub proof fn lem_empv(h: Heap, t: Ptr, i: int, o: int, n: int) requires shp(h, t), 0 <= i < nb(h, t), db(h, t)[i] == 0, 0 <= o, 0 <= n, o + n <= sz(h, t)[i] ensures view(h, t) == view(h, t).take(ps(h, t)[i] + o) + emp(n) + view(h, t).skip(ps(h, t)[i] + o + n) { lem_block(h, t, i); lem_tile(h, t, i); lem_len(h, t, nb(h, t)); let r = view(h, t).take(ps(h, t)[i] + o) + emp(n) + view(h, t).skip(ps(h, t)[i] + o + n); assert forall|q: int| 0 <= q < view(h, t).len() implies view(h, t)[q] == #[trigger] r[q] by { if ps(h, t)[i] + o <= q < ps(h, t)[i] + o + n { lem_cell(h, t, i, q - ps(h, t)[i]); } } assert(r.len() == view(h, t).len()); assert(view(h, t) =~= view(h, t).take(ps(h, t)[i] + o) + emp(n) + view(h, t).skip(ps(h, t)[i] + o + n)); }\n"
# ---- inserting empty cells
def vi(a,n): return 'view(g, t) == view(h, t).take(%s) + emp(%s) + view(h, t).skip(%s)'%(a,n,a)
def shift(p,a,d): return 'shifted(%s, %s, %s, %s)'%('ps(g, t)',p,a,d)
PRELUDE+="// the positions p but with d added from index a on\npub open spec fn shifted(q: Seq<u64>, p: Seq<u64>, a: int, d: int) -> bool { q.len() == p.len() && forall|k: int| 0 <= k < p.len() ==> #[trigger] q[k] == p[k] + if k >= a { d } else { 0 } }\n"
LIM=['0 < n','cur(h, t) + n <= 0x7fff_ffff_ffff_ffff','cur(g, t) == cur(h, t) + n']
IE={
 'x0':(['o < sz(h, t)[i]','db(h, t)[i] == 0'],[shift(P,'i + 1','n'),'sz(g, t) == '+S+'.update(i, (sz(h, t)[i] + n) as u64)','db(g, t) == '+B,'g.g_el == h.g_el','g.eb_type == h.eb_type']+SAMEA[:2],'i','i + 1','1','let a = bcells(g, 0, sz(g, t)[i] as int); lem_block(h, t, i); let w = bcells(h, 0, sz(h, t)[i] as int); assert(a =~= w.take(o) + emp(n) + w.skip(o)); lem_flat1(a); assert(blks(g, t).subrange(i, i + 1) =~= seq![a]);'),
 'x1':(['o == 0','db(h, t)[i] != 0',pe('i')],[shift(P,'i','n'),'sz(g, t) == '+S+'.update(i - 1, (sz(h, t)[i - 1] + n) as u64)','db(g, t) == '+B,'g.g_el == h.g_el','g.eb_type == h.eb_type']+SAMEA[:2],'i - 1','i','1','let a = bcells(g, 0, sz(g, t)[i - 1] as int); lem_block(h, t, i - 1); let w = bcells(h, 0, sz(h, t)[i - 1] as int); assert(a =~= w + emp(n)); lem_flat1(a); assert(blks(g, t).subrange(i - 1, i) =~= seq![a]);'),
 'x2':(['o == 0','db(h, t)[i] != 0','!'+pe('i')],[shift(P+'.insert(i, ps(h, t)[i])','i + 1','n'),'sz(g, t) == '+S+'.insert(i, n as u64)','db(g, t) == '+B+'.insert(i, 0)','g.g_el == h.g_el','g.eb_type == h.eb_type']+SAMEA[:2],'i','i','1','let a = bcells(g, 0, n); assert(a =~= emp(n)); lem_flat1(a); assert(blks(g, t).subrange(i, i + 1) =~= seq![a]);'),
 'x3':(['0 < o < sz(h, t)[i]','db(h, t)[i] != 0'],[shift('(ps(h, t).take(i + 1) + seq![(ps(h, t)[i] + o) as u64, (ps(h, t)[i] + o + n) as u64] + ps(h, t).skip(i + 1))','i + 3','n'),'sz(g, t) == sz(h, t).take(i) + seq![o as u64, n as u64, (sz(h, t)[i] - o) as u64] + sz(h, t).skip(i + 1)','db(g, t) == db(h, t).take(i) + seq![db(g, t)[i], 0 as Ptr, db(g, t)[i + 2]] + db(h, t).skip(i + 1)',
     'fresh(h, x)','(db(g, t)[i] == x && db(g, t)[i + 2] == db(h, t)[i] || db(g, t)[i + 2] == x && db(g, t)[i] == db(h, t)[i])','g.al_eb == h.al_eb.insert(x)','g.g_ev[t] == h.g_ev[t].insert(x)','g.eb_type == h.eb_type.insert(x, h.eb_type[db(h, t)[i]])','g.g_el == h.g_el.insert(db(g, t)[i], el(h, db(h, t)[i]).take(o)).insert(db(g, t)[i + 2], el(h, db(h, t)[i]).skip(o))'],'i','i + 1','3',
     'let a = bcells(g, db(g, t)[i], sz(g, t)[i] as int); let b = bcells(g, db(g, t)[i + 2], sz(g, t)[i + 2] as int); let w = bcells(h, db(h, t)[i], sz(h, t)[i] as int); lem_block(h, t, i); assert(a =~= w.take(o)); assert(b =~= w.skip(o)); lem_flat3(a, emp(n), b); assert(bcells(g, 0, n) =~= emp(n)); assert(blks(g, t).subrange(i, i + 3) =~= seq![a, emp(n), b]);'),
}
for cn,c in IE.items():
    PRELUDE+='#[verifier::opaque] pub open spec fn ie_%s(h: Heap, g: Heap, t: Ptr, i: int, o: int, n: int, x: Ptr) -> bool {\n    %s\n}\n'%(cn,'\n    '.join('&&& '+z for z in c[0]+c[1]))
    PRELUDE+=lemma('lem_ie_'+cn,'i: int, o: int, n: int, x: Ptr',WF0+LIM+['0 <= i < nb(h, t)','0 <= o < sz(h, t)[i]','ie_%s(h, g, t, i, o, n, x)'%cn],['wf(g, t)','frm(h, g, t)',vi('ps(h, t)[i] + o','n')],c[2],c[3],c[4],'n',pre='reveal(ie_%s); '%cn+PRE_I+' if i > 0 { lem_adj(h, t, 0, 0, i - 1); } if i + 1 < nb(h, t) { lem_adj(h, t, 0, 0, i); } if i > 1 { assert(blkok(h, t, i - 2)); } if i + 2 < nb(h, t) { assert(blkok(h, t, i + 2)); }',view=c[5]+' assert(%s);'%vi('ps(h, t)[i] + o','n').replace(' == ',' =~= ',1))
def IEX(i,o,n,x):
    out=['let i = (%s) as int; let o = (%s) as int; let n = (%s) as int; let x = %s;'%(i,o,n,x),OTHP]
    for cn,c in IE.items():
        g=re.sub(r'\bt\b','this',re.sub(r'\bh\b','h0',' && '.join(c[0])))
        out.append('if %s { assert(ie_%s(h0, h@, this, i, o, n, x)) by { reveal(ie_%s); %s } lem_ie_%s(h0, h@, this, i, o, n, x); }'%(g,cn,cn,EQ([z for z in c[1] if ' == ' in z and not z.startswith('(') and not z.startswith('shifted')]),cn))
    return ' '.join(out)
SHIFTOK='proof { assert forall|k: int| 0 <= k < nb(h0, this) implies #[trigger] ps(h0, this)[k] + %s <= 0x7fff_ffff_ffff_ffff && ps(h0, this)[k] <= cur(h0, this) by { lem_tile(h0, this, k); } }'
CONTRACTS.update({
 'mtv.insert_empty_impl':dict(rlimit=100,requires=['wf(H, this)','blk_of(H, this, block_index as int, pos as int)','0 < length','cur(H, this) + length <= 0x7fff_ffff_ffff_ffff'],
   ensures=['wf(H, this)','frm(H0, H, this)','oth(H0, H, this)','cur(H, this) == cur(H0, this) + length','view(H, this) == view(H0, this).take(pos as int) + emp(length as int) + view(H0, this).skip(pos as int)','r.parent == this','blk_of(H, this, r.index as int, pos as int)'],
   at={'entry':ENTB+' '+SHIFTOK%'length','exit':'proof { let bi = block_index as int; let ofs = pos - ps(h0, this)[bi]; let xx = if nb(h@, this) == nb(h0, this) + 2 { if db(h@, this)[bi] == db(h0, this)[bi] { db(h@, this)[bi + 2] } else { db(h@, this)[bi] } } else { 0 }; '+IEX('bi','ofs','length','xx')+' lem_tile(h@, this, ret.index as int); }'}),
})
# ---- erasing within one block
ve=lambda a,n:'view(g, t) == view(h, t).take(%s) + view(h, t).skip(%s + %s)'%(a,a,n)
K=lambda i: 'kind(h, db(h, t)[%s])'%i
jn=lambda i:'(%s > 0 && %s + 1 < nb(h, t) && %s == %s)'%(i,i,K(i+' - 1'),K(i+' + 1'))
ES={
 'k':(['n < sz(h, t)[i]'],[shift(P,'i + 1','-n'),'sz(g, t) == '+S+'.update(i, (sz(h, t)[i] - n) as u64)','db(g, t) == '+B,'g.eb_type == h.eb_type']+SAMEA[:2]+['db(h, t)[i] != 0 ==> g.g_el[db(h, t)[i]] == el(h, db(h, t)[i]).take(o) + el(h, db(h, t)[i]).skip(o + n)',others('db(h, t)[i]')],'i','i + 1','1',
   'let w = bcells(h, db(h, t)[i], sz(h, t)[i] as int); let a = bcells(g, db(h, t)[i], sz(g, t)[i] as int); lem_block(h, t, i); assert(a =~= w.take(o) + w.skip(o + n)); lem_flat1(a); assert(blks(g, t).subrange(i, i + 1) =~= seq![a]);'),
 'd':(['o == 0','n == sz(h, t)[i]','!'+jn('i')],[shift(P+'.remove(i)','i','-n'),'sz(g, t) == '+S+'.remove(i)','db(g, t) == '+B+'.remove(i)','g.eb_type == h.eb_type']+dropped()+[others('db(h, t)[i]')],'i','i + 1','0','assert(blks(g, t).subrange(i, i) =~= Seq::<Seq<Cell>>::empty());'),
 'm':(['o == 0','n == sz(h, t)[i]',jn('i')],[shift('(ps(h, t).take(i) + ps(h, t).skip(i + 2))','i','-n'),'sz(g, t) == '+S+'.update(i - 1, (sz(h, t)[i - 1] + sz(h, t)[i + 1]) as u64).take(i) + sz(h, t).skip(i + 2)','db(g, t) == '+B+'.take(i) + db(h, t).skip(i + 2)','g.eb_type == h.eb_type']+
   ['g.al_eb == drp(drp(h.al_eb, db(h, t)[i]), db(h, t)[i + 1])','g.g_ev[t] == drp(drp(h.g_ev[t], db(h, t)[i]), db(h, t)[i + 1])',
    'db(h, t)[i - 1] != 0 ==> g.g_el[db(h, t)[i - 1]] == el(h, db(h, t)[i - 1]) + el(h, db(h, t)[i + 1])','forall|b: Ptr| b == 0 || b != db(h, t)[i] && b != db(h, t)[i - 1] && b != db(h, t)[i + 1] ==> #[trigger] g.g_el[b] == h.g_el[b]'],'i - 1','i + 2','1',
   'let q = db(h, t)[i - 1]; let a = bcells(g, q, sz(g, t)[i - 1] as int); lem_block(h, t, i - 1); lem_block(h, t, i + 1); assert(a =~= bcells(h, q, sz(h, t)[i - 1] as int) + bcells(h, db(h, t)[i + 1], sz(h, t)[i + 1] as int)); lem_flat1(a); assert(blks(g, t).subrange(i - 1, i) =~= seq![a]);'),
}
for cn,c in ES.items():
    PRELUDE+='#[verifier::opaque] pub open spec fn es_%s(h: Heap, g: Heap, t: Ptr, i: int, o: int, n: int) -> bool {\n    %s\n}\n'%(cn,'\n    '.join('&&& '+('('+z+')' if '==>' in z else z) for z in c[0]+c[1]))
    PRELUDE+=lemma('lem_es_'+cn,'i: int, o: int, n: int',WF0+['cur(g, t) == cur(h, t) - n','0 <= i < nb(h, t)','0 <= o','0 < n','o + n <= sz(h, t)[i]','es_%s(h, g, t, i, o, n)'%cn],['wf(g, t)','frm(h, g, t)',ve('ps(h, t)[i] + o','n')],c[2],c[3],c[4],'-n',pre='reveal(es_%s); '%cn+PRE_I+' lem_has0(h, t); if i > 0 { lem_adj(h, t, 0, 0, i - 1); } if i + 1 < nb(h, t) { lem_adj(h, t, 0, 0, i); } if i > 1 { assert(blkok(h, t, i - 2)); } if i + 2 < nb(h, t) { assert(blkok(h, t, i + 2)); }',view=c[5]+' assert(%s);'%ve('ps(h, t)[i] + o','n').replace(' == ',' =~= ',1))
def ESX(i,o,n):
    out=['let i = (%s) as int; let o = (%s) as int; let n = (%s) as int;'%(i,o,n),OTHP+' lem_has0(h0, this);']
    for cn,c in ES.items():
        g=re.sub(r'\bt\b','this',re.sub(r'\bh\b','h0',' && '.join(c[0])))
        out.append('if %s { assert(es_%s(h0, h@, this, i, o, n)) by { reveal(es_%s); %s } lem_es_%s(h0, h@, this, i, o, n); }'%(g,cn,cn,EQ([z for z in c[1] if ' == ' in z and not z.startswith('(') and not z.startswith('shifted') and '==>' not in z]),cn))
    return ' '.join(out)
PRELUDE+="pub proof fn lem_has0(h: Heap, t: Ptr) requires owned(h, t) ensures !h.g_ev[t].contains(0) { reveal(owned); }\n"
ERENS=lambda a,e:['wf(H, this)','frm(H0, H, this)','oth(H0, H, this)','cur(H, this) == cur(H0, this) - (%s - (%s))'%(e,a),'view(H, this) == view(H0, this).take(%s) + view(H0, this).skip(%s)'%(a,e)]
CONTRACTS.update({
 'mtv.erase_in_single_block':dict(rlimit=100,requires=['wf(H, this)','blk_of(H, this, block_index as int, start_pos as int)','blk_of(H, this, block_index as int, end_pos as int)','start_pos <= end_pos'],ensures=ERENS('start_pos as int','end_pos + 1'),
   at={'entry':ENTB+' proof { lem_has0(h@, this); assert forall|k: int| block_index < k < nb(h@, this) implies #[trigger] ps(h@, this)[k] >= ps(h@, this)[block_index as int] + sz(h@, this)[block_index as int] && ps(h@, this)[k] <= cur(h@, this) by { lem_tile(h@, this, k); lem_sorted(h@, this, block_index as int, k); } }',
    'before_call:mtv.delete_element_block':'proof { reveal(oth); }','after_call:mtv.delete_element_block':'proof { reveal(oth); }',
    'exit':'proof { let bi = block_index as int; let nn = end_pos - start_pos + 1; let ofs = start_pos - ps(h0, this)[bi]; '+ESX('bi','ofs','nn')+' }'}),
})
# ---- several blocks at once
PRELUDE+='''// blocks of t were deleted or kept, none was added
#[verifier::opaque] pub open spec fn gone(h: Heap, g: Heap, t: Ptr) -> bool { (forall|b: Ptr| #[trigger] g.al_eb.contains(b) <==> h.al_eb.contains(b) && (!h.g_ev[t].contains(b) || g.g_ev[t].contains(b))) && (forall|b: Ptr| #[trigger] g.g_ev[t].contains(b) ==> h.g_ev[t].contains(b)) }
// ... and the element blocks that are left are as they were, but for p and q
#[verifier::opaque] pub open spec fn kept(h: Heap, g: Heap, p: Ptr, q: Ptr) -> bool { g.eb_type == h.eb_type && forall|b: Ptr| #[trigger] g.al_eb.contains(b) && (b == 0 || b != p && b != q) ==> g.g_el[b] == h.g_el[b] }
#[verifier::spinoff_prover] #[verifier::rlimit(80)] pub proof fn lem_gone_frm(h: Heap, g: Heap, t: Ptr, p: Ptr, q: Ptr) requires oth(h, g, t), gone(h, g, t), kept(h, g, p, q), owned(h, t), owned(g, t), p != 0 ==> h.g_ev[t].contains(p), q != 0 ==> h.g_ev[t].contains(q) ensures frm(h, g, t)
{ reveal(oth); reveal(gone); reveal(kept); reveal(frm); lem_has0(h, t);
  assert forall|u: Ptr| #![trigger g.mtv_m_block_store[u]] #![trigger g.g_ev[u]] #![trigger g.mtv_m_cur_size[u]] u != t implies g.mtv_m_block_store[u] == h.mtv_m_block_store[u] && g.mtv_m_cur_size[u] == h.mtv_m_cur_size[u] && g.g_ev[u] == h.g_ev[u] by {}
  assert forall|b: Ptr| #[trigger] h.al_eb.contains(b) && !h.g_ev[t].contains(b) implies g.al_eb.contains(b) && g.g_el[b] == h.g_el[b] && g.eb_type[b] == h.eb_type[b] && !g.g_ev[t].contains(b) by { assert(g.al_eb.contains(b)); } }
// dropping or adding empty blocks keeps the ownership
#[verifier::spinoff_prover] #[verifier::rlimit(80)] pub proof fn lem_own0(h: Heap, g: Heap, t: Ptr, a: int, b: int, n: int) requires owned(h, t), g.al_eb == h.al_eb, g.g_ev[t] == h.g_ev[t], 0 <= a <= b <= db(h, t).len(), 0 <= n, db(g, t) == db(h, t).take(a) + Seq::new(n as nat, |k: int| 0 as Ptr) + db(h, t).skip(b), forall|k: int| a <= k < b ==> #[trigger] db(h, t)[k] == 0 ensures owned(g, t)
{ reveal(owned); let f = |k: int| if k < a { k } else { k - a - n + b };
  assert forall|i: int, j: int| #![trigger db(g, t)[i], db(g, t)[j]] 0 <= i < j < db(g, t).len() && db(g, t)[i] != 0 implies db(g, t)[i] != db(g, t)[j] by { assert(db(g, t)[i] == db(h, t)[f(i)]); if !(a <= j < a + n) { assert(db(g, t)[j] == db(h, t)[f(j)]); } }
  assert forall|i: int| 0 <= i < db(g, t).len() && db(g, t)[i] != 0 implies g.g_ev[t].contains(#[trigger] db(g, t)[i]) by { assert(db(g, t)[i] == db(h, t)[f(i)]); }
  assert forall|x: Ptr| #[trigger] g.g_ev[t].contains(x) implies x != 0 && g.al_eb.contains(x) && exists|i: int| 0 <= i < db(g, t).len() && #[trigger] db(g, t)[i] == x by { let k = choose|k: int| 0 <= k < db(h, t).len() && #[trigger] db(h, t)[k] == x; assert(db(g, t)[if k < a { k } else { k - b + a + n }] == x); } }
pub proof fn lem_gone0(h: Heap, t: Ptr) ensures gone(h, h, t), kept(h, h, 0, 0) { reveal(gone); reveal(kept); }
pub proof fn lem_gone2(h: Heap, g: Heap, f: Heap, t: Ptr) requires gone(h, g, t), gone(g, f, t) ensures gone(h, f, t) { reveal(gone); assert forall|b: Ptr| #[trigger] f.al_eb.contains(b) <==> h.al_eb.contains(b) && (!h.g_ev[t].contains(b) || f.g_ev[t].contains(b)) by { assert(g.al_eb.contains(b) == g.al_eb.contains(b)); } }
pub proof fn lem_own_same(h: Heap, g: Heap, t: Ptr) requires owned(h, t), g.al_eb == h.al_eb, g.g_ev[t] == h.g_ev[t], db(g, t) == db(h, t) ensures owned(g, t) { reveal(owned); assert forall|b: Ptr| #[trigger] g.g_ev[t].contains(b) implies b != 0 && g.al_eb.contains(b) && exists|i: int| 0 <= i < db(g, t).len() && #[trigger] db(g, t)[i] == b by { let i = choose|i: int| 0 <= i < db(h, t).len() && #[trigger] db(h, t)[i] == b; assert(db(g, t)[i] == b); } }
// deleting one block
#[verifier::spinoff_prover] #[verifier::rlimit(80)] pub proof fn lem_del1(h: Heap, g: Heap, t: Ptr, i: int) requires owned(h, t), oth(h, g, t), 0 <= i < db(h, t).len(), g.al_eb == drp(h.al_eb, db(h, t)[i]), g.g_ev[t] == drp(h.g_ev[t], db(h, t)[i]), db(g, t) == db(h, t).update(i, 0) ensures owned(g, t), gone(h, g, t), forall|b: Ptr| #[trigger] g.al_eb.contains(b) ==> h.al_eb.contains(b), forall|b: Ptr| #[trigger] g.g_ev[t].contains(b) ==> h.g_ev[t].contains(b)
{ reveal(owned); reveal(gone); assert(db(h, t)[i] == db(h, t)[i]);
  assert forall|x: Ptr| #[trigger] g.g_ev[t].contains(x) implies x != 0 && g.al_eb.contains(x) && exists|k: int| 0 <= k < db(g, t).len() && #[trigger] db(g, t)[k] == x by { let k = choose|k: int| 0 <= k < db(h, t).len() && #[trigger] db(h, t)[k] == x; assert(db(g, t)[k] == x); }
  assert forall|k: int| 0 <= k < db(g, t).len() && db(g, t)[k] != 0 implies g.g_ev[t].contains(#[trigger] db(g, t)[k]) by { assert(db(g, t)[k] == db(h, t)[k]); }
  assert forall|a: int, b: int| #![trigger db(g, t)[a], db(g, t)[b]] 0 <= a < b < db(g, t).len() && db(g, t)[a] != 0 implies db(g, t)[a] != db(g, t)[b] by { assert(db(g, t)[a] == db(h, t)[a]); assert(db(g, t)[b] == db(h, t)[b] || b == i); } }
'''
def zero(a,b): return 'Seq::new(db(H0, this).len(), |k: int| if %s <= k < %s { 0 as Ptr } else { db(H0, this)[k] })'%(a,b)
DELA='proof { assert(h@.al_eb =~= drp(hd_.al_eb, db(hd_, this)[i as int])); assert(h@.g_ev[this] =~= drp(hd_.g_ev[this], db(hd_, this)[i as int])); assert(oth(hd_, h@, this)) by { reveal(oth); } lem_del1(hd_, h@, this, i as int); lem_gone2(h0, hd_, h@, this); lem_oth(h0, hd_, h@, this); }'
CONTRACTS.update({
 'mtv.delete_element_blocks':dict(rlimit=60,requires=['H.al_mtv.contains(this)','owned(H, this)','end <= db(H, this).len()','start <= end'],
   ensures=SAMEP+['oth(H0, H, this)','owned(H, this)','gone(H0, H, this)','H.g_el == H0.g_el','H.eb_type == H0.eb_type','db(H, this) == '+zero('start','end')],
   at={'entry':'proof { lem_gone0(h0, this); '+OTHP+' }','before_call:mtv.delete_element_block':'proof { if db(h@, this)[i as int] != 0 { lem_has(h@, this, i as int); } } let ghost hd_ = h@;','after_call:mtv.delete_element_block':DELA,'exit':'proof { assert(db(h@, this) =~= %s); }'%zero('start','end').replace('H0','h0')},
   loops=[dict(inv=[x.replace('H0','h0').replace('H','h@') if 0 else re.sub(r'\bH\b','h@',re.sub(r'\bH0\b','h0',x)) for x in SAMEP]+['start <= i <= end','end <= db(h0, this).len()','h@.al_mtv.contains(this)','oth(h0, h@, this)','owned(h@, this)','gone(h0, h@, this)','h@.g_el == h0.g_el','h@.eb_type == h0.eb_type','db(h@, this) =~= '+zero('start','i').replace('H0','h0')],dec='end - i')]),
})
PRELUDE+=lemma('lem_rsz','i: int, m: int',WF0+['0 <= i < nb(h, t)','0 < m <= sz(h, t)[i]','cur(g, t) == ps(h, t)[i] + m','owned(g, t)','gone(h, g, t)','kept(h, g, db(h, t)[i], 0)','db(h, t)[i] != 0 ==> g.g_el[db(h, t)[i]] == el(h, db(h, t)[i]).take(m)']+seqs(P+'.take(i + 1)',S+'.take(i).push(m as u64)',B+'.take(i + 1)'),
  ['wf(g, t)','frm(h, g, t)','view(g, t) == view(h, t).take(ps(h, t)[i] + m)'],'i','nb(h, t)','1','ps(h, t)[i] + m - cur(h, t)',parts='scf',pre=PRE_I+' reveal(kept); assert(db(g, t)[i] == db(h, t)[i]); if db(h, t)[i] != 0 { lem_has(g, t, i); lem_has(h, t, i); } ',rev='assert forall|k: int| 0 <= k < i && db(h, t)[k] != 0 implies g.al_eb.contains(#[trigger] db(h, t)[k]) by { assert(db(g, t)[k] == db(h, t)[k]); }',frm='lem_gone_frm(h, g, t, db(h, t)[i], 0);',
  view='let q = db(h, t)[i]; let w = bcells(h, q, sz(h, t)[i] as int); let a = bcells(g, q, m); lem_block(h, t, i); assert(a =~= w.take(m)); lem_flat1(a); assert(blks(g, t).subrange(i, i + 1) =~= seq![a]); assert(view(g, t) =~= view(h, t).take(ps(h, t)[i] + m));')
CONTRACTS.update({
 'mtv.clear':dict(rlimit=60,requires=['wf(H, this)'],ensures=['wf(H, this)','frm(H0, H, this)','oth(H0, H, this)','cur(H, this) == 0','nb(H, this) == 0','view(H, this).len() == 0'],
   at={'after_call:mtv.delete_element_blocks':'let ghost h1 = h@;','exit':'proof { assert(oth(h0, h@, this)) by { reveal(oth); } assert(db(h@, this) =~= db(h1, this).take(0) + Seq::new(0nat, |k: int| 0 as Ptr) + db(h1, this).skip(nb(h0, this))); lem_own0(h1, h@, this, 0, nb(h0, this), 0); assert(gone(h0, h@, this)) by { reveal(gone); } assert(kept(h0, h@, 0, 0)) by { reveal(kept); } lem_gone_frm(h0, h@, this, 0, 0); reveal(posok); reveal(canx); reveal(view); assert(blks(h@, this).len() == 0); }'}),
 'mtv.resize_impl':dict(rlimit=60,requires=['wf(H, this)','new_size <= 0x7fff_ffff_ffff_ffff'],ensures=['wf(H, this)','frm(H0, H, this)','oth(H0, H, this)','cur(H, this) == new_size','new_size >= cur(H0, this) ==> view(H, this) == view(H0, this) + emp(new_size - cur(H0, this))','new_size < cur(H0, this) ==> view(H, this) == view(H0, this).take(new_size as int)'],
   at={'entry':'proof { lem_frm0(h0, this); '+OTHP+' lem_len(h0, this, nb(h0, this)); assert(view(h0, this) + emp(0) =~= view(h0, this)); } '+ENT,'decl:data':'proof { let block_index = block_index; '+ENTB[8:]+' let ghost h3 = h@;','before_call:mtv.delete_element_blocks':'let ghost h1 = h@; proof { assert(db(h1, this) =~= db(h0, this)); lem_own_same(h0, h1, this); }','after_call:mtv.delete_element_blocks':'let ghost h2 = h@;',
    'after_store:mtv.m_cur_size':'proof { assert(oth(h0, h@, this)) by { reveal(oth); } let i = block_index as int; let m = new_size - ps(h0, this)[i]; let b = nb(h1, this); assert(db(h@, this) =~= db(h2, this).take(i + 1) + Seq::new(0nat, |k: int| 0 as Ptr) + db(h2, this).skip(b)); lem_own0(h2, h@, this, i + 1, b, 0); '
       'assert(gone(h0, h@, this)) by { reveal(gone); } assert(kept(h0, h@, db(h0, this)[i], 0)) by { reveal(kept); } '+EQ(seqs(P+'.take(i + 1)',S+'.take(i).push(m as u64)',B+'.take(i + 1)'))+' if db(h0, this)[i] != 0 { assert(el(h@, db(h0, this)[i]) =~= el(h0, db(h0, this)[i]).take(m)); } lem_rsz(h0, h@, this, i, m); }',
    'exit':'proof { if new_size == 0 { assert(view(h@, this) =~= view(h0, this).take(0)); } }'}),
})
# erasing across blocks i..j: hd/tl = is a part of the first/last left
PRE_IJ='lem_has0(h, t); lem_has0(g, t); reveal(kept); '+PRE_I+' lem_tile(h, t, j); assert(blkok(h, t, j)); lem_sorted(h, t, i, j); if db(h, t)[j] != 0 { lem_has(h, t, j); } if j + 1 < nb(h, t) { lem_tile(h, t, j + 1); assert(blkok(h, t, j + 1)); lem_adj(h, t, 0, 0, j); } if i > 0 { lem_adj(h, t, 0, 0, i - 1); }'
KEEPREV='assert forall|k: int| 0 <= k < i && db(h, t)[k] != 0 implies g.al_eb.contains(#[trigger] db(h, t)[k]) by { assert(db(g, t)[k] == db(h, t)[k]); } assert forall|k: int| j_ <= k < nb(h, t) && db(h, t)[k] != 0 implies g.al_eb.contains(#[trigger] db(h, t)[k]) by { assert(db(g, t)[k - j_ + i_ + n_] == db(h, t)[k]); }'
ER={}
for hd in(0,1):
  for tl in(0,1):
    cn='er%d%d'%(hd,tl)
    u=(lambda q,x,y: '%s(h, t)'%q+('.update(i, %s)'%x if hd and x else '')+('.update(j, %s)'%y if tl and y else ''))
    cut=lambda q: '(%s.take(i + %d) + %s.skip(j + %d))'%(q,hd,q,1-tl)
    ER[cn]=(['%sa > 0'%('' if hd else '!(')+('' if hd else ')'),'%sb < sz(h, t)[j]'%('' if tl else '!(')+('' if tl else ')')],
      ['db(g, t) == '+cut(B),'sz(g, t) == '+cut(u('sz','a as u64','(sz(h, t)[j] - b) as u64')),shift(cut(u('ps','','(ps(h, t)[i] + a) as u64')),'i + %d'%(hd+tl),'-(ps(h, t)[j] + b - ps(h, t)[i] - a)')]+
      (['db(h, t)[i] != 0 ==> g.g_el[db(h, t)[i]] == el(h, db(h, t)[i]).take(a)'] if hd else [])+(['db(h, t)[j] != 0 ==> g.g_el[db(h, t)[j]] == el(h, db(h, t)[j]).skip(b)'] if tl else []))
    PRELUDE+='#[verifier::opaque] pub open spec fn %s(h: Heap, g: Heap, t: Ptr, i: int, j: int, a: int, b: int) -> bool {\n    %s\n}\n'%(cn,'\n    '.join('&&& '+('('+z+')' if '==>' in z else z) for z in ER[cn][0]+ER[cn][1]))
    v='lem_block(h, t, i); lem_block(h, t, j); let wi = bcells(h, db(h, t)[i], sz(h, t)[i] as int); let wj = bcells(h, db(h, t)[j], sz(h, t)[j] as int); '
    if hd: v+='let p = bcells(g, db(h, t)[i], a); assert(p =~= wi.take(a)); '
    if tl: v+='let q = bcells(g, db(h, t)[j], sz(h, t)[j] - b); assert(q =~= wj.skip(b)); '
    v+={(0,0):'assert(blks(g, t).subrange(i, i) =~= Seq::<Seq<Cell>>::empty());',(1,0):'lem_flat1(p); assert(blks(g, t).subrange(i, i + 1) =~= seq![p]);',(0,1):'lem_flat1(q); assert(blks(g, t).subrange(i, i + 1) =~= seq![q]);',(1,1):'lem_flat2(p, q); assert(blks(g, t).subrange(i, i + 2) =~= seq![p, q]);'}[hd,tl]
    PRELUDE+=lemma('lem_'+cn,'i: int, j: int, a: int, b: int',WF0+['0 <= i < j < nb(h, t)','0 <= a < sz(h, t)[i]','0 < b <= sz(h, t)[j]','cur(g, t) == cur(h, t) - (ps(h, t)[j] + b - ps(h, t)[i] - a)','owned(g, t)','gone(h, g, t)','kept(h, g, db(h, t)[i], db(h, t)[j])','%s(h, g, t, i, j, a, b)'%cn],
      ['shp(g, t)','owned(g, t)','canx(g, t, i + %d, i + %d)'%(hd-1,hd),'frm(h, g, t)','view(g, t) == view(h, t).take(ps(h, t)[i] + a) + view(h, t).skip(ps(h, t)[j] + b)'],'i','j + 1',str(hd+tl),'-(ps(h, t)[j] + b - ps(h, t)[i] - a)',parts='scf',ca=('0','0','i + %d'%(hd-1),'i + %d'%hd),
      pre='reveal(%s); '%cn+PRE_IJ+(' assert(db(g, t)[i] == db(h, t)[i]); if db(h, t)[i] != 0 { lem_has(g, t, i); }' if hd else '')+(' assert(db(g, t)[i + %d] == db(h, t)[j]); if db(h, t)[j] != 0 { lem_has(g, t, i + %d); }'%(hd,hd) if tl else ''),rev=KEEPREV,frm='lem_gone_frm(h, g, t, db(h, t)[i], db(h, t)[j]);',view=v+' assert(view(g, t) =~= view(h, t).take(ps(h, t)[i] + a) + view(h, t).skip(ps(h, t)[j] + b));')
def ERX():
    out=['assert(oth(h0, h@, this)) by { reveal(oth); } let i = p1; let j = p2; let a = start_row - ps(h0, this)[i]; let b = end_row + 1 - ps(h0, this)[j]; assert(gone(h0, h@, this)) by { reveal(gone); } assert(kept(h0, h@, db(h0, this)[i], db(h0, this)[j])) by { reveal(kept); }']
    for cn,c in ER.items():
        g=re.sub(r'\bt\b','this',re.sub(r'\bh\b','h0',' && '.join(c[0])))
        hd,tl=int(cn[2]),int(cn[3])
        out.append('if %s { assert(%s(h0, h@, this, i, j, a, b)) by { reveal(%s); %s %s %s } assert(db(h@, this) =~= db(h2, this).take(i + %d) + Seq::new(0nat, |k: int| 0 as Ptr) + db(h2, this).skip(j + %d)); lem_own0(h2, h@, this, i + %d, j + %d, 0); lem_%s(h0, h@, this, i, j, a, b); }'%(g,cn,cn,EQ([z for z in c[1] if ' == ' in z and '==>' not in z and not z.startswith('shifted')]),
          'if db(h0, this)[i] != 0 { assert(h@.g_el[db(h0, this)[i]] =~= el(h0, db(h0, this)[i]).take(a)); }' if hd else '','if db(h0, this)[j] != 0 { assert(h@.g_el[db(h0, this)[j]] =~= el(h0, db(h0, this)[j]).skip(b)); }' if tl else '',hd,1-tl,hd,1-tl,cn))
    return ' '.join(out)
CONTRACTS.update({
 'mtv.erase_impl':dict(rlimit=100,requires=['wf(H, this)','start_row <= end_row'],throws='end_row >= cur(H, this)',ensures=['end_row < cur(H0, this)']+ERENS('start_row as int','end_row + 1'),
   at={'entry':ENT,'decl:start_row_in_block2':'let ghost p1 = block_pos1 as int; let ghost p2 = block_pos2 as int; proof { lem_has0(h0, this); lem_tile(h0, this, p1); lem_tile(h0, this, p2); assert(blkok(h0, this, p1)); assert(blkok(h0, this, p2)); if db(h0, this)[p1] != 0 { lem_has(h0, this, p1); } if db(h0, this)[p2] != 0 { lem_has(h0, this, p2); } if p1 < p2 { lem_sorted(h0, this, p1, p2); if p1 > 0 { lem_tile(h0, this, p1 - 1); } } else if p2 < p1 { lem_sorted(h0, this, p2, p1); } assert forall|k: int| p2 < k < nb(h0, this) implies #[trigger] ps(h0, this)[k] >= ps(h0, this)[p2] + sz(h0, this)[p2] && ps(h0, this)[k] <= cur(h0, this) by { lem_tile(h0, this, k); lem_sorted(h0, this, p2, k); } }',
     'before_call:mtv.delete_element_blocks':'let ghost h1 = h@; proof { assert(db(h1, this) =~= db(h0, this)); lem_own_same(h0, h1, this); }','after_call:mtv.delete_element_blocks':'let ghost h2 = h@;',
     'after_store:mtv.m_cur_size':'proof { if nb(h@, this) == 0 { '+ERX()+' lem_canx_id(h@, this, i - 1, i, 0, 0); } }',
     'before_call:mtv.merge_with_next_block':'let ghost h5 = h@; proof { '+ERX()+' lem_canx_id(h@, this, i + (if a > 0 { 0int } else { -1int }), i + (if a > 0 { 1int } else { 0int }), block_pos1 as int, block_pos1 + 1); }','after_call:mtv.merge_with_next_block':'proof { lem_frm2(h0, h5, h@, this); lem_oth(h0, h5, h@, this); }'}),
})
# emptying across blocks: the blocks i..j (inclusive) become [first a cells of i] + one empty block [f, e) + [cells of j from b]
SM={}
for hd in(0,1):
  for tl in(0,1):
    cn='sm%d%d'%(hd,tl)
    HD=lambda x: '[%s]'%x if hd else ''
    def row(q,x,y,z): return '%s(h, t).take(i) + seq![%s] + %s(h, t).skip(j + 1)'%(q,', '.join(([x] if hd else [])+[y]+([z] if tl else [])),q)
    SM[cn]=(['%s(a > 0)'%('' if hd else '!'),'%s(b < sz(h, t)[j])'%('' if tl else '!')],
      ['db(g, t) == '+row('db','db(h, t)[i]','0 as Ptr','db(h, t)[j]'),'sz(g, t) == '+row('sz','a as u64','(e - f) as u64','(sz(h, t)[j] - b) as u64'),'ps(g, t) == '+row('ps','ps(h, t)[i]','f as u64','e as u64')]+
      (['db(h, t)[i] != 0','f == ps(h, t)[i] + a','g.g_el[db(h, t)[i]] == el(h, db(h, t)[i]).take(a)'] if hd else ['f == ps(h, t)[i]','i > 0 ==> kind(h, db(h, t)[i - 1]) != -1'])+(['db(h, t)[j] != 0','e == ps(h, t)[j] + b','g.g_el[db(h, t)[j]] == el(h, db(h, t)[j]).skip(b)'] if tl else ['e == ps(h, t)[j] + sz(h, t)[j]','j + 1 < nb(h, t) ==> kind(h, db(h, t)[j + 1]) != -1']))
    PRELUDE+='#[verifier::opaque] pub open spec fn %s(h: Heap, g: Heap, t: Ptr, i: int, j: int, a: int, b: int, f: int, e: int) -> bool {\n    %s\n}\n'%(cn,'\n    '.join('&&& '+('('+z+')' if '==>' in z else z) for z in SM[cn][0]+SM[cn][1]))
    v='lem_block(h, t, i); lem_block(h, t, j); lem_len(h, t, nb(h, t)); let wi = bcells(h, db(h, t)[i], sz(h, t)[i] as int); let wj = bcells(h, db(h, t)[j], sz(h, t)[j] as int); assert(bcells(g, 0, e - f) =~= emp(e - f)); let m = emp(e - f); '
    if hd: v+='let p = bcells(g, db(h, t)[i], a); assert(p =~= wi.take(a)); '
    if tl: v+='let q = bcells(g, db(h, t)[j], sz(h, t)[j] - b); assert(q =~= wj.skip(b)); '
    L=(['p'] if hd else [])+['m']+(['q'] if tl else [])
    v+='lem_flat%d(%s); assert(blks(g, t).subrange(i, i + %d) =~= seq![%s]);'%(len(L),', '.join(L),len(L),', '.join(L))
    PRELUDE+=lemma('lem_'+cn,'i: int, j: int, a: int, b: int, f: int, e: int',WF0+['0 <= i < j < nb(h, t)','0 <= a < sz(h, t)[i]','0 < b <= sz(h, t)[j]','cur(g, t) == cur(h, t)','owned(g, t)','gone(h, g, t)','kept(h, g, db(h, t)[i], db(h, t)[j])','%s(h, g, t, i, j, a, b, f, e)'%cn],
      ['wf(g, t)','frm(h, g, t)','view(g, t) == view(h, t).take(f) + emp(e - f) + view(h, t).skip(e)'],'i','j + 1',str(hd+tl+1),'0',parts='scf',
      pre='reveal(%s); '%cn+PRE_IJ+(' assert(db(g, t)[i] == db(h, t)[i]); lem_has(g, t, i);' if hd else '')+(' assert(db(g, t)[i + %d] == db(h, t)[j]); lem_has(g, t, i + %d);'%(hd+1,hd+1) if tl else ''),rev=KEEPREV,frm='lem_gone_frm(h, g, t, db(h, t)[i], db(h, t)[j]);',view=v+' assert(view(g, t) =~= view(h, t).take(f) + emp(e - f) + view(h, t).skip(e));')
PRELUDE+='''// cells that are empty already may count as emptied
pub proof fn lem_empx(v: Seq<Cell>, s: int, e: int, f: int, g: int) requires 0 <= f <= s <= e <= g <= v.len(), forall|k: int| f <= k < s ==> #[trigger] v[k] == Cell::Empty, forall|k: int| e <= k < g ==> #[trigger] v[k] == Cell::Empty ensures v.take(f) + emp(g - f) + v.skip(g) == v.take(s) + emp(e - s) + v.skip(e) { assert(v.take(f) + emp(g - f) + v.skip(g) =~= v.take(s) + emp(e - s) + v.skip(e)); }
pub proof fn lem_eblk(h: Heap, t: Ptr, i: int, a: int, b: int) requires shp(h, t), 0 <= i < nb(h, t), db(h, t)[i] == 0, ps(h, t)[i] <= a, b <= ps(h, t)[i] + sz(h, t)[i] ensures forall|k: int| a <= k < b ==> #[trigger] view(h, t)[k] == Cell::Empty { assert forall|k: int| a <= k < b implies #[trigger] view(h, t)[k] == Cell::Empty by { lem_cell(h, t, i, k - ps(h, t)[i]); } }
'''
def SMX():
    out=['assert(oth(h0, h@, this)) by { reveal(oth); } assert(gone(h0, h@, this)) by { reveal(gone); } assert(kept(h0, h@, db(h0, this)[i], db(h0, this)[j])) by { reveal(kept); }']
    for cn,c in SM.items():
        g=re.sub(r'\bt\b','this',re.sub(r'\bh\b','h0',' && '.join(c[0])))
        hd,tl=int(cn[2]),int(cn[3])
        out.append('if %s { assert(db(h@, this) =~= db(h2, this).take(i + %d) + Seq::new(1nat, |k: int| 0 as Ptr) + db(h2, this).skip(j + %d)); lem_own0(h2, h@, this, i + %d, j + %d, 1); assert(%s(h0, h@, this, i, j, a, b, f, e)) by { reveal(%s); %s %s %s } lem_%s(h0, h@, this, i, j, a, b, f, e); }'%(g,hd,1-tl,hd,1-tl,cn,cn,EQ([z for z in c[1] if ' == ' in z and '==>' not in z and z[:2] in('db','sz','ps') and '!=' not in z]),
          'assert(h@.g_el[db(h0, this)[i]] =~= el(h0, db(h0, this)[i]).take(a));' if hd else '','assert(h@.g_el[db(h0, this)[j]] =~= el(h0, db(h0, this)[j]).skip(b));' if tl else '',cn))
    return ' '.join(out)
PRE01=' '.join('lem_tile(h, t, %s); assert(blkok(h, t, %s)); if db(h, t)[%s] != 0 { lem_has(h, t, %s); } if %s > 0 { lem_adj(h, t, 0, 0, %s - 1); lem_tile(h, t, %s - 1); assert(blkok(h, t, %s - 1)); if db(h, t)[%s - 1] != 0 { lem_has(h, t, %s - 1); } } if %s + 1 < nb(h, t) { lem_adj(h, t, 0, 0, %s); lem_tile(h, t, %s + 1); assert(blkok(h, t, %s + 1)); if db(h, t)[%s + 1] != 0 { lem_has(h, t, %s + 1); } }'.replace('%s',x) for x in('q1','q2'))+' if q1 > 1 { lem_adj(h, t, 0, 0, q1 - 2); } if q2 + 2 < nb(h, t) { lem_adj(h, t, 0, 0, q2 + 1); }'
CONTRACTS.update({
 'mtv.set_empty_in_multi_blocks':dict(rlimit=400,requires=['wf(H, this)','blk_of(H, this, block_index1 as int, start_row as int)','blk_of(H, this, block_index2 as int, end_row as int)','block_index1 < block_index2'],ensures=EMPENS('start_row__0 as int','end_row__0 + 1'.replace('__0',''))if 0 else EMPENS('start_row as int','end_row + 1')+['r.parent == this','blk_of(H, this, r.index as int, start_row as int)'],
   split=[['db(H, this)[block_index1 as int] == 0','db(H, this)[block_index1 as int] != 0 && ps(H, this)[block_index1 as int] == start_row && block_index1 > 0 && db(H, this)[block_index1 - 1] == 0','db(H, this)[block_index1 as int] != 0 && ps(H, this)[block_index1 as int] == start_row && !(block_index1 > 0 && db(H, this)[block_index1 - 1] == 0)','db(H, this)[block_index1 as int] != 0 && ps(H, this)[block_index1 as int] < start_row'],
     ['db(H, this)[block_index2 as int] == 0']+['db(H, this)[block_index2 as int] != 0 && ps(H, this)[block_index2 as int] + sz(H, this)[block_index2 as int] == end_row + 1 && %s(block_index2 + 1 < nb(H, this) && db(H, this)[block_index2 + 1] == 0)'%x for x in('','!')]+['db(H, this)[block_index2 as int] != 0 && ps(H, this)[block_index2 as int] + sz(H, this)[block_index2 as int] > end_row + 1']],
   at={'entry':'''let ghost q1 = block_index1 as int; let ghost q2 = block_index2 as int; let ghost s0 = start_row as int; let ghost e0 = end_row + 1;
      proof { let h = h0; let t = this; lem_sorted(h, t, q1, q2); lem_has0(h, t); lem_gone0(h, t); %s }
      let ghost qi: int = if db(h0, this)[q1] != 0 && s0 == ps(h0, this)[q1] && q1 > 0 && db(h0, this)[q1 - 1] == 0 { q1 - 1 } else { q1 };
      let ghost qj: int = if db(h0, this)[q2] != 0 && e0 == ps(h0, this)[q2] + sz(h0, this)[q2] && q2 + 1 < nb(h0, this) && db(h0, this)[q2 + 1] == 0 { q2 + 1 } else { q2 };
      let ghost qa: int = if db(h0, this)[q1] != 0 && s0 > ps(h0, this)[q1] { s0 - ps(h0, this)[q1] } else { 0 };
      let ghost qb: int = if db(h0, this)[q2] != 0 && e0 < ps(h0, this)[q2] + sz(h0, this)[q2] { e0 - ps(h0, this)[q2] } else { sz(h0, this)[qj] as int };
      let ghost qf: int = ps(h0, this)[qi] + qa; let ghost qe: int = ps(h0, this)[qj] + qb;
      proof { let h = h0; let t = this; lem_len(h, t, nb(h, t)); if qf < s0 { lem_eblk(h, t, qi, qf, s0); } if e0 < qe { lem_eblk(h, t, qj, e0, qe); } lem_empx(view(h, t), s0, e0, qf, qe); }'''%PRE01,
     'before_call:mtv.delete_element_block:1':'proof { reveal(oth); }','after_call:mtv.delete_element_block:1':'proof { assert(h@.al_eb =~= drp(h0.al_eb, db(h0, this)[q1])); assert(h@.g_ev[this] =~= drp(h0.g_ev[this], db(h0, this)[q1])); assert(oth(h0, h@, this)) by { reveal(oth); } lem_del1(h0, h@, this, q1); }',
     'decl:end_block_to_erase':'let ghost mut h2 = h@; proof { assert(oth(h0, h@, this)) by { reveal(oth); } if db(h@, this)[q1] == db(h0, this)[q1] { assert(db(h@, this) =~= db(h0, this)); lem_own_same(h0, h@, this); assert(gone(h0, h@, this)) by { reveal(gone); } } }',
     'before_call:mtv.delete_element_block:2':'let ghost hd_ = h@; proof { lem_own_same(hi_, hd_, this); assert(gone(h0, hd_, this)) by { reveal(gone); } assert(oth(h0, hd_, this)) by { reveal(oth); } if db(h@, this)[i as int] != 0 { lem_has(h@, this, i as int); } }',
     'after_call:mtv.delete_element_block:2':DELA+' proof { assert(kept(h0, h@, db(h0, this)[qi], db(h0, this)[qj])) by { reveal(kept); reveal(owned); } }',
     'exit':'proof { let i = qi; let j = qj; let a = qa; let b = qb; let f = qf; let e = qe; '+SMX()+' lem_tile(h@, this, ret.index as int); }'},
   loops=[dict(before='let ghost hb_ = h@; proof { assert(oth(h0, h@, this)) by { reveal(oth); } assert(db(h@, this) =~= db(h2, this)); lem_own_same(h2, h@, this); assert(gone(h0, h@, this)) by { reveal(gone); } assert(kept(h0, h@, db(h0, this)[qi], db(h0, this)[qj])) by { reveal(kept); } }',
      begin='let ghost hi_ = h@; proof { if i < end_block_to_erase && db(h@, this)[i as int] != 0 { lem_has(h@, this, i as int); } }',after='proof { h2 = h@; if db(h2, this)[qi] != 0 { lem_has(h2, this, qi); } if db(h2, this)[q2] != 0 { lem_has(h2, this, q2); } }',
      inv=['h@.al_mtv.contains(this)','ps(h@, this) == ps(hb_, this)','sz(h@, this) == sz(hb_, this)','cur(h@, this) == cur(hb_, this)','block_index1 < i <= end_block_to_erase','end_block_to_erase <= db(hb_, this).len()','oth(h0, h@, this)','owned(h@, this)','gone(h0, h@, this)','kept(h0, h@, db(h0, this)[qi], db(h0, this)[qj])',
        'forall|b: Ptr| #[trigger] h@.al_eb.contains(b) ==> hb_.al_eb.contains(b) && h@.g_el[b] == hb_.g_el[b]','db(h@, this) =~= Seq::new(db(hb_, this).len(), |k: int| if block_index1 < k < i { 0 as Ptr } else { db(hb_, this)[k] })'],dec='end_block_to_erase - i')]),
})
# ---- the public functions
CONTRACTS.update({
 'mtv.set_empty_impl':dict(requires=['wf(H, this)','blk_of(H, this, block_index1 as int, start_pos as int)'],throws='start_pos > end_pos || end_pos >= cur(H, this)',ensures=['start_pos <= end_pos < cur(H0, this)']+EMPENS('start_pos as int','end_pos + 1')+['r.parent == this','blk_of(H, this, r.index as int, start_pos as int)'],
   at={'entry':'proof { if start_pos <= end_pos && end_pos < cur(h@, this) { lem_tile(h@, this, block_index1 as int); } }','decl:block_index2':'proof { if start_pos <= end_pos && end_pos < cur(h@, this) && block_index2 < block_index1 { lem_sorted(h@, this, block_index2 as int, block_index1 as int); } }'}),
 'mtv.set_empty/2':dict(requires=['wf(H, this)'],throws='start_pos > end_pos || end_pos >= cur(H, this)',ensures=['start_pos <= end_pos < cur(H0, this)']+EMPENS('start_pos as int','end_pos + 1')+['r.parent == this','blk_of(H, this, r.index as int, start_pos as int)'],at={'entry':ENT}),
 'mtv.insert_empty/2':dict(requires=['wf(H, this)','cur(H, this) + length <= 0x7fff_ffff_ffff_ffff'],throws='length > 0 && pos >= cur(H, this)',
   ensures=['wf(H, this)','frm(H0, H, this)','oth(H0, H, this)','cur(H, this) == cur(H0, this) + length','length > 0 ==> pos < cur(H0, this) && view(H, this) == view(H0, this).take(pos as int) + emp(length as int) + view(H0, this).skip(pos as int) && r.parent == this && blk_of(H, this, r.index as int, pos as int)','length == 0 ==> view(H, this) == view(H0, this)'],at={'entry':ENT+' proof { lem_frm0(h0, this); '+OTHP+' }'}),
 'mtv.erase/2':dict(requires=['wf(H, this)'],throws='start_pos > end_pos || end_pos >= cur(H, this)',ensures=['start_pos <= end_pos < cur(H0, this)']+ERENS('start_pos as int','end_pos + 1')),
 'mtv.resize':dict(requires=['wf(H, this)','new_size <= 0x7fff_ffff_ffff_ffff'],ensures=['wf(H, this)','frm(H0, H, this)','oth(H0, H, this)','cur(H, this) == new_size','new_size >= cur(H0, this) ==> view(H, this) == view(H0, this) + emp(new_size - cur(H0, this))','new_size < cur(H0, this) ==> view(H, this) == view(H0, this).take(new_size as int)']),
})
for k in CONTRACTS:
    if k[:4] in('bst.','adj.','mtv.'): CONTRACTS[k].setdefault('broadcast','cvec_len_bound')
MUT={'resize_block':'eb_resize','append_block':'eb_append_block','append_values_from_block':'eb_append_from','assign_values_from_block':'eb_assign_from','prepend_values_from_block':'eb_prepend_from','overwrite_values':'eb_overwrite','delete_block':'eb_delete'}
def intercept(tr,e,f,name,args,obj):
    from cxx2verus import Unsupported,qt,kids
    U=('i','u64')
    def ptr(a):
        v=tr.load(tr.lv(a)) if tr.is_obj_expr(tr.skip(a)) or tr.T.is_ref(qt(a)) else tr.ev(a)[0]
        return tr.let(v,('p','eb'))
    def num(a): return tr.let(tr.icast(tr.ev(a),U)[0],U)
    if name in('operator--','operator++') and args and len(args)==1:
        try: lv=tr.lv(args[0])
        except Unsupported: return None
        if lv.ty==('r','mit'):
            tr.store(lv,tr.let('%s.%s()'%(tr.load(lv),'prev' if name[-1]=='-' else 'next'),lv.ty)); return lv
    if name=='operator=' and args and len(args)==2:
        try: lv=tr.lv(args[0])
        except Unsupported: return None
        if lv.ty==('r','mit'): tr.store(lv,tr.let(tr.ev(args[1])[0],lv.ty)); return lv
    if obj is not None:
        if name=='detach_impl': return ('()',('void',)) # assumed: the container shares no storage (copy-on-write off, or detached)
        if name in('element_block_acquired','element_block_released'):
            b=ptr(args[0]); tr.write('g_ev'); tr.emit('ev_%s(h, this, %s);'%(name.split('_')[-1],b)); return ('()',('void',))
        if name in('make_begin','make_end') and not args:
            i='0' if name=='make_begin' else tr.let('%s.positions.len()'%tr.let('ld_mtv_m_block_store(h, this)',('r','bst')),U)
            return (tr.let('mk_itr(this, %s)'%i,('r','mit')),('r','mit'))
        if name in('get_iterator',): i=num(args[0]); return (tr.let('mk_itr(this, %s)'%i,('r','mit')),('r','mit'))
        return None
    if name=='operator()' and len(args)==3 and 'equal_blocks<' in qt(args[0]):
        a=tr.let(*tr.ev(args[1])); b=tr.let(*tr.ev(args[2])); return (tr.let('eb_equal_lists(h, &%s, &%s)'%(a,b),('b',)),('b',))
    if name=='operator()' and len(args)==2 and 'copy_blocks<' in qt(args[0]):
        for w in('g_el','al_eb','eb_type'): tr.write(w)
        lv=tr.lv(args[1]); a=tr.let(tr.load(lv),lv.ty); tr.store(lv,tr.let('eb_copy_lists(h, &%s)'%a,lv.ty)); return ('()',('void',))
    if name=='equal_block' and len(args)==2:
        a=ptr(args[0]); b=ptr(args[1]); return (tr.let('eb_equal(h, %s, %s)'%(a,b),('b',)),('b',))
    if name=='swap' and len(args)==2 and obj is None:
        m=[tr.skip(a) for a in args]
        if all(x['kind']=='MemberExpr' for x in m):
            n={x.get('name') for x in m}
            if n=={'m_hdl_event'}:
                o=[tr.load(tr.objlv(kids(x)[0],x.get('isArrow'))) for x in m]
                tr.write('g_ev'); tr.emit('ev_swapped(h, %s, %s);'%tuple(o)); return ('()',('void',))
            if n=={'m_cow_store'}: return ('()',('void',))
    if name=='throw_block_position_not_found': tr.ev_CXXThrowExpr(e); return ('()',('void',))
    if name in MUT:
        tr.write('g_el'); 
        if name=='delete_block': tr.write('al_eb')
        a=[ptr(x) if i==0 or (i==1 and 'block' in name and name!='resize_block') else num(x) for i,x in enumerate(args)]
        tr.emit('%s(h, %s);'%(MUT[name],', '.join(a))); return ('()',('void',))
    if name=='erase' and f is not None and f.get('storageClass')=='static':
        b=ptr(args[0]); i=num(args[1]); n=num(args[2]) if len(args)>2 else '1'
        tr.write('g_el'); tr.emit('eb_erase(h, %s, %s, %s);'%(b,i,n)); return ('()',('void',))
    if name=='create_new_block':
        ty=tr.let(tr.ev(args[0])[0],('i','i32')); n=num(args[1])
        for w in('g_el','al_eb','eb_type'): tr.write(w)
        return (tr.let('eb_create(h, %s, %s)'%(ty,n),('p','eb')),('p','eb'))
    if name=='mdds_mtv_get_element_type': return ('50i32',('i','i32'))
    if name=='mdds_mtv_create_new_block':
        n=num(args[0]); 
        for w in('g_el','al_eb','eb_type'): tr.write(w)
        return (tr.let('eb_create(h, 50i32, %s)'%n,('p','eb')),('p','eb'))
    if name=='mdds_mtv_get_empty_value': tr.store(tr.lv(args[0]),tr.let('dflt_val()',('v','Val'))); return ('()',('void',))
    if name=='mdds_mtv_get_value':
        b=ptr(args[0]); i=num(args[1]); tr.store(tr.lv(args[2]),tr.let('eb_get(h, %s, %s)'%(b,i),('v','Val'))); return ('()',('void',))
    if name=='mdds_mtv_set_value':
        b=ptr(args[0]); i=num(args[1]); v=tr.ev(args[2]); tr.write('g_el'); tr.emit('eb_set(h, %s, %s, %s);'%(b,i,v[0])); return ('()',('void',))
    if name in('mdds_mtv_append_value','mdds_mtv_prepend_value'):
        b=ptr(args[0]); v=tr.ev(args[1]); tr.write('g_el'); tr.emit('eb_%s(h, %s, %s);'%(name.split('_')[2],b,v[0])); return ('()',('void',))
    return None
def libcall(tr,e,name,args,want_lv):
    if name=='lower_bound' and len(args)==3:
        a=tr.ev(args[0]); a=tr.let(a[0],a[1]); b=tr.ev(args[1]); b=tr.let(b[0],b[1]); x=tr.ev(args[2])
        return (tr.let('lower_bound_u64(%s, %s, %s)'%(a,b,x[0]),('it',('i','u64'))),('it',('i','u64')))
    return None

PRELUDE += r"""
pub open spec fn ck(c: Cell) -> i32 { match c { Cell::Empty => -1i32, Cell::Elem(k, v) => k } }
proof fn lem_ck(h: Heap, t: Ptr, i: int, o: int) requires shp(h, t), 0 <= i < nb(h, t), 0 <= o < sz(h, t)[i] ensures ck(view(h, t)[ps(h, t)[i] + o]) == kind(h, db(h, t)[i]), view(h, t).len() == cur(h, t), ps(h, t)[i] + o < cur(h, t) { lem_cell(h, t, i, o); }
#[verifier::spinoff_prover] proof fn lem_eq_step(h: Heap, t: Ptr, u: Ptr, i: int)
    requires wf(h, t), wf(h, u), view(h, t) == view(h, u), 0 <= i < nb(h, t)
    ensures i < nb(h, u), ps(h, t)[i] == ps(h, u)[i], sz(h, t)[i] == sz(h, u)[i], eqb(h, db(h, t)[i], db(h, u)[i]), i + 1 == nb(h, t) <==> i + 1 == nb(h, u)
    decreases i
{
    lem_len(h, t, nb(h, t)); lem_len(h, u, nb(h, u)); lem_tile(h, t, i);
    if i > 0 { lem_eq_step(h, t, u, i - 1); lem_tile(h, t, i - 1); lem_tile(h, u, i - 1); } else if nb(h, u) == 0 { assert(psum(sz(h, u), 0) == 0); assert(false); } else { assert(psum(sz(h, t), 0) == 0 && psum(sz(h, u), 0) == 0); lem_tile(h, u, 0); }
    lem_tile(h, u, i);
    let p = ps(h, t)[i]; let a = sz(h, t)[i]; let b = sz(h, u)[i];
    lem_ck(h, t, i, 0); lem_ck(h, u, i, 0);
    if a < b { assert(i + 1 < nb(h, t)); lem_tile(h, t, i + 1); lem_ck(h, t, i + 1, 0); lem_ck(h, u, i, a as int); assert(kind(h, db(h, t)[i]) != kind(h, db(h, t)[i + 1])) by { reveal(canx); } assert(false); }
    if b < a { assert(i + 1 < nb(h, u)); lem_tile(h, u, i + 1); lem_ck(h, u, i + 1, 0); lem_ck(h, t, i, b as int); assert(kind(h, db(h, u)[i]) != kind(h, db(h, u)[i + 1])) by { reveal(canx); } assert(false); }
    assert(blkok(h, t, i) && blkok(h, u, i));
    if i + 1 < nb(h, t) { lem_tile(h, t, i + 1); } if i + 1 < nb(h, u) { lem_tile(h, u, i + 1); }
    let x = db(h, t)[i]; let y = db(h, u)[i];
    if x != 0 {
        assert(y != 0);
        assert forall|o: int| 0 <= o < a implies h.g_el[x][o] == h.g_el[y][o] by { lem_cell(h, t, i, o); lem_cell(h, u, i, o); }
        assert(h.g_el[x] =~= h.g_el[y]);
    }
}
pub proof fn lem_view_eq(h: Heap, t: Ptr, u: Ptr) requires wf(h, t), wf(h, u)
    ensures cur(h, t) == cur(h, u) && ps(h, t) == ps(h, u) && sz(h, t) == sz(h, u) && eqbs(h, db(h, t), db(h, u)) <==> view(h, t) == view(h, u)
{
    reveal(eqbs);
    if cur(h, t) == cur(h, u) && ps(h, t) == ps(h, u) && sz(h, t) == sz(h, u) && eqbs(h, db(h, t), db(h, u)) {
        reveal(view);
        assert forall|i: int| 0 <= i < nb(h, t) implies blks(h, t)[i] == blks(h, u)[i] by { assert(eqb(h, db(h, t)[i], db(h, u)[i])); assert(blks(h, t)[i] =~= blks(h, u)[i]); }
        assert(blks(h, t) =~= blks(h, u)); assert(view(h, t) == view(h, u));
    }
    if view(h, t) == view(h, u) {
        lem_len(h, t, nb(h, t)); lem_len(h, u, nb(h, u));
        if nb(h, t) > 0 { lem_eq_step(h, t, u, nb(h, t) - 1); } else if nb(h, u) > 0 { lem_tile(h, u, 0); assert(psum(sz(h, t), 0) == 0); assert(false); }
        assert forall|i: int| #![trigger db(h, t)[i]] #![trigger db(h, u)[i]] #![trigger ps(h, t)[i]] #![trigger sz(h, t)[i]] 0 <= i < nb(h, t) implies ps(h, t)[i] == ps(h, u)[i] && sz(h, t)[i] == sz(h, u)[i] && eqb(h, db(h, t)[i], db(h, u)[i]) by { lem_eq_step(h, t, u, i); }
        assert(ps(h, t) =~= ps(h, u)); assert(sz(h, t) =~= sz(h, u)); assert(eqbs(h, db(h, t), db(h, u)));
    }
}
proof fn lem_blkall(h: Heap, t: Ptr) requires shp(h, t) ensures blkall(h, db(h, t)) { assert forall|i: int| 0 <= i < db(h, t).len() && #[trigger] db(h, t)[i] != 0 implies h.al_eb.contains(db(h, t)[i]) by { assert(blkok(h, t, i)); } }
// the whole state of a container, and the same state in another place
proof fn lem_moved(h: Heap, t: Ptr, g: Heap, u: Ptr)
    requires wf(h, t), g.al_mtv.contains(u), st(g, u) == st(h, t), cur(g, u) == cur(h, t), g.g_ev[u] == h.g_ev[t], g.al_eb == h.al_eb, g.g_el == h.g_el, g.eb_type == h.eb_type
    ensures wf(g, u), view(g, u) == view(h, t)
{
    reveal(view); reveal(canx); reveal(owned);
    assert forall|i: int| 0 <= i < nb(g, u) implies #[trigger] blkok(g, u, i) by { assert(blkok(h, t, i)); }
    assert forall|k: int| #![trigger db(g, u)[k]] 0 <= k && k + 1 < nb(g, u) implies kind(g, db(g, u)[k]) != kind(g, db(g, u)[k + 1]) by { assert(db(h, t)[k] == db(g, u)[k]); }
    assert forall|i: int| 0 <= i < nb(g, u) implies blks(g, u)[i] == blks(h, t)[i] by { assert(blks(g, u)[i] =~= blks(h, t)[i]); }
    assert(blks(g, u) =~= blks(h, t));
}
// a copy: fresh element blocks with the same content in the same places
#[verifier::spinoff_prover] proof fn lem_copied(h: Heap, t: Ptr, g: Heap, u: Ptr)
    requires wf(h, t), t != u, g.al_mtv.contains(u), ps(g, u) == ps(h, t), sz(g, u) == sz(h, t), cur(g, u) == cur(h, t), fresh_copies(h, db(h, t), g, db(g, u)), owned(g, u), st(g, t) == st(h, t), cur(g, t) == cur(h, t), g.g_ev[t] == h.g_ev[t], g.al_mtv == h.al_mtv
    ensures wf(g, u), wf(g, t), view(g, u) == view(h, t), view(g, t) == view(h, t)
{
    reveal(view); reveal(canx); reveal(fresh_copies);
    assert forall|i: int| 0 <= i < nb(g, u) implies #[trigger] blkok(g, u, i) && blkok(g, t, i) && kind(g, db(g, u)[i]) == kind(h, db(h, t)[i]) && kind(g, db(g, t)[i]) == kind(h, db(h, t)[i]) && blks(g, u)[i] == blks(h, t)[i] && blks(g, t)[i] == blks(h, t)[i] by {
        assert(blkok(h, t, i)); let a = db(g, u)[i]; let b = db(h, t)[i]; assert(db(g, t)[i] == b);
        if b != 0 { assert(g.al_eb.contains(b)); assert(eqb(g, a, b)); }
        assert(blks(g, u)[i] =~= blks(h, t)[i]); assert(blks(g, t)[i] =~= blks(h, t)[i]);
    }
    assert forall|k: int| #![trigger db(g, u)[k]] 0 <= k && k + 1 < nb(g, u) implies kind(g, db(g, u)[k]) != kind(g, db(g, u)[k + 1]) by { assert(blkok(g, u, k) && blkok(g, u, k + 1)); assert(kind(h, db(h, t)[k]) != kind(h, db(h, t)[k + 1])); }
    assert forall|k: int| #![trigger db(g, t)[k]] 0 <= k && k + 1 < nb(g, t) implies kind(g, db(g, t)[k]) != kind(g, db(g, t)[k + 1]) by { assert(blkok(g, u, k) && blkok(g, u, k + 1)); assert(kind(h, db(h, t)[k]) != kind(h, db(h, t)[k + 1])); }
    assert forall|i: int| 0 <= i < nb(g, u) implies blks(g, u)[i] == blks(h, t)[i] && blks(g, t)[i] == blks(h, t)[i] by { assert(blkok(g, u, i)); }
    assert(blks(g, u) =~= blks(h, t)); assert(blks(g, t) =~= blks(h, t));
    assert forall|i: int| 0 <= i < nb(g, t) implies #[trigger] blkok(g, t, i) by { assert(blkok(g, u, i)); }
    assert(owned(g, t)) by { reveal(owned); assert forall|b: Ptr| #[trigger] g.g_ev[t].contains(b) implies b != 0 && g.al_eb.contains(b) && exists|i: int| 0 <= i < db(g, t).len() && #[trigger] db(g, t)[i] == b by { assert(h.g_ev[t].contains(b)); let i = choose|i: int| 0 <= i < db(h, t).len() && #[trigger] db(h, t)[i] == b; assert(db(g, t)[i] == b); }
       assert forall|i: int, j: int| #![trigger db(g, t)[i], db(g, t)[j]] 0 <= i < j < db(g, t).len() && db(g, t)[i] != 0 implies db(g, t)[i] != db(g, t)[j] by { assert(db(h, t)[i] == db(g, t)[i]); assert(db(h, t)[j] == db(g, t)[j]); }
       assert forall|i: int| 0 <= i < db(g, t).len() && db(g, t)[i] != 0 implies g.g_ev[t].contains(#[trigger] db(g, t)[i]) by { assert(db(h, t)[i] == db(g, t)[i]); } }
}
// of the first n blocks the handler has been told
#[verifier::opaque] pub open spec fn told(h: Heap, t: Ptr, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n && i < db(h, t).len() && db(h, t)[i] != 0 ==> h.g_ev[t].contains(#[trigger] db(h, t)[i])
    &&& forall|b: Ptr| #[trigger] h.g_ev[t].contains(b) ==> b != 0 && h.al_eb.contains(b) && exists|i: int| 0 <= i < n && i < db(h, t).len() && #[trigger] db(h, t)[i] == b
}
proof fn lem_told(h: Heap, g: Heap, t: Ptr, n: int)
    requires told(h, t, n), 0 <= n < db(h, t).len(), g == (if db(h, t)[n] == 0 { h } else { Heap { g_ev: h.g_ev.insert(t, h.g_ev[t].insert(db(h, t)[n])), ..h } }), db(h, t)[n] != 0 ==> h.al_eb.contains(db(h, t)[n])
    ensures told(g, t, n + 1)
{ reveal(told); assert forall|b: Ptr| #[trigger] g.g_ev[t].contains(b) implies b != 0 && g.al_eb.contains(b) && exists|i: int| 0 <= i < n + 1 && i < db(g, t).len() && #[trigger] db(g, t)[i] == b by { if h.g_ev[t].contains(b) { let i = choose|i: int| 0 <= i < n && i < db(h, t).len() && #[trigger] db(h, t)[i] == b; assert(db(g, t)[i] == b); } else { assert(db(g, t)[n] == b); } }
  assert forall|i: int| 0 <= i < n + 1 && i < db(g, t).len() && db(g, t)[i] != 0 implies g.g_ev[t].contains(#[trigger] db(g, t)[i]) by { assert(db(h, t)[i] == db(g, t)[i]); } }
proof fn lem_told_not(h: Heap, h1: Heap, s: Seq<Ptr>, t: Ptr, n: int)
    requires told(h, t, n), fresh_copies(h1, s, h, db(h, t)), 0 <= n < db(h, t).len(), db(h, t)[n] != 0
    ensures !h.g_ev[t].contains(db(h, t)[n]), h.al_eb.contains(db(h, t)[n])
{ reveal(told); reveal(fresh_copies); if h.g_ev[t].contains(db(h, t)[n]) { let i = choose|i: int| 0 <= i < n && i < db(h, t).len() && #[trigger] db(h, t)[i] == db(h, t)[n]; assert(db(h, t)[i] != db(h, t)[n]); } }
proof fn lem_told_all(h: Heap, h1: Heap, s: Seq<Ptr>, t: Ptr, n: int) requires told(h, t, n), n >= db(h, t).len(), fresh_copies(h1, s, h, db(h, t)) ensures owned(h, t) { reveal(told); reveal(owned); reveal(fresh_copies); }
proof fn lem_fresh_frame(h: Heap, s: Seq<Ptr>, g: Heap, f: Heap, d: Seq<Ptr>) requires fresh_copies(h, s, g, d), f.al_eb == g.al_eb, f.g_el == g.g_el, f.eb_type == g.eb_type ensures fresh_copies(h, s, f, d) { reveal(fresh_copies); }
"""
CONTRACTS.update({
 'equal_blocks_pred':dict(requires=['H.al_eb.contains(data1) || data1 == 0','H.al_eb.contains(data2) || data2 == 0'],ensures=['r == eqb(H, data1, data2)']),
 'bst.equals':dict(requires=['blkall(H, this.element_blocks@)','blkall(H, other.element_blocks@)'],ensures=['r == (this.positions@ == other.positions@ && this.sizes@ == other.sizes@ && eqbs(H, this.element_blocks@, other.element_blocks@))'],
   at={'entry':'proof { reveal(eqbs); }'}),
 'mtv.operator==':dict(requires=['wf(H, this)','wf(H, other)'],ensures=['r == (view(H, this) == view(H, other))'],at={'entry':'proof { lem_view_eq(h@, this, other); lem_blkall(h@, this); lem_blkall(h@, other); }'}),
 'bst.swap/1':dict(requires=[],ensures=['*final(this) == *old(other)','*final(other) == *old(this)']),
 'mtv.swap/1':dict(requires=['wf(H, this)','wf(H, other)'],ensures=['wf(H, this)','wf(H, other)','view(H, this) == view(H0, other)','view(H, other) == view(H0, this)','H.g_ev[this] == H0.g_ev[other]','H.g_ev[other] == H0.g_ev[this]',
    'forall|u: Ptr| #![trigger H.mtv_m_block_store[u]] #![trigger H.g_ev[u]] #![trigger H.mtv_m_cur_size[u]] u != this && u != other ==> H.mtv_m_block_store[u] == H0.mtv_m_block_store[u] && H.g_ev[u] == H0.g_ev[u] && H.mtv_m_cur_size[u] == H0.mtv_m_cur_size[u]'],
   at={'exit':'proof { lem_moved(h0, this, h@, other); lem_moved(h0, other, h@, this); }'}),
 'bst.ctor/1':dict(where='const blocks_type|const multi_type_vector<traits>::blocks_type',requires=['blkall(H, other.element_blocks@)'],ensures=['final(this).positions@ == other.positions@','final(this).sizes@ == other.sizes@','fresh_copies(H0, other.element_blocks@, H, final(this).element_blocks@)']),
 'mtv.ctor/1':dict(where='const multi_type_vector',requires=['wf(H, other)','H.al_mtv.contains(this)','this != other','forall|b: Ptr| !H.g_ev[this].contains(b)'],ensures=['wf(H, this)','wf(H, other)','view(H, this) == view(H0, other)','view(H, other) == view(H0, other)',
    'forall|i: int| #![trigger db(H, this)[i]] 0 <= i < nb(H, this) && db(H, this)[i] != 0 ==> !H0.al_eb.contains(db(H, this)[i])'],
   at={'entry':'proof { lem_blkall(h0, other); }','exit':'proof { lem_told_all(h@, h0, db(h0, other__0), this, nb(h@, this)); lem_copied(h0, other__0, h@, this); reveal(fresh_copies); }'},
   loops=[dict(before='proof { assert(told(h@, this, 0)) by { reveal(told); } assert(fresh_copies(h0, db(h0, other__0), h@, db(h@, this)) && db(h@, this).len() == nb(h@, this)) by { reveal(fresh_copies); } }',
     inv=['range_n == nb(H, this)','0 <= range_i <= range_n','told(H, this, range_i as int)','fresh_copies(h0, db(h0, other__0), H, db(H, this))','forall|u: Ptr| #![trigger H.g_ev[u]] u != this ==> H.g_ev[u] == h0.g_ev[u]'],
     begin='let ghost hb = h@; let ghost ri = range_i as int; proof { if ri < nb(h@, this) { if db(h@, this)[ri] != 0 { lem_told_not(h@, h0, db(h0, other__0), this, ri); } } }',
     end='proof { lem_told(hb, h@, this, ri); lem_fresh_frame(h0, db(h0, other__0), hb, h@, db(h@, this)); }',dec='range_n - range_i')]),
})
CONTRACTS.update({
 'mtv.ctor/1#m':dict(bind='mtv.ctor/1',where='multi_type_vector[^,]*&&',requires=['wf(H, other)','H.al_mtv.contains(this)','this != other','forall|b: Ptr| !H.g_ev[this].contains(b)'],ensures=['wf(H, this)','wf(H, other)','view(H, this) == view(H0, other)','cur(H, other) == 0'],
   # the event handler moves along, with what it has been told
   at={'exit':'let ghost ev1 = h@.g_ev[other]; let ghost ev0 = Set::<Ptr>::empty(); gset_g_ev(h, this, Ghost(ev1)); gset_g_ev(h, other, Ghost(ev0)); proof { lem_moved(h0, other__0, h@, this); reveal(posok); reveal(owned); reveal(canx); }'}),
 'mtv.ctor/3':dict(requires=['wf(H, other)','H.al_mtv.contains(this)','this != other','forall|b: Ptr| !H.g_ev[this].contains(b)'],ensures=CONTRACTS['mtv.ctor/1']['ensures'],at=CONTRACTS['mtv.ctor/1']['at'],loops=CONTRACTS['mtv.ctor/1']['loops']),
 'mtv.dtor':dict(requires=['wf(H, this)'],ensures=['forall|b: Ptr| !H.g_ev[this].contains(b)','oth(H0, H, this)','gone(H0, H, this)','H.g_el == H0.g_el && H.eb_type == H0.eb_type'],at={'exit':'proof { reveal(owned); }'}),
})

PRELUDE += r"""
pub open spec fn disj(h: Heap, t: Ptr, u: Ptr) -> bool { t == u || forall|b: Ptr| #![trigger h.g_ev[t].contains(b)] #![trigger h.g_ev[u].contains(b)] h.g_ev[t].contains(b) ==> !h.g_ev[u].contains(b) }
proof fn lem_gone_other(h: Heap, g: Heap, t: Ptr, u: Ptr)
    requires wf(h, u), t != u, gone(h, g, t), oth(h, g, t), g.g_el == h.g_el, g.eb_type == h.eb_type, disj(h, t, u)
    ensures wf(g, u), view(g, u) == view(h, u)
{
    reveal(gone); reveal(oth); reveal(view); reveal(owned); reveal(canx);
    assert(st(g, u) == st(h, u) && cur(g, u) == cur(h, u) && g.g_ev[u] == h.g_ev[u]);
    assert forall|i: int| 0 <= i < nb(g, u) implies #[trigger] blkok(g, u, i) by { assert(blkok(h, u, i)); let b = db(h, u)[i]; if b != 0 { assert(h.g_ev[u].contains(b)); } }
    assert forall|i: int| 0 <= i < nb(g, u) implies blks(g, u)[i] == blks(h, u)[i] by { assert(blks(g, u)[i] =~= blks(h, u)[i]); }
    assert(blks(g, u) =~= blks(h, u));
    assert forall|b: Ptr| #[trigger] g.g_ev[u].contains(b) implies b != 0 && g.al_eb.contains(b) && exists|i: int| 0 <= i < db(g, u).len() && #[trigger] db(g, u)[i] == b by { assert(h.g_ev[u].contains(b)); }
    assert forall|i: int, j: int| #![trigger db(g, u)[i], db(g, u)[j]] 0 <= i < j < db(g, u).len() && db(g, u)[i] != 0 implies db(g, u)[i] != db(g, u)[j] by { assert(db(h, u)[i] == db(g, u)[i]); assert(db(h, u)[j] == db(g, u)[j]); }
    assert forall|i: int| 0 <= i < db(g, u).len() && db(g, u)[i] != 0 implies g.g_ev[u].contains(#[trigger] db(g, u)[i]) by { assert(db(h, u)[i] == db(g, u)[i]); }
}
proof fn lem_alloc(h: Heap, g: Heap, u: Ptr) requires wf(h, u), g.al_mtv.contains(u), st(g, u) == st(h, u), cur(g, u) == cur(h, u), g.g_ev[u] == h.g_ev[u], g.al_eb == h.al_eb, g.g_el == h.g_el, g.eb_type == h.eb_type ensures wf(g, u), view(g, u) == view(h, u) { lem_moved(h, u, g, u); }
// every other container survives when element blocks are only added
proof fn lem_added(h: Heap, g: Heap, u: Ptr)
    requires wf(h, u), g.al_mtv.contains(u), st(g, u) == st(h, u), cur(g, u) == cur(h, u), g.g_ev[u] == h.g_ev[u], forall|b: Ptr| #![trigger g.al_eb.contains(b)] h.al_eb.contains(b) ==> g.al_eb.contains(b) && g.g_el[b] == h.g_el[b] && g.eb_type[b] == h.eb_type[b]
    ensures wf(g, u), view(g, u) == view(h, u)
{
    reveal(view); reveal(owned); reveal(canx);
    assert forall|i: int| 0 <= i < nb(g, u) implies #[trigger] blkok(g, u, i) && kind(g, db(g, u)[i]) == kind(h, db(h, u)[i]) && blks(g, u)[i] == blks(h, u)[i] by { assert(blkok(h, u, i)); let b = db(h, u)[i]; if b != 0 { assert(g.al_eb.contains(b)); } assert(blks(g, u)[i] =~= blks(h, u)[i]); }
    assert forall|i: int| 0 <= i < nb(g, u) implies blks(g, u)[i] == blks(h, u)[i] by { assert(blkok(g, u, i)); }
    assert(blks(g, u) =~= blks(h, u));
    assert forall|k: int| #![trigger db(g, u)[k]] 0 <= k && k + 1 < nb(g, u) implies kind(g, db(g, u)[k]) != kind(g, db(g, u)[k + 1]) by { assert(blkok(g, u, k) && blkok(g, u, k + 1)); assert(db(h, u)[k] == db(g, u)[k]); }
    assert forall|b: Ptr| #[trigger] g.g_ev[u].contains(b) implies b != 0 && g.al_eb.contains(b) && exists|i: int| 0 <= i < db(g, u).len() && #[trigger] db(g, u)[i] == b by { assert(h.g_ev[u].contains(b)); assert(h.al_eb.contains(b)); }
    assert forall|i: int, j: int| #![trigger db(g, u)[i], db(g, u)[j]] 0 <= i < j < db(g, u).len() && db(g, u)[i] != 0 implies db(g, u)[i] != db(g, u)[j] by { assert(db(h, u)[i] == db(g, u)[i]); assert(db(h, u)[j] == db(g, u)[j]); }
    assert forall|i: int| 0 <= i < db(g, u).len() && db(g, u)[i] != 0 implies g.g_ev[u].contains(#[trigger] db(g, u)[i]) by { assert(db(h, u)[i] == db(g, u)[i]); }
}
"""
_c=CONTRACTS['mtv.ctor/1']['ensures']
ADDED='forall|b: Ptr| #![trigger H.al_eb.contains(b)] H0.al_eb.contains(b) ==> H.al_eb.contains(b) && H.g_el[b] == H0.g_el[b] && H.eb_type[b] == H0.eb_type[b]'
for _k in('mtv.ctor/1','mtv.ctor/3'): CONTRACTS[_k]['ensures']=_c+[ADDED,'oth(H0, H, this)','forall|b: Ptr| #![trigger H.g_ev[this].contains(b)] H.g_ev[this].contains(b) ==> !H0.al_eb.contains(b)']
for _k in('mtv.ctor/1','mtv.ctor/3'): CONTRACTS[_k]['at']=dict(CONTRACTS[_k]['at'],exit='proof { lem_told_all(h@, h0, db(h0, other__0), this, nb(h@, this)); lem_copied(h0, other__0, h@, this); reveal(fresh_copies); assert(oth(h0, h@, this)) by { reveal(oth); } assert forall|b: Ptr| #![trigger h@.g_ev[this].contains(b)] h@.g_ev[this].contains(b) implies !h0.al_eb.contains(b) by { reveal(owned); let i = choose|i: int| 0 <= i < db(h@, this).len() && #[trigger] db(h@, this)[i] == b; } }')
CONTRACTS.update({
 'mtv.operator=#c':dict(bind='mtv.operator=',where='const ',requires=['wf(H, other)','wf(H, this)','disj(H, this, other)'],ensures=['r == this','wf(H, this)','wf(H, other)','view(H, this) == view(H0, other)','view(H, other) == view(H0, other)'],
   at={'entry':'let ghost mut hs = h@; let ghost mut hc = h@;',
       'before_call:mtv.ctor/1':'proof { lem_alloc(h0, h@, this); lem_alloc(h0, h@, other); hs = h@; }',
       'after_call:mtv.ctor/1':'proof { assert(h@.g_ev[other] == hs.g_ev[other]) by { reveal(oth); } assert(st(h@, this) == st(hs, this) && cur(h@, this) == cur(hs, this) && h@.g_ev[this] == hs.g_ev[this]) by { reveal(oth); } lem_added(hs, h@, this); hc = h@; }',
       'after_call:mtv.swap/1':'proof { assert(hc.g_ev[this] == h0.g_ev[this] && h@.g_ev[ARG1] == h0.g_ev[this] && h@.g_ev[this] == hc.g_ev[ARG1]); assert forall|b: Ptr| #![trigger h0.g_ev[this].contains(b)] h0.g_ev[this].contains(b) implies h0.al_eb.contains(b) by { reveal(owned); } assert(disj(h@, ARG1, this)); if this != other { assert(h@.g_ev[other] == h0.g_ev[other]); assert(disj(h@, ARG1, other)); } if this != other { lem_alloc(hc, h@, other); } hs = h@; }',
       'after_call:mtv.dtor':'proof { lem_gone_other(hs, h@, ARG0, this); if this != other { lem_gone_other(hs, h@, ARG0, other); } }'}),
})
