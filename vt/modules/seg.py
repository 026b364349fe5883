from base import *
import re
NAME='seg'
DRIVER='''
#include <cstddef>
#include <compare>
#include <ostream>
namespace mdds_drv { struct Val { unsigned long id; }; std::strong_ordering operator<=>(const Val&, const Val&); bool operator==(const Val&, const Val&); std::ostream& operator<<(std::ostream&, const Val&); }
#include <mdds/segment_tree.hpp>
template class mdds::segment_tree<long, mdds_drv::Val>;
using seg = mdds::segment_tree<long, mdds_drv::Val>;
unsigned long use(seg& t) { auto r = t.search(3); return r.size(); }
'''
HEAP={'node':r'^mdds::st::detail::node<','nl':r'^mdds::st::detail::nonleaf_node<','seg':r'segment_tree<long,mdds_drv::Val>$'}
ABSTRACT={'nbase':r'node_base<>$'}
RECORDS={'leafval':r'segment_tree::leaf_value_type<','nlval':r'segment_tree::nonleaf_value_type<','sgt':r'segment_tree::segment_type<','srb':r'segment_tree::search_results_base<','ins':r'segment_tree::search_result_inserter<','tb':r'^mdds::st::detail::tree_builder<'}
TRUTH={'Chain':'ch_some(%s)','Res':'res_some(%s)'}
OPAQUE=['Val','Chain','NodeV','StoreP','Res']
PAIRS=[(('i','u64'),('v','NodeV')),(('i','u64'),('b',))]
TAGS=('vec',('r','Pair_u64_NodeV')); EMP=('r','Pair_u64_bool')
CH=('v','Chain'); U=('i','u64')
TYPES_RAW=[(r'^nonleaf_node_pool_type( &)?$',('vec',('p','nl'))),(r'^(const )?std::vector<mdds::st::detail::nonleaf_node<[^*]*>>( \*)?$',('vec',('p','nl')))]
NS=r'^(const )?(typename )?(mdds::)?(segment_tree<long, mdds_drv::Val>::|segment_tree<KeyT, ValueT>::|search_results_base::|search_results::|st::detail::)*'
TYPES=[(NS+r'value_chain_type$|^(const )?(std::)?vector<unsigned long>$',('vec',U)),(NS+r'value_chain_type \*( ?const)?$|^(const )?(std::)?unique_ptr<.*>$|^(const )?(std::)?vector<unsigned long> \*$',CH),
 (NS+r'node_chain_type$|^(std::)?vector<(mdds::)?(st::detail::)?node_base(<>)? \*>$',('v','NodeV')),
 (NS+r'segment_store_type$|^(const )?std::deque<.*>$',('vec',('r','sgt'))),(NS+r'segment_store_type \*$|^(const )?std::deque<.*> \*$',('v','StoreP')),(NS+r'res_chains_ptr$|^(const )?(std::)?shared_ptr<.*>$',('v','Res')),
 (NS+r'value_to_nodes_type$|^(std::)?map<.*$',TAGS),(r'^(std::)?pair<(std::)?_Rb_tree_iterator<.*>, bool>$',EMP),(r'^(std::)?_Rb_tree_iterator<.*>$',U),
 (r'^(mdds::st::detail::|st::detail::)?node<.*>$',('p','node',1)),(r'^(mdds::st::detail::|st::detail::)?nonleaf_node<.*>$',('p','nl',1)),
 (r'^(mdds::)?(st::detail::)?tree_builder(<.*>)?$',('r','tb')),(r'^(boost::)?intrusive_ptr<.*>$',('p','node')),(r'^(const )?(leaf_)?node_ptr$',('p','node')),
 (r'^(.*::)?(leaf_node|node)$',('p','node',1)),(r'^(.*::)?nonleaf_node$',('p','nl',1)),(r'^node_base$|^mdds::st::detail::node_base$|^st::detail::node_base$',('p','nbase',1)),
 (r'^(mdds::)?segment_tree<long, mdds_drv::Val>$|^segment_tree$',('p','seg',1)),
 (NS+r'leaf_value_type$',('r','leafval')),(NS+r'nonleaf_value_type$',('r','nlval')),(NS+r'segment_type$',('r','sgt')),
 (NS+r'search_results(_base)?$',('r','srb')),(NS+r'search_result_inserter$',('r','ins')),
 (r'^(mdds_drv::)?Val$',('v','Val')),(NS+r'value_pos_type$',U),
 (r'^(.*::)?key_type$|^long$',('i','i64')),(NS+r'value_type$',('v','Val')),(NS+r'size_type$',U)]
SKIP_FIELDS={'refcount','srb.m_segment_store','tb.m_pool'}
FIELD_OWNER={('node','is_leaf'):'nbase',('nl','is_leaf'):'nbase',('node','parent'):'nbase',('nl','parent'):'nbase'}
OWNER_ALLOC={'nbase':['node','nl']}
GHOST=[('g_seq','Seq<Ptr>'),('g_k','Seq<int>'),('g_ks','Seq<i64>'),('g_d','nat')]
PRELUDE=r"""
// ---- value chains: vectors of segment positions held by the tree nodes
pub uninterp spec fn cv(c: Chain) -> Option<Seq<u64>>;
pub open spec fn cseq(c: Chain) -> Seq<u64> { match cv(c) { Some(s) => s, None => Seq::empty() } }
pub open spec fn cnt(s: Seq<u64>, w: u64) -> int decreases s.len() { if s.len() == 0 { 0 } else { cnt(s.drop_last(), w) + if s.last() == w { 1int } else { 0 } } }
pub proof fn lem_push(s: Seq<u64>, v: u64, w: u64) ensures cnt(s.push(v), w) == cnt(s, w) + if v == w { 1int } else { 0 } { assert(s.push(v).drop_last() =~= s); }
#[verifier::external_body] pub fn ch_some(c: Chain) -> (r: bool) ensures r == cv(c).is_some() { unimplemented!() }
#[verifier::external_body] pub fn ch_new() -> (r: Chain) ensures cv(r) == Some(Seq::<u64>::empty()) { unimplemented!() }
#[verifier::external_body] pub fn ch_push(c: Chain, v: u64) -> (r: Chain) requires cv(c).is_some() ensures cv(r) == Some(cseq(c).push(v)) { unimplemented!() }
#[verifier::external_body] pub fn ch_empty(c: Chain) -> (r: bool) requires cv(c).is_some() ensures r == (cseq(c).len() == 0) { unimplemented!() }
#[verifier::external_body] pub fn ch_size(c: Chain) -> (r: u64) requires cv(c).is_some() ensures r == cseq(c).len() { unimplemented!() }
pub proof fn lem_upd(s: Seq<u64>, i: int, v: u64, w: u64) requires 0 <= i < s.len() ensures cnt(s.update(i, v), w) == cnt(s, w) - (if s[i] == w { 1int } else { 0 }) + if v == w { 1int } else { 0 } decreases s.len()
{ let u = s.update(i, v); if i == s.len() - 1 { assert(u.drop_last() =~= s.drop_last()); } else { assert(u.drop_last() =~= s.drop_last().update(i, v)); lem_upd(s.drop_last(), i, v, w); } }
pub proof fn lem_nin(s: Seq<u64>, w: u64) requires forall|i: int| 0 <= i < s.len() ==> s[i] != w ensures cnt(s, w) == 0 decreases s.len() { if s.len() > 0 { lem_nin(s.drop_last(), w); } }
pub proof fn lem_pos(s: Seq<u64>, i: int) requires 0 <= i < s.len() ensures cnt(s, s[i]) > 0 decreases s.len() { if i < s.len() - 1 { lem_pos(s.drop_last(), i); } else { lem_nneg(s.drop_last(), s[i]); } }
pub proof fn lem_nneg(s: Seq<u64>, w: u64) ensures cnt(s, w) >= 0 decreases s.len() { if s.len() > 0 { lem_nneg(s.drop_last(), w); } }
pub open spec fn b2(b: bool) -> int { if b { 1 } else { 0 } }
// ---- std::sort, std::unique + erase on the boundary keys (library models)
pub open spec fn asc(s: Seq<i64>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> #[trigger] s[i] <= #[trigger] s[j] }
pub open spec fn sasc(s: Seq<i64>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
#[verifier::external_body] pub fn ks_sort(v: CVec<i64>) -> (r: CVec<i64>) ensures asc(r@), r@.len() == v@.len(), forall|x: i64| r@.contains(x) == v@.contains(x) { unimplemented!() }
#[verifier::external_body] pub fn ks_uniq(v: CVec<i64>) -> (r: CVec<i64>) requires asc(v@) ensures sasc(r@), r@.len() <= v@.len(), v@.len() > 0 ==> r@.len() > 0, forall|x: i64| r@.contains(x) == v@.contains(x) { unimplemented!() }
pub uninterp spec fn nv(n: NodeV) -> Seq<Ptr>;
#[verifier::external_body] pub fn nodev_push(n: NodeV, p: Ptr) -> (r: NodeV) ensures nv(r) == nv(n).push(p) { unimplemented!() }
pub axiom fn nodev_default() ensures nv(spec_default_NodeV()) == Seq::<Ptr>::empty();
// m new, empty non-leaf nodes at addresses not in use
#[verifier::external_body] pub fn pool_new(h: &mut Ghost<Heap>, m: u64) -> (r: CVec<Ptr>)
    ensures r@.len() == m, r@.no_duplicates(), forall|j: int| 0 <= j < m ==> (#[trigger] r@[j]) != 0 && final(h)@.al_nl.contains(r@[j]) && !old(h)@.al_nl.contains(r@[j]) && !old(h)@.al_node.contains(r@[j]) && !old(h)@.al_seg.contains(r@[j]) && !final(h)@.nbase_is_leaf[r@[j]] && cv(final(h)@.nl_value_nonleaf[r@[j]].data_chain) is None && final(h)@.nl_left[r@[j]] == 0 && final(h)@.nl_right[r@[j]] == 0 && final(h)@.nbase_parent[r@[j]] == 0,
        forall|x: Ptr| #[trigger] final(h)@.al_nl.contains(x) == (old(h)@.al_nl.contains(x) || r@.contains(x)),
        final(h)@ == (Heap { al_nl: final(h)@.al_nl, nbase_parent: final(h)@.nbase_parent, nbase_is_leaf: final(h)@.nbase_is_leaf, nl_value_nonleaf: final(h)@.nl_value_nonleaf, nl_low: final(h)@.nl_low, nl_high: final(h)@.nl_high, nl_left: final(h)@.nl_left, nl_right: final(h)@.nl_right, ..old(h)@ }),
        forall|x: Ptr| #![trigger final(h)@.nbase_parent[x]] #![trigger final(h)@.nbase_is_leaf[x]] #![trigger final(h)@.nl_value_nonleaf[x]] #![trigger final(h)@.nl_low[x]] #![trigger final(h)@.nl_high[x]] #![trigger final(h)@.nl_left[x]] #![trigger final(h)@.nl_right[x]] !r@.contains(x) ==> final(h)@.nbase_parent[x] == old(h)@.nbase_parent[x] && final(h)@.nbase_is_leaf[x] == old(h)@.nbase_is_leaf[x] && final(h)@.nl_value_nonleaf[x] == old(h)@.nl_value_nonleaf[x] && final(h)@.nl_low[x] == old(h)@.nl_low[x] && final(h)@.nl_high[x] == old(h)@.nl_high[x] && final(h)@.nl_left[x] == old(h)@.nl_left[x] && final(h)@.nl_right[x] == old(h)@.nl_right[x],
{ unimplemented!() }
// ---- search results: a list of chains
pub uninterp spec fn rv(r: Res) -> Option<Seq<Chain>>;
pub axiom fn ch_default() ensures cv(spec_default_Chain()) is None;
pub axiom fn res_default() ensures rv(spec_default_Res()) is None;
pub open spec fn rseq(r: Res) -> Seq<Chain> { match rv(r) { Some(s) => s, None => Seq::empty() } }
pub open spec fn sumc(s: Seq<Chain>, w: u64) -> int decreases s.len() { if s.len() == 0 { 0 } else { sumc(s.drop_last(), w) + cnt(cseq(s.last()), w) } }
#[verifier::opaque] pub open spec fn rhits(r: Res, w: u64) -> int { sumc(rseq(r), w) }
pub open spec fn totc(s: Seq<Chain>) -> int decreases s.len() { if s.len() == 0 { 0 } else { totc(s.drop_last()) + cseq(s.last()).len() } }
// every chain in the list is there and not empty
pub open spec fn rok(r: Res) -> bool { (rv(r).is_some() ==> rseq(r).len() > 0) && forall|i: int| 0 <= i < rseq(r).len() ==> cv(#[trigger] rseq(r)[i]).is_some() && cseq(rseq(r)[i]).len() > 0 }
#[verifier::external_body] pub fn res_some(r: Res) -> (b: bool) ensures b == rv(r).is_some() { unimplemented!() }
#[verifier::external_body] pub fn res_new() -> (r: Res) ensures rv(r) == Some(Seq::<Chain>::empty()) { unimplemented!() }
#[verifier::external_body] pub fn res_empty(r: Res) -> (b: bool) requires rv(r).is_some() ensures b == (rseq(r).len() == 0) { unimplemented!() }
#[verifier::external_body] pub fn res_push(r: Res, c: Chain) -> (q: Res) requires rv(r).is_some() ensures rv(q) == Some(rseq(r).push(c)) { unimplemented!() }
pub proof fn lem_rpush(r: Res, q: Res, c: Chain, w: u64) requires rseq(q) == rseq(r).push(c) ensures rhits(q, w) == rhits(r, w) + cnt(cseq(c), w) { reveal(rhits); assert(rseq(r).push(c).drop_last() =~= rseq(r)); }
pub proof fn lem_r0(r: Res, w: u64) requires rseq(r).len() == 0 ensures rhits(r, w) == 0 { reveal(rhits); }
// ---- the tree: n at height d covers the keys [lk, hk); a and b are not inside an elementary interval
pub open spec fn chs(h: Heap, n: Ptr) -> Seq<u64> { if h.nbase_is_leaf[n] { cseq(h.node_value_leaf[n].data_chain) } else { cseq(h.nl_value_nonleaf[n].data_chain) } }
pub open spec fn keyof(h: Heap, n: Ptr) -> i64 { if h.nbase_is_leaf[n] { h.node_key[n] } else { h.nl_low[n] } }
pub open spec fn trig(m: int) -> bool { true }
pub open spec fn tree(h: Heap, n: Ptr, d: nat, lk: int, hk: int, st: bool, a: int, b: int) -> bool decreases d {
    &&& n != 0 && keyof(h, n) == lk && lk <= hk
    &&& if d == 0 { h.al_node.contains(n) && h.nbase_is_leaf[n] && (st ==> lk < hk) && !(lk < a < hk) && !(lk < b < hk) }
        else { &&& h.al_nl.contains(n) && !h.nbase_is_leaf[n] && h.nl_high[n] == hk
               &&& exists|mk: int| #[trigger] trig(mk) && tree(h, h.nl_left[n], (d - 1) as nat, lk, mk, st || h.nl_right[n] != 0, a, b) && (if h.nl_right[n] == 0 { mk == hk } else { tree(h, h.nl_right[n], (d - 1) as nat, mk, hk, st, a, b) }) }
}
pub open spec fn midk(h: Heap, n: Ptr, d: nat, lk: int, hk: int, st: bool, a: int, b: int) -> int { choose|mk: int| #[trigger] trig(mk) && tree(h, h.nl_left[n], (d - 1) as nat, lk, mk, st || h.nl_right[n] != 0, a, b) && (if h.nl_right[n] == 0 { mk == hk } else { tree(h, h.nl_right[n], (d - 1) as nat, mk, hk, st, a, b) }) }
pub open spec fn isht(h: Heap, n: Ptr, d: nat) -> bool decreases d { if d == 0 { h.nbase_is_leaf[n] } else { !h.nbase_is_leaf[n] && isht(h, h.nl_left[n], (d - 1) as nat) } }
pub proof fn lem_ht(h: Heap, n: Ptr, d: nat, lk: int, hk: int, st: bool, a: int, b: int) requires tree(h, n, d, lk, hk, st, a, b) ensures isht(h, n, d) decreases d
{ if d > 0 { let mk = midk(h, n, d, lk, hk, st, a, b); lem_ht(h, h.nl_left[n], (d - 1) as nat, lk, mk, st || h.nl_right[n] != 0, a, b); } }
pub proof fn lem_ht1(h: Heap, n: Ptr, d: nat, e: nat) requires isht(h, n, d), isht(h, n, e) ensures d == e decreases d
{ if d > 0 && e > 0 { lem_ht1(h, h.nl_left[n], (d - 1) as nat, (e - 1) as nat); } }
pub open spec fn ht(h: Heap, n: Ptr) -> nat { choose|d: nat| isht(h, n, d) }
pub proof fn lem_htv(h: Heap, n: Ptr, d: nat) requires isht(h, n, d) ensures ht(h, n) == d { lem_ht1(h, n, d, ht(h, n)); }
// the nodes a point passes through
pub open spec fn pick(h: Heap, n: Ptr, pt: int) -> Ptr { let (l, r) = (h.nl_left[n], h.nl_right[n]); if r != 0 && (if h.nbase_is_leaf[l] { h.node_key[r] <= pt } else { h.nl_high[l] <= pt }) { r } else { l } }
pub open spec fn hits(h: Heap, n: Ptr, d: nat, pt: int, w: u64) -> int decreases d { cnt(chs(h, n), w) + if d == 0 { 0 } else { hits(h, pick(h, n, pt), (d - 1) as nat, pt, w) } }
pub proof fn lem_mid(h: Heap, n: Ptr, d: nat, lk: int, hk: int, st: bool, a: int, b: int) -> (mk: int)
    requires tree(h, n, d, lk, hk, st, a, b), d > 0
    ensures tree(h, h.nl_left[n], (d - 1) as nat, lk, mk, st || h.nl_right[n] != 0, a, b), if h.nl_right[n] == 0 { mk == hk } else { tree(h, h.nl_right[n], (d - 1) as nat, mk, hk, st, a, b) }, lk <= mk <= hk,
        forall|pt: int| lk <= pt < hk ==> (#[trigger] pick(h, n, pt)) == if h.nl_right[n] != 0 && mk <= pt { h.nl_right[n] } else { h.nl_left[n] }
{
    let mk = midk(h, n, d, lk, hk, st, a, b); let l = h.nl_left[n];
    assert(tree(h, l, (d - 1) as nat, lk, mk, st || h.nl_right[n] != 0, a, b));
    if d > 1 { assert(h.nl_high[l] == mk); }
    mk
}
// same shape, values aside
pub open spec fn same_shape(h: Heap, g: Heap) -> bool { g.al_node == h.al_node && g.al_nl == h.al_nl && g.nbase_is_leaf == h.nbase_is_leaf && g.node_key == h.node_key && g.nl_low == h.nl_low && g.nl_high == h.nl_high && g.nl_left == h.nl_left && g.nl_right == h.nl_right }
pub proof fn lem_tree_frame(h: Heap, g: Heap, n: Ptr, d: nat, lk: int, hk: int, st: bool, a: int, b: int) requires tree(h, n, d, lk, hk, st, a, b), same_shape(h, g) ensures tree(g, n, d, lk, hk, st, a, b) decreases d
{ if d > 0 { let mk = lem_mid(h, n, d, lk, hk, st, a, b); lem_tree_frame(h, g, h.nl_left[n], (d - 1) as nat, lk, mk, st || h.nl_right[n] != 0, a, b); if h.nl_right[n] != 0 { lem_tree_frame(h, g, h.nl_right[n], (d - 1) as nat, mk, hk, st, a, b); } assert(trig(mk)); } }
pub proof fn lem_ht_frame(h: Heap, g: Heap, n: Ptr, d: nat) requires isht(h, n, d), same_shape(h, g) ensures isht(g, n, d) decreases d { if d > 0 { lem_ht_frame(h, g, h.nl_left[n], (d - 1) as nat); } }
// q may lie in a subtree of height d over [lk, hk)
pub open spec fn inside(h: Heap, q: Ptr, d: nat, lk: int, hk: int, st: bool) -> bool { lk <= keyof(h, q) <= hk && (st ==> keyof(h, q) < hk) && exists|e: nat| e <= d && #[trigger] isht(h, q, e) }
pub open spec fn touched(h: Heap, g: Heap, d: nat, lk: int, hk: int, st: bool) -> bool { forall|q: Ptr| (#[trigger] chs(g, q)) == chs(h, q) || inside(h, q, d, lk, hk, st) }
// changes outside a subtree leave the chains on its paths alone
pub proof fn lem_hits_frame(h: Heap, g: Heap, n: Ptr, d: nat, lk: int, hk: int, st: bool, a: int, b: int, pt: int, w: u64)
    requires tree(h, n, d, lk, hk, st, a, b), same_shape(h, g), lk <= pt < hk, forall|q: Ptr| inside(h, q, d, lk, hk, st) ==> (#[trigger] chs(g, q)) == chs(h, q)
    ensures hits(g, n, d, pt, w) == hits(h, n, d, pt, w)
    decreases d
{
    lem_ht(h, n, d, lk, hk, st, a, b); lem_key(h, n, d, lk, hk, st, a, b); assert(inside(h, n, d, lk, hk, st));
    if d > 0 {
        let mk = lem_mid(h, n, d, lk, hk, st, a, b); let c = pick(h, n, pt); assert(pick(g, n, pt) == c);
        let (cl, ch, cs) = if c == h.nl_right[n] && h.nl_right[n] != 0 && mk <= pt { (mk, hk, st) } else { (lk, mk, st || h.nl_right[n] != 0) };
        assert forall|q: Ptr| inside(h, q, (d - 1) as nat, cl, ch, cs) implies (#[trigger] chs(g, q)) == chs(h, q) by { let e = choose|e: nat| e <= d - 1 && #[trigger] isht(h, q, e); assert(inside(h, q, d, lk, hk, st)); }
        lem_hits_frame(h, g, c, (d - 1) as nat, cl, ch, cs, a, b, pt, w);
    }
}
pub proof fn lem_key(h: Heap, n: Ptr, d: nat, lk: int, hk: int, st: bool, a: int, b: int) requires tree(h, n, d, lk, hk, st, a, b) ensures st ==> lk < hk decreases d
{ if d > 0 { let mk = lem_mid(h, n, d, lk, hk, st, a, b); lem_key(h, h.nl_left[n], (d - 1) as nat, lk, mk, st || h.nl_right[n] != 0, a, b); } }
// the effect of marking one subtree with v for [a, b)
pub open spec fn marked(h: Heap, g: Heap, n: Ptr, d: nat, lk: int, hk: int, a: int, b: int, v: u64) -> bool { forall|pt: int, w: u64| lk <= pt < hk ==> (#[trigger] hits(g, n, d, pt, w)) == hits(h, n, d, pt, w) + if w == v && a <= pt < b { 1int } else { 0 } }
pub proof fn lem_inside_frame(h: Heap, k: Heap, q: Ptr, d: nat, lk: int, hk: int, st: bool) requires inside(h, q, d, lk, hk, st), same_shape(h, k) ensures inside(k, q, d, lk, hk, st)
{ let e = choose|e: nat| e <= d && #[trigger] isht(h, q, e); lem_ht_frame(h, k, q, e); }
#[verifier::opaque] pub open spec fn mark(h: Heap, g: Heap, n: Ptr, a: int, b: int, v: u64) -> bool { forall|d: nat, lk: int, hk: int, st: bool| #[trigger] tree(h, n, d, lk, hk, st, a, b) ==> marked(h, g, n, d, lk, hk, a, b, v) && touched(h, g, d, lk, hk, st) }
pub proof fn lem_m_one(h: Heap, g: Heap, n: Ptr, a: int, b: int, v: u64)
    requires same_shape(h, g), chs(g, n) == chs(h, n).push(v), forall|q: Ptr| q != n ==> (#[trigger] chs(g, q)) == chs(h, q), if h.nbase_is_leaf[n] { a <= h.node_key[n] < b } else { a <= h.nl_low[n] && h.nl_high[n] <= b }
    ensures mark(h, g, n, a, b, v)
{
    reveal(mark);
    assert forall|d: nat, lk: int, hk: int, st: bool| #[trigger] tree(h, n, d, lk, hk, st, a, b) implies marked(h, g, n, d, lk, hk, a, b, v) && touched(h, g, d, lk, hk, st) by {
        lem_ht(h, n, d, lk, hk, st, a, b); lem_key(h, n, d, lk, hk, st, a, b); assert(inside(h, n, d, lk, hk, st));
        assert(touched(h, g, d, lk, hk, st));
        assert forall|pt: int, w: u64| lk <= pt < hk implies (#[trigger] hits(g, n, d, pt, w)) == hits(h, n, d, pt, w) + if w == v && a <= pt < b { 1int } else { 0 } by {
            lem_push(chs(h, n), v, w);
            if d > 0 { lem_sub(h, g, n, d, lk, hk, st, a, b, pt, w); }
        }
    }
}
// nothing strictly below n changed
pub proof fn lem_sub(h: Heap, g: Heap, n: Ptr, d: nat, lk: int, hk: int, st: bool, a: int, b: int, pt: int, w: u64)
    requires tree(h, n, d, lk, hk, st, a, b), d > 0, same_shape(h, g), lk <= pt < hk, forall|q: Ptr| q != n ==> (#[trigger] chs(g, q)) == chs(h, q)
    ensures hits(g, pick(g, n, pt), (d - 1) as nat, pt, w) == hits(h, pick(h, n, pt), (d - 1) as nat, pt, w)
{
    let mk = lem_mid(h, n, d, lk, hk, st, a, b); let c = pick(h, n, pt); assert(pick(g, n, pt) == c);
    let (cl, ch, cs) = if h.nl_right[n] != 0 && mk <= pt { (mk, hk, st) } else { (lk, mk, st || h.nl_right[n] != 0) };
    lem_ht(h, n, d, lk, hk, st, a, b);
    assert forall|q: Ptr| inside(h, q, (d - 1) as nat, cl, ch, cs) implies (#[trigger] chs(g, q)) == chs(h, q) by { let e = choose|e: nat| e <= d - 1 && #[trigger] isht(h, q, e); if q == n { lem_ht1(h, n, d, e); } }
    lem_hits_frame(h, g, c, (d - 1) as nat, cl, ch, cs, a, b, pt, w);
}
pub proof fn lem_m_none(h: Heap, n: Ptr, a: int, b: int, v: u64)
    requires n == 0 || if h.nbase_is_leaf[n] { !(a <= h.node_key[n] < b) } else { b < h.nl_low[n] || h.nl_high[n] <= a }
    ensures mark(h, h, n, a, b, v)
{
    reveal(mark);
    assert forall|d: nat, lk: int, hk: int, st: bool| #[trigger] tree(h, n, d, lk, hk, st, a, b) implies marked(h, h, n, d, lk, hk, a, b, v) && touched(h, h, d, lk, hk, st) by { lem_ht(h, n, d, lk, hk, st, a, b); }
}
pub proof fn lem_m_both(h: Heap, k: Heap, g: Heap, n: Ptr, a: int, b: int, v: u64)
    requires same_shape(h, k), same_shape(k, g), !h.nbase_is_leaf[n], mark(h, k, h.nl_left[n], a, b, v), mark(k, g, h.nl_right[n], a, b, v), h.nl_right[n] == 0 ==> forall|q: Ptr| (#[trigger] chs(g, q)) == chs(k, q)
    ensures mark(h, g, n, a, b, v)
{
    reveal(mark);
    assert forall|d: nat, lk: int, hk: int, st: bool| #[trigger] tree(h, n, d, lk, hk, st, a, b) implies marked(h, g, n, d, lk, hk, a, b, v) && touched(h, g, d, lk, hk, st) by { lem_m_both1(h, k, g, n, a, b, v, d, lk, hk, st); }
}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lem_m_both1(h: Heap, k: Heap, g: Heap, n: Ptr, a: int, b: int, v: u64, d: nat, lk: int, hk: int, st: bool)
    requires same_shape(h, k), same_shape(k, g), !h.nbase_is_leaf[n], mark(h, k, h.nl_left[n], a, b, v), mark(k, g, h.nl_right[n], a, b, v), h.nl_right[n] == 0 ==> (forall|q: Ptr| (#[trigger] chs(g, q)) == chs(k, q)), tree(h, n, d, lk, hk, st, a, b)
    ensures marked(h, g, n, d, lk, hk, a, b, v), touched(h, g, d, lk, hk, st)
{
    reveal(mark); lem_ht(h, n, d, lk, hk, st, a, b); assert(d > 0);
    let mk = lem_mid(h, n, d, lk, hk, st, a, b); let e = (d - 1) as nat; let (l, r) = (h.nl_left[n], h.nl_right[n]); let ls = st || r != 0;
    assert(tree(h, l, e, lk, mk, ls, a, b)); assert(marked(h, k, l, e, lk, mk, a, b, v) && touched(h, k, e, lk, mk, ls));
    lem_tree_frame(h, k, l, e, lk, mk, ls, a, b);
    if r != 0 { lem_tree_frame(h, k, r, e, mk, hk, st, a, b); assert(marked(k, g, r, e, mk, hk, a, b, v) && touched(k, g, e, mk, hk, st)); }
    // who may have changed
    assert forall|q: Ptr| (#[trigger] chs(g, q)) == chs(h, q) || (inside(h, q, e, lk, hk, st) && q != n) by {
        if chs(k, q) != chs(h, q) { assert(inside(h, q, e, lk, mk, ls)); let x = choose|x: nat| x <= e && #[trigger] isht(h, q, x); if q == n { lem_ht1(h, n, d, x); } assert(inside(h, q, e, lk, hk, st)) by { lem_key2(h, n, d, lk, hk, st, a, b, mk); } }
        if chs(g, q) != chs(k, q) { assert(inside(k, q, e, mk, hk, st)); lem_inside_frame(k, h, q, e, mk, hk, st); let x = choose|x: nat| x <= e && #[trigger] isht(h, q, x); if q == n { lem_ht1(h, n, d, x); } }
    }
    assert(touched(h, g, d, lk, hk, st)) by { assert forall|q: Ptr| (#[trigger] chs(g, q)) == chs(h, q) || inside(h, q, d, lk, hk, st) by { if chs(g, q) != chs(h, q) { let x = choose|x: nat| x <= e && #[trigger] isht(h, q, x); assert(x <= d); } } }
    assert(chs(g, n) == chs(h, n));
    assert forall|pt: int, w: u64| lk <= pt < hk implies (#[trigger] hits(g, n, d, pt, w)) == hits(h, n, d, pt, w) + if w == v && a <= pt < b { 1int } else { 0 } by {
        let c = pick(h, n, pt); assert(pick(g, n, pt) == c);
        if r != 0 && mk <= pt {
            assert forall|q: Ptr| inside(h, q, e, mk, hk, st) implies (#[trigger] chs(k, q)) == chs(h, q) by { }
            lem_hits_frame(h, k, r, e, mk, hk, st, a, b, pt, w);
            assert(hits(g, r, e, pt, w) == hits(k, r, e, pt, w) + if w == v && a <= pt < b { 1int } else { 0 });
        } else {
            assert forall|q: Ptr| inside(k, q, e, lk, mk, ls) implies (#[trigger] chs(g, q)) == chs(k, q) by { }
            lem_hits_frame(k, g, l, e, lk, mk, ls, a, b, pt, w);
            assert(hits(k, l, e, pt, w) == hits(h, l, e, pt, w) + if w == v && a <= pt < b { 1int } else { 0 });
        }
    }
}
pub proof fn lem_key2(h: Heap, n: Ptr, d: nat, lk: int, hk: int, st: bool, a: int, b: int, mk: int) requires d > 0, h.nl_right[n] != 0 ==> tree(h, h.nl_right[n], (d - 1) as nat, mk, hk, st, a, b), h.nl_right[n] == 0 ==> mk == hk ensures mk <= hk { }
// the leaves of a tree, left to right (a tree with leaves has at least two)
#[verifier::opaque] pub open spec fn leafs(h: Heap, t: Ptr) -> bool { let s = h.g_seq[t]; if h.seg_m_left_leaf[t] == 0 || h.seg_m_right_leaf[t] == 0 { true } else { s.len() >= 2 && s.no_duplicates() && s[0] == h.seg_m_left_leaf[t] && s.last() == h.seg_m_right_leaf[t] && (forall|j: int| 0 <= j < s.len() ==> h.al_node.contains(#[trigger] s[j]) && s[j] != 0) && (forall|j: int| 0 <= j < s.len() - 1 ==> h.node_next[#[trigger] s[j]] == s[j + 1]) } }
#[verifier::opaque] pub open spec fn lch(h: Heap, s: Seq<Ptr>, i: int) -> bool { s.no_duplicates() && (forall|j: int| 0 <= j < s.len() ==> h.al_node.contains(#[trigger] s[j]) && s[j] != 0) && (forall|j: int| i <= j < s.len() - 1 ==> h.node_next[#[trigger] s[j]] == s[j + 1]) }
pub proof fn lem_l0(h: Heap, g: Heap, t: Ptr) requires leafs(h, t), h.seg_m_left_leaf[t] != 0, h.seg_m_right_leaf[t] != 0, g.al_node == h.al_node, g.node_next == h.node_next ensures lch(g, h.g_seq[t], 0), h.g_seq[t].len() >= 2, h.g_seq[t][0] == h.seg_m_left_leaf[t], h.g_seq[t].last() == h.seg_m_right_leaf[t] { reveal(lch); reveal(leafs); }
pub proof fn lem_lget(h: Heap, s: Seq<Ptr>, i: int) requires lch(h, s, 0) || lch(h, s, i), 0 <= i < s.len() ensures h.al_node.contains(s[i]), s[i] != 0, s.contains(s[i]), i < s.len() - 1 ==> h.node_next[s[i]] == s[i + 1] && s[i] != s.last(), i < s.len() - 1 ==> s[i + 1] != 0 { reveal(lch); }
pub proof fn lem_lstep(h: Heap, g: Heap, s: Seq<Ptr>, i: int) requires lch(h, s, i), 0 <= i < s.len(), g.al_node == h.al_node, forall|x: Ptr| x != s[i] ==> (#[trigger] g.node_next[x]) == h.node_next[x] ensures lch(g, s, i + 1) { reveal(lch); }
pub open spec fn apart(h: Heap, t: Ptr, r: Ptr) -> bool { h.seg_m_left_leaf[t] == 0 || h.seg_m_left_leaf[r] == 0 || forall|j: int| 0 <= j < h.g_seq[r].len() ==> !h.g_seq[t].contains(#[trigger] h.g_seq[r][j]) }
// deleted entries are replaced by default-constructed ones
pub open spec fn dsg() -> sgt { sgt { start: 0, end: 0, value: spec_default_Val() } }
pub open spec fn live(s: Seq<sgt>) -> Seq<sgt> decreases s.len() { if s.len() == 0 { Seq::empty() } else if s.last() == dsg() { live(s.drop_last()) } else { live(s.drop_last()).push(s.last()) } }
// ---- building: L is one level of the tree, its nodes cover [K[i], K[i+1]); only the first m nodes of the pool P are in use
pub open spec fn cu(h: Heap, n: Ptr, d: nat, p: Seq<Ptr>, m: int) -> bool decreases d {
    n != 0 && chs(h, n).len() == 0 && if d == 0 { h.nbase_is_leaf[n] && h.al_node.contains(n) } else { !h.nbase_is_leaf[n] && h.al_nl.contains(n) && (exists|j: int| 0 <= j < m && #[trigger] p[j] == n) && cu(h, h.nl_left[n], (d - 1) as nat, p, m) && (h.nl_right[n] == 0 || cu(h, h.nl_right[n], (d - 1) as nat, p, m)) }
}
pub open spec fn sub(h: Heap, n: Ptr, d: nat, lk: int, hk: int, st: bool, ks: Seq<i64>, p: Seq<Ptr>, m: int) -> bool { cu(h, n, d, p, m) && keyof(h, n) == lk && (d > 0 ==> h.nl_high[n] == hk) && forall|a: i64, b: i64| ks.contains(a) && ks.contains(b) ==> #[trigger] tree(h, n, d, lk, hk, st, a as int, b as int) }
#[verifier::opaque] pub open spec fn level(h: Heap, l: Seq<Ptr>, n: int, d: nat, k: Seq<int>, ks: Seq<i64>, p: Seq<Ptr>, m: int) -> bool { k.len() == n + 1 && l.len() <= n && forall|i: int| 0 <= i < l.len() ==> sub(h, #[trigger] l[i], d, k[i], k[i + 1], i < n - 1, ks, p, m) }
#[verifier::opaque] pub open spec fn fresh(h: Heap, p: Seq<Ptr>, m: int) -> bool { p.no_duplicates() && forall|j: int| 0 <= j < p.len() ==> h.al_nl.contains(#[trigger] p[j]) && p[j] != 0 && !h.nbase_is_leaf[p[j]] && cseq(h.nl_value_nonleaf[p[j]].data_chain).len() == 0 && (j >= m ==> h.nl_right[p[j]] == 0) }
pub open spec fn mn(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn half(k: Seq<int>, n: int) -> Seq<int> { Seq::new(((n + 1) / 2 + 1) as nat, |i: int| k[mn(2 * i, n)]) }
pub open spec fn need(n: int) -> int decreases n { if n <= 1 { 0 } else { (n + 1) / 2 + need((n + 1) / 2) } }
// g is h with pool node m filled in
pub open spec fn joined(h: Heap, g: Heap, x: Ptr, n1: Ptr, n2: Ptr, lo: int, hi: int) -> bool {
    &&& g.al_node == h.al_node && g.al_nl == h.al_nl && g.nbase_is_leaf == h.nbase_is_leaf && g.node_key == h.node_key && g.node_value_leaf == h.node_value_leaf && g.nl_value_nonleaf == h.nl_value_nonleaf
    &&& g.nl_left == h.nl_left.insert(x, n1) && g.nl_right == (if n2 != 0 { h.nl_right.insert(x, n2) } else { h.nl_right })
    &&& g.nl_low == h.nl_low.insert(x, g.nl_low[x]) && g.nl_high == h.nl_high.insert(x, g.nl_high[x]) && g.nl_low[x] == lo && g.nl_high[x] == hi
}
pub proof fn lem_tree_j(h: Heap, g: Heap, x: Ptr, n1: Ptr, n2: Ptr, lo: int, hi: int, n: Ptr, d: nat, lk: int, hk: int, st: bool, a: int, b: int, p: Seq<Ptr>, m: int)
    requires joined(h, g, x, n1, n2, lo, hi), tree(h, n, d, lk, hk, st, a, b), cu(h, n, d, p, m), p.no_duplicates(), 0 <= m < p.len(), x == p[m], !h.nbase_is_leaf[x]
    ensures tree(g, n, d, lk, hk, st, a, b), cu(g, n, d, p, m + 1) decreases d
{
    if d > 0 {
        let j = choose|j: int| 0 <= j < m && #[trigger] p[j] == n; assert(n != x); assert(0 <= j < m + 1);
        let mk = lem_mid(h, n, d, lk, hk, st, a, b);
        lem_tree_j(h, g, x, n1, n2, lo, hi, h.nl_left[n], (d - 1) as nat, lk, mk, st || h.nl_right[n] != 0, a, b, p, m);
        if h.nl_right[n] != 0 { lem_tree_j(h, g, x, n1, n2, lo, hi, h.nl_right[n], (d - 1) as nat, mk, hk, st, a, b, p, m); }
        assert(trig(mk));
    } else { assert(chs(g, n) == chs(h, n)); }
}
pub proof fn lem_sub_j(h: Heap, g: Heap, x: Ptr, n1: Ptr, n2: Ptr, lo: int, hi: int, n: Ptr, d: nat, lk: int, hk: int, st: bool, ks: Seq<i64>, p: Seq<Ptr>, m: int)
    requires joined(h, g, x, n1, n2, lo, hi), sub(h, n, d, lk, hk, st, ks, p, m), ks.len() > 0, p.no_duplicates(), 0 <= m < p.len(), x == p[m], !h.nbase_is_leaf[x]
    ensures sub(g, n, d, lk, hk, st, ks, p, m + 1)
{
    assert(ks.contains(ks[0])); assert(tree(h, n, d, lk, hk, st, ks[0] as int, ks[0] as int));
    lem_tree_j(h, g, x, n1, n2, lo, hi, n, d, lk, hk, st, ks[0] as int, ks[0] as int, p, m);
    assert(d > 0 ==> n != x);
    assert forall|a: i64, b: i64| ks.contains(a) && ks.contains(b) implies #[trigger] tree(g, n, d, lk, hk, st, a as int, b as int) by { assert(tree(h, n, d, lk, hk, st, a as int, b as int)); lem_tree_j(h, g, x, n1, n2, lo, hi, n, d, lk, hk, st, a as int, b as int, p, m); }
}
pub proof fn lem_level_j(h: Heap, g: Heap, x: Ptr, n1: Ptr, n2: Ptr, lo: int, hi: int, l: Seq<Ptr>, n: int, d: nat, k: Seq<int>, ks: Seq<i64>, p: Seq<Ptr>, m: int)
    requires joined(h, g, x, n1, n2, lo, hi), level(h, l, n, d, k, ks, p, m), fresh(h, p, m), ks.len() > 0, 0 <= m < p.len(), x == p[m]
    ensures level(g, l, n, d, k, ks, p, m + 1), fresh(g, p, m + 1)
{
    reveal(level); reveal(fresh);
    assert forall|i: int| 0 <= i < l.len() implies sub(g, #[trigger] l[i], d, k[i], k[i + 1], i < n - 1, ks, p, m + 1) by { lem_sub_j(h, g, x, n1, n2, lo, hi, l[i], d, k[i], k[i + 1], i < n - 1, ks, p, m); }
}
// node m of the pool becomes the parent of l[2q] and l[2q+1]
pub proof fn lem_join(h: Heap, g: Heap, x: Ptr, n1: Ptr, n2: Ptr, lo: int, hi: int, l: Seq<Ptr>, d: nat, k: Seq<int>, ks: Seq<i64>, p: Seq<Ptr>, m: int, l2: Seq<Ptr>)
    requires joined(h, g, x, n1, n2, lo, hi), level(h, l, l.len() as int, d, k, ks, p, m), level(h, l2, (l.len() as int + 1) / 2, d + 1, half(k, l.len() as int), ks, p, m), fresh(h, p, m), ks.len() > 0, 0 <= m < p.len(), x == p[m],
        2 * l2.len() < l.len(), n1 == l[2 * l2.len() as int], n2 == (if 2 * l2.len() + 1 < l.len() { l[2 * l2.len() as int + 1] } else { 0 }), lo == k[2 * l2.len() as int], hi == k[mn(2 * l2.len() as int + 2, l.len() as int)]
    ensures level(g, l, l.len() as int, d, k, ks, p, m + 1), fresh(g, p, m + 1), level(g, l2.push(x), (l.len() as int + 1) / 2, d + 1, half(k, l.len() as int), ks, p, m + 1)
{
    let n = l.len() as int; let k2 = half(k, n); let q = l2.len() as int; let n2l = (n + 1) / 2; let st = q < n2l - 1;
    assert(n1 != 0 && x != 0) by { reveal(level); reveal(fresh); assert(sub(h, l[2 * q], d, k[2 * q], k[2 * q + 1], 2 * q < n - 1, ks, p, m)); }
    lem_level_j(h, g, x, n1, n2, lo, hi, l, n, d, k, ks, p, m);
    lem_level_j(h, g, x, n1, n2, lo, hi, l2, n2l, d + 1, k2, ks, p, m);
    assert(sub(g, x, d + 1, lo, hi, st, ks, p, m + 1)) by {
        reveal(level); reveal(fresh); assert(p[m] == x);
        assert(sub(g, l[2 * q], d, k[2 * q], k[2 * q + 1], 2 * q < n - 1, ks, p, m + 1));
        if n2 != 0 { assert(sub(g, l[2 * q + 1], d, k[2 * q + 1], k[2 * q + 2], 2 * q + 1 < n - 1, ks, p, m + 1)); }
        assert(h.al_nl.contains(p[m]) && h.nl_right[p[m]] == 0);
        assert(g.nl_left[x] == n1 && g.nl_right[x] == n2); assert((d + 1 - 1) as nat == d);
        assert(0 <= m < m + 1 && p[m] == x); assert(cseq(h.nl_value_nonleaf[p[m]].data_chain).len() == 0);
        if 2 * q + 1 < n { assert(l[2 * q + 1] != 0); }
        assert(cu(g, x, d + 1, p, m + 1));
        assert forall|a: i64, b: i64| ks.contains(a) && ks.contains(b) implies #[trigger] tree(g, x, d + 1, lo, hi, st, a as int, b as int) by {
            let mk = k[2 * q + 1]; assert(trig(mk)); assert(tree(g, n1, d, lo, mk, 2 * q < n - 1, a as int, b as int)); lem_le(g, n1, d, lo, mk, 2 * q < n - 1, a as int, b as int);
            if n2 != 0 { assert(tree(g, n2, d, mk, hi, st, a as int, b as int)); lem_le(g, n2, d, mk, hi, st, a as int, b as int); }
        }
    }
    assert(level(g, l2.push(x), n2l, d + 1, k2, ks, p, m + 1)) by {
        reveal(level); assert(k2[q] == k[2 * q]); assert(k2[q + 1] == k[mn(2 * q + 2, n)]);
        let l3 = l2.push(x);
        assert forall|i: int| 0 <= i < l3.len() implies sub(g, #[trigger] l3[i], d + 1, k2[i], k2[i + 1], i < n2l - 1, ks, p, m + 1) by { if i < q { assert(l3[i] == l2[i]); } }
    }
}
pub proof fn lem_le(h: Heap, n: Ptr, d: nat, lk: int, hk: int, st: bool, a: int, b: int) requires tree(h, n, d, lk, hk, st, a, b) ensures lk <= hk { }
pub proof fn lem_lv(h: Heap, l: Seq<Ptr>, n: int, d: nat, k: Seq<int>, ks: Seq<i64>, p: Seq<Ptr>, m: int, i: int) requires level(h, l, n, d, k, ks, p, m), 0 <= i < l.len() ensures sub(h, l[i], d, k[i], k[i + 1], i < n - 1, ks, p, m), l[i] != 0 { reveal(level); }
pub proof fn lem_fr(h: Heap, p: Seq<Ptr>, m: int, j: int) requires fresh(h, p, m), 0 <= j < p.len() ensures h.al_nl.contains(p[j]), p[j] != 0, !h.nbase_is_leaf[p[j]] { reveal(fresh); }
pub open spec fn hiof(h: Heap, n1: Ptr, n2: Ptr) -> int { let n = if n2 != 0 { n2 } else { n1 }; if h.nbase_is_leaf[n] { if n2 != 0 && h.node_next[n] != 0 { h.node_key[h.node_next[n]] as int } else { h.node_key[n] as int } } else { h.nl_high[n] as int } }
pub proof fn lem_out(h: Heap, p: Seq<Ptr>, m: int, n: Ptr, d: nat) requires fresh(h, p, m), cu(h, n, d, p, m) ensures n != 0, if h.nbase_is_leaf[n] { h.al_node.contains(n) } else { h.al_nl.contains(n) }, d > 0 ==> !h.nbase_is_leaf[n], h.nbase_is_leaf[n] || !exists|j: int| m <= j < p.len() && #[trigger] p[j] == n
{ reveal(fresh); if d > 0 { let j = choose|j: int| 0 <= j < m && #[trigger] p[j] == n; } }
pub open spec fn same_vals(h: Heap, g: Heap) -> bool { same_shape(h, g) && g.node_value_leaf == h.node_value_leaf && g.nl_value_nonleaf == h.nl_value_nonleaf }
pub proof fn lem_cu_g(h: Heap, g: Heap, n: Ptr, d: nat, p: Seq<Ptr>, m: int) requires same_vals(h, g), cu(h, n, d, p, m) ensures cu(g, n, d, p, m) decreases d { if d > 0 { lem_cu_g(h, g, h.nl_left[n], (d - 1) as nat, p, m); if h.nl_right[n] != 0 { lem_cu_g(h, g, h.nl_right[n], (d - 1) as nat, p, m); } } }
pub proof fn lem_sub_g(h: Heap, g: Heap, n: Ptr, d: nat, lk: int, hk: int, st: bool, ks: Seq<i64>, p: Seq<Ptr>, m: int) requires same_vals(h, g), sub(h, n, d, lk, hk, st, ks, p, m) ensures sub(g, n, d, lk, hk, st, ks, p, m)
{ lem_cu_g(h, g, n, d, p, m); assert forall|a: i64, b: i64| ks.contains(a) && ks.contains(b) implies #[trigger] tree(g, n, d, lk, hk, st, a as int, b as int) by { assert(tree(h, n, d, lk, hk, st, a as int, b as int)); lem_tree_frame(h, g, n, d, lk, hk, st, a as int, b as int); } }
pub proof fn lem_level_g(h: Heap, g: Heap, l: Seq<Ptr>, n: int, d: nat, k: Seq<int>, ks: Seq<i64>, p: Seq<Ptr>, m: int) requires same_vals(h, g), level(h, l, n, d, k, ks, p, m) ensures level(g, l, n, d, k, ks, p, m)
{ reveal(level); assert forall|i: int| 0 <= i < l.len() implies sub(g, #[trigger] l[i], d, k[i], k[i + 1], i < n - 1, ks, p, m) by { lem_sub_g(h, g, l[i], d, k[i], k[i + 1], i < n - 1, ks, p, m); } }
pub open spec fn kseq(h: Heap, s: Seq<Ptr>) -> Seq<int> { Seq::new((s.len() + 1) as nat, |i: int| h.node_key[s[mn(i, s.len() - 1)]] as int) }
pub proof fn lem_leafs(h: Heap, s: Seq<Ptr>, i: int, k: Seq<int>, ks: Seq<i64>, p: Seq<Ptr>, m: int) requires lch(h, s, 0), 0 <= i < s.len(), level(h, s, s.len() as int, 0, k, ks, p, m), k == kseq(h, s)
    ensures s[i] != 0, h.nbase_is_leaf[s[i]], h.al_node.contains(s[i]), keyof(h, s[i]) == k[i], k[i] == h.node_key[s[i]], i < s.len() - 1 ==> h.node_next[s[i]] == s[i + 1], i == s.len() - 1 ==> k[i + 1] == k[i] { reveal(level); reveal(lch); assert(sub(h, s[i], 0, k[i], k[i + 1], i < s.len() - 1, ks, p, m)); }
// a list of fresh leaves with the first keys of ks
#[verifier::opaque] pub open spec fn mk(h: Heap, h0: Heap, s: Seq<Ptr>, ks: Seq<i64>) -> bool { s.len() <= ks.len() && s.no_duplicates() && (forall|i: int| 0 <= i < s.len() ==> h.al_node.contains(#[trigger] s[i]) && s[i] != 0 && h.nbase_is_leaf[s[i]] && cseq(h.node_value_leaf[s[i]].data_chain).len() == 0 && h.node_key[s[i]] == ks[i] && !h0.al_node.contains(s[i])) && (forall|i: int| 0 <= i < s.len() - 1 ==> h.node_next[#[trigger] s[i]] == s[i + 1]) }
pub proof fn lem_mk(h: Heap, g: Heap, h0: Heap, s: Seq<Ptr>, ks: Seq<i64>, c: Ptr)
    requires mk(h, h0, s, ks), s.len() < ks.len(), c != 0, g.al_node.contains(c), g.nbase_is_leaf[c], cseq(g.node_value_leaf[c].data_chain).len() == 0, g.node_key[c] == ks[s.len() as int], !h0.al_node.contains(c), !s.contains(c), s.len() > 0 ==> h.node_next[s.last()] == c,
        forall|x: Ptr| #![trigger g.al_node.contains(x)] s.contains(x) && h.al_node.contains(x) ==> g.al_node.contains(x) && g.nbase_is_leaf[x] == h.nbase_is_leaf[x] && g.node_value_leaf[x] == h.node_value_leaf[x] && g.node_key[x] == h.node_key[x] && g.node_next[x] == h.node_next[x]
    ensures mk(g, h0, s.push(c), ks)
{
    reveal(mk); let t = s.push(c);
    assert forall|i: int| 0 <= i < t.len() implies g.al_node.contains(#[trigger] t[i]) && t[i] != 0 && g.nbase_is_leaf[t[i]] && cseq(g.node_value_leaf[t[i]].data_chain).len() == 0 && g.node_key[t[i]] == ks[i] && !h0.al_node.contains(t[i]) by { if i < s.len() { assert(t[i] == s[i]); assert(s.contains(s[i])); assert(g.al_node.contains(s[i])); } }
    assert forall|i: int| 0 <= i < t.len() - 1 implies g.node_next[#[trigger] t[i]] == t[i + 1] by { assert(t[i] == s[i]); assert(s.contains(s[i])); assert(g.al_node.contains(s[i])); if i < s.len() - 1 { assert(t[i + 1] == s[i + 1]); } }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { if i < s.len() { assert(t[i] == s[i] && s.contains(s[i])); } if j < s.len() { assert(t[j] == s[j] && s.contains(s[j])); } }
}
pub proof fn lem_mkl(h: Heap, g: Heap, h0: Heap, s: Seq<Ptr>, ks: Seq<i64>) requires mk(h, h0, s, ks), s.len() > 0, g == (Heap { node_next: g.node_next, ..h }), g.node_next == h.node_next.insert(s.last(), 0) ensures mk(g, h0, s, ks) { reveal(mk); }
pub proof fn lem_mkf(h: Heap, h0: Heap, s: Seq<Ptr>, ks: Seq<i64>, x: Ptr) requires mk(h, h0, s, ks), s.contains(x) ensures h.al_node.contains(x), !h0.al_node.contains(x), x != 0 { reveal(mk); }
#[verifier::opaque] pub open spec fn leaves(h: Heap, s: Seq<Ptr>, keys: Seq<i64>) -> bool { s.len() >= 2 && lch(h, s, 0) && h.node_next[s.last()] == 0 && s.len() <= keys.len() && (forall|i: int| 0 <= i < s.len() ==> h.nbase_is_leaf[#[trigger] s[i]] && cseq(h.node_value_leaf[s[i]].data_chain).len() == 0) && (forall|i: int, j: int| 0 <= i < j < s.len() ==> h.node_key[#[trigger] s[i]] < h.node_key[#[trigger] s[j]]) && (forall|x: i64| keys.contains(x) ==> exists|i: int| 0 <= i < s.len() && h.node_key[#[trigger] s[i]] == x) && forall|i: int| 0 <= i < s.len() ==> keys.contains(h.node_key[#[trigger] s[i]]) }
pub proof fn lem_leaves(h: Heap, h0: Heap, s: Seq<Ptr>, u: Seq<i64>, keys: Seq<i64>)
    requires mk(h, h0, s, u), s.len() == u.len(), s.len() <= keys.len(), sasc(u), h.node_next[s.last()] == 0, forall|x: i64| u.contains(x) == keys.contains(x), s.len() >= 2
    ensures leaves(h, s, keys), forall|j: int| 0 <= j < s.len() ==> !h0.al_node.contains(#[trigger] s[j])
{
    reveal(mk); reveal(leaves); reveal(lch);
    assert forall|x: i64| keys.contains(x) implies exists|i: int| 0 <= i < s.len() && h.node_key[#[trigger] s[i]] == x by { assert(u.contains(x)); let i = choose|i: int| 0 <= i < u.len() && u[i] == x; assert(h.node_key[s[i]] == x); }
    assert forall|i: int| 0 <= i < s.len() implies keys.contains(h.node_key[#[trigger] s[i]]) by { assert(u.contains(u[i])); }
}
pub proof fn lem_leavesg(h: Heap, g: Heap, s: Seq<Ptr>, keys: Seq<i64>) requires leaves(h, s, keys), same_vals(h, g), g.node_next == h.node_next ensures leaves(g, s, keys) { reveal(leaves); reveal(lch); }
pub proof fn lem_leafsi(h: Heap, t: Ptr, keys: Seq<i64>) requires leaves(h, h.g_seq[t], keys), h.g_seq[t][0] == h.seg_m_left_leaf[t], h.g_seq[t].last() == h.seg_m_right_leaf[t] ensures leafs(h, t) { reveal(leafs); reveal(leaves); reveal(lch); }
// a store in use: proper intervals
pub open spec fn okst(s: Seq<sgt>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).start < s[i].end }
pub open spec fn allkeys(s: Seq<sgt>) -> Seq<i64> decreases s.len() { if s.len() == 0 { Seq::empty() } else { allkeys(s.drop_last()).push(s.last().start).push(s.last().end) } }
pub proof fn lem_ak(s: Seq<sgt>) ensures allkeys(s).len() == 2 * s.len() decreases s.len() { if s.len() > 0 { lem_ak(s.drop_last()); } }
pub proof fn lem_akc(s: Seq<sgt>, i: int) requires 0 <= i < s.len() ensures allkeys(s).contains(s[i].start), allkeys(s).contains(s[i].end), allkeys(s)[2 * i] == s[i].start, allkeys(s)[2 * i + 1] == s[i].end decreases s.len()
{ let k = allkeys(s); lem_ak(s); lem_ak(s.drop_last()); if i < s.len() - 1 { lem_akc(s.drop_last(), i); } assert(k[2 * i] == s[i].start); assert(k[2 * i + 1] == s[i].end); }
pub proof fn lem_need(n: int) ensures need(n) >= 0, n >= 2 ==> need(n) == (n + 1) / 2 + need((n + 1) / 2) decreases n { if n > 1 { lem_need((n + 1) / 2); } }
pub proof fn lem_needb(n: int) requires n >= 1 ensures 0 <= need(n) <= 2 * n - 2 decreases n { if n >= 2 { lem_needb((n + 1) / 2); } }
pub proof fn lem_lvs(h: Heap, s: Seq<Ptr>, keys: Seq<i64>) requires leaves(h, s, keys) ensures s.len() >= 2, s.len() <= keys.len(), lch(h, s, 0), h.node_next[s.last()] == 0, h.al_node.contains(s[0]), h.al_node.contains(s.last()), s[0] != 0 { reveal(leaves); reveal(lch); }
// entries lie between the first and the last boundary key
pub proof fn lem_span(h: Heap, s: Seq<Ptr>, keys: Seq<i64>, x: i64) requires leaves(h, s, keys), keys.contains(x) ensures h.node_key[s[0]] <= x <= h.node_key[s.last()]
{ reveal(leaves); let i = choose|i: int| 0 <= i < s.len() && h.node_key[#[trigger] s[i]] == x; let n = s.len() - 1; if 0 < i { assert(h.node_key[s[0]] < h.node_key[s[i]]); } if i < n { assert(h.node_key[s[i]] < h.node_key[s[n]]); } }
pub proof fn lem_ends(h: Heap, s: Seq<Ptr>, keys: Seq<i64>) requires leaves(h, s, keys) ensures keys.contains(h.node_key[s[0]]), keys.contains(h.node_key[s.last()]) { reveal(leaves); assert(keys.contains(h.node_key[s[0]])); assert(keys.contains(h.node_key[s[s.len() - 1]])); }
// the leaves are level 0 of the tree
pub proof fn lem_l00(h: Heap, s: Seq<Ptr>, ks: Seq<i64>, p: Seq<Ptr>) requires leaves(h, s, ks) ensures level(h, s, s.len() as int, 0, kseq(h, s), ks, p, 0)
{
    reveal(leaves); reveal(level); reveal(lch); let k = kseq(h, s); let n = s.len() as int;
    assert forall|i: int| 0 <= i < s.len() implies sub(h, #[trigger] s[i], 0, k[i], k[i + 1], i < n - 1, ks, p, 0) by {
        assert(s[i] != 0 && h.al_node.contains(s[i])); assert(k[i] == h.node_key[s[i]]); assert(chs(h, s[i]).len() == 0); assert(k[i + 1] == h.node_key[s[mn(i + 1, n - 1)]]);
        if i < n - 1 { assert(h.node_key[s[i]] < h.node_key[s[i + 1]]); } let sb = i < n - 1;
        assert forall|a: i64| ks.contains(a) implies !(k[i] < a < k[i + 1]) by { let j = choose|j: int| 0 <= j < s.len() && h.node_key[#[trigger] s[j]] == a; if j < i { assert(h.node_key[s[j]] < h.node_key[s[i]]); } if j > i + 1 { assert(h.node_key[s[i + 1]] < h.node_key[s[j]]); } }
        assert forall|a: i64, b: i64| ks.contains(a) && ks.contains(b) implies #[trigger] tree(h, s[i], 0, k[i], k[i + 1], sb, a as int, b as int) by { }
    }
}
pub proof fn lem_hz(h: Heap, n: Ptr, d: nat, p: Seq<Ptr>, m: int, pt: int, w: u64) requires cu(h, n, d, p, m) ensures hits(h, n, d, pt, w) == 0 decreases d { if d > 0 { lem_hz(h, pick(h, n, pt), (d - 1) as nat, p, m, pt, w); } }
// the first i entries of the store are in the tree and nothing else
#[verifier::opaque] pub open spec fn upto(h: Heap, n: Ptr, d: nat, lk: int, hk: int, ks: Seq<i64>, st: Seq<sgt>, i: int) -> bool { n != 0 && d > 0 && (forall|a: i64, b: i64| ks.contains(a) && ks.contains(b) ==> #[trigger] tree(h, n, d, lk, hk, false, a as int, b as int)) && forall|pt: int, w: u64| lk <= pt < hk ==> (#[trigger] hits(h, n, d, pt, w)) == b2(w < i && st[w as int].start <= pt < st[w as int].end) }
pub proof fn lem_u0(h: Heap, n: Ptr, d: nat, lk: int, hk: int, ks: Seq<i64>, p: Seq<Ptr>, m: int, st: Seq<sgt>) requires sub(h, n, d, lk, hk, false, ks, p, m), d > 0 ensures upto(h, n, d, lk, hk, ks, st, 0)
{ reveal(upto); assert forall|pt: int, w: u64| lk <= pt < hk implies (#[trigger] hits(h, n, d, pt, w)) == b2(w < 0 && st[w as int].start <= pt < st[w as int].end) by { lem_hz(h, n, d, p, m, pt, w); } }
pub proof fn lem_ut(h: Heap, n: Ptr, d: nat, lk: int, hk: int, ks: Seq<i64>, st: Seq<sgt>, i: int, a: i64, b: i64) requires upto(h, n, d, lk, hk, ks, st, i), ks.contains(a), ks.contains(b) ensures tree(h, n, d, lk, hk, false, a as int, b as int), n != 0, d > 0 { reveal(upto); }
pub proof fn lem_u1(h: Heap, g: Heap, n: Ptr, d: nat, lk: int, hk: int, ks: Seq<i64>, st: Seq<sgt>, i: u64)
    requires upto(h, n, d, lk, hk, ks, st, i as int), 0 <= i < st.len(), i < u64::MAX, same_shape(h, g), mark(h, g, n, st[i as int].start as int, st[i as int].end as int, i), ks.contains(st[i as int].start), ks.contains(st[i as int].end)
    ensures upto(g, n, d, lk, hk, ks, st, i + 1)
{
    let (a, b) = (st[i as int].start, st[i as int].end);
    assert(marked(h, g, n, d, lk, hk, a as int, b as int, i)) by { lem_ut(h, n, d, lk, hk, ks, st, i as int, a, b); reveal(mark); assert(tree(h, n, d, lk, hk, false, a as int, b as int)); }
    reveal(upto);
    assert forall|a: i64, b: i64| ks.contains(a) && ks.contains(b) implies #[trigger] tree(g, n, d, lk, hk, false, a as int, b as int) by { assert(tree(h, n, d, lk, hk, false, a as int, b as int)); lem_tree_frame(h, g, n, d, lk, hk, false, a as int, b as int); }
    assert forall|pt: int, w: u64| lk <= pt < hk implies (#[trigger] hits(g, n, d, pt, w)) == b2(w < i + 1 && st[w as int].start <= pt < st[w as int].end) by { assert(hits(h, n, d, pt, w) == b2(w < i && st[w as int].start <= pt < st[w as int].end)); }
}
pub proof fn lem_hits_g(h: Heap, g: Heap, n: Ptr, d: nat, pt: int, w: u64) requires same_vals(h, g) ensures hits(g, n, d, pt, w) == hits(h, n, d, pt, w) decreases d { assert(pick(g, n, pt) == pick(h, n, pt)); assert(chs(g, n) == chs(h, n)); if d > 0 { lem_hits_g(h, g, pick(h, n, pt), (d - 1) as nat, pt, w); } }
pub proof fn lem_upf(h: Heap, g: Heap, n: Ptr, d: nat, lk: int, hk: int, ks: Seq<i64>, st: Seq<sgt>, i: int) requires upto(h, n, d, lk, hk, ks, st, i), same_vals(h, g) ensures upto(g, n, d, lk, hk, ks, st, i)
{ reveal(upto); assert forall|a: i64, b: i64| ks.contains(a) && ks.contains(b) implies #[trigger] tree(g, n, d, lk, hk, false, a as int, b as int) by { assert(tree(h, n, d, lk, hk, false, a as int, b as int)); lem_tree_frame(h, g, n, d, lk, hk, false, a as int, b as int); }
  assert forall|pt: int, w: u64| lk <= pt < hk implies (#[trigger] hits(g, n, d, pt, w)) == b2(w < i && st[w as int].start <= pt < st[w as int].end) by { lem_hits_g(h, g, n, d, pt, w); } }
// a valid tree answers every point with the entries that contain it
#[verifier::opaque] pub open spec fn exact(h: Heap, n: Ptr, d: nat, lk: int, hk: int, st: Seq<sgt>) -> bool { n != 0 && d > 0 && tree(h, n, d, lk, hk, false, lk, hk) && (forall|pt: int, w: u64| lk <= pt < hk ==> (#[trigger] hits(h, n, d, pt, w)) == b2(w < st.len() && st[w as int].start <= pt < st[w as int].end)) && forall|i: int| 0 <= i < st.len() ==> lk <= (#[trigger] st[i]).start && st[i].end <= hk }
#[verifier::opaque] pub open spec fn seg_ok(h: Heap, t: Ptr) -> bool { let st = h.seg_m_segment_store[t]@; h.seg_m_valid_tree[t] ==> if st.len() == 0 { h.seg_m_root_node[t] == 0 } else { exists|d: nat, lk: int, hk: int| #[trigger] exact(h, h.seg_m_root_node[t], d, lk, hk, st) } }
pub proof fn lem_lmv(h: Heap, g: Heap, t: Ptr, u: Ptr) requires g.g_seq[u] == h.g_seq[t], g.seg_m_left_leaf[u] == h.seg_m_left_leaf[t], g.seg_m_right_leaf[u] == h.seg_m_right_leaf[t], g.al_node == h.al_node, g.node_next == h.node_next ensures leafs(h, t) ==> leafs(g, u) { reveal(leafs); }
pub proof fn lem_lgrow(h: Heap, g: Heap, t: Ptr) requires leafs(h, t), g.g_seq[t] == h.g_seq[t], g.seg_m_left_leaf[t] == h.seg_m_left_leaf[t], g.seg_m_right_leaf[t] == h.seg_m_right_leaf[t], forall|x: Ptr| #![trigger g.node_next[x]] #![trigger g.al_node.contains(x)] h.al_node.contains(x) ==> g.al_node.contains(x) && g.node_next[x] == h.node_next[x] ensures leafs(g, t) { reveal(leafs); }
pub proof fn lem_okmv(h: Heap, g: Heap, t: Ptr, u: Ptr) requires same_vals(h, g), g.seg_m_segment_store[u] == h.seg_m_segment_store[t], g.seg_m_root_node[u] == h.seg_m_root_node[t], g.seg_m_valid_tree[u] == h.seg_m_valid_tree[t] ensures seg_ok(h, t) ==> seg_ok(g, u)
{ if seg_ok(h, t) { reveal(seg_ok); let st = h.seg_m_segment_store[t]@; let n = h.seg_m_root_node[t]; if h.seg_m_valid_tree[t] && st.len() > 0 { let (d, lk, hk) = choose|d: nat, lk: int, hk: int| #[trigger] exact(h, n, d, lk, hk, st); assert(exact(g, n, d, lk, hk, st)) by { reveal(exact); lem_tree_frame(h, g, n, d, lk, hk, false, lk, hk); assert forall|pt: int, w: u64| lk <= pt < hk implies (#[trigger] hits(g, n, d, pt, w)) == b2(w < st.len() && st[w as int].start <= pt < st[w as int].end) by { lem_hits_g(h, g, n, d, pt, w); } } } } }
pub open spec fn okd(s: Seq<sgt>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).start < s[i].end || s[i] == dsg() }
pub proof fn lem_live(s: Seq<sgt>) requires okd(s) ensures okst(live(s)), live(s).len() <= s.len() decreases s.len() { if s.len() > 0 { assert(okd(s.drop_last())); lem_live(s.drop_last()); let l = live(s.drop_last()); assert(s.last() == s[s.len() - 1]); assert forall|i: int| 0 <= i < live(s).len() implies (#[trigger] live(s)[i]).start < live(s)[i].end by { if i < l.len() { assert(live(s)[i] == l[i]); } } } }
pub proof fn lem_okend(h: Heap, t: Ptr, s: Seq<Ptr>, ks: Seq<i64>, h0: Heap, d: nat)
    requires h.seg_m_segment_store[t]@.len() > 0, ks == allkeys(h.seg_m_segment_store[t]@), leaves(h0, s, ks), upto(h, h.seg_m_root_node[t], d, h0.node_key[s[0]] as int, h0.node_key[s.last()] as int, ks, h.seg_m_segment_store[t]@, h.seg_m_segment_store[t]@.len() as int)
    ensures seg_ok(h, t)
{
    let st = h.seg_m_segment_store[t]@; let (lk, hk) = (h0.node_key[s[0]], h0.node_key[s.last()]); lem_ends(h0, s, ks); reveal(seg_ok);
    lem_ut(h, h.seg_m_root_node[t], d, lk as int, hk as int, ks, st, st.len() as int, lk, hk);
    assert(exact(h, h.seg_m_root_node[t], d, lk as int, hk as int, st)) by { reveal(exact); reveal(upto); assert forall|i: int| 0 <= i < st.len() implies lk <= (#[trigger] st[i]).start && st[i].end <= hk by { lem_akc(st, i); lem_span(h0, s, ks, st[i].start); lem_span(h0, s, ks, st[i].end); } }
}
pub proof fn lem_leafsf(h: Heap, g: Heap, t: Ptr) requires leafs(h, t), g.g_seq[t] == h.g_seq[t], g.seg_m_left_leaf[t] == h.seg_m_left_leaf[t], g.seg_m_right_leaf[t] == h.seg_m_right_leaf[t], g.al_node == h.al_node, g.node_next == h.node_next ensures leafs(g, t) { reveal(leafs); }
pub proof fn lem_fresh0(h: Heap, p: Seq<Ptr>) requires p.no_duplicates(), forall|j: int| 0 <= j < p.len() ==> h.al_nl.contains(#[trigger] p[j]) && p[j] != 0 && !h.nbase_is_leaf[p[j]] && cv(h.nl_value_nonleaf[p[j]].data_chain) is None && h.nl_right[p[j]] == 0 ensures fresh(h, p, 0) { reveal(fresh); }
pub proof fn lem_leavesp(h: Heap, g: Heap, s: Seq<Ptr>, keys: Seq<i64>) requires leaves(h, s, keys), g.al_node == h.al_node, g.node_key == h.node_key, g.node_next == h.node_next, g.node_value_leaf == h.node_value_leaf, forall|x: Ptr| h.al_node.contains(x) ==> g.nbase_is_leaf[x] == h.nbase_is_leaf[x] ensures leaves(g, s, keys) { reveal(leaves); reveal(lch); }
// what a search adds to its results: the chains on the path of the point
pub open spec fn found(h: Heap, n: Ptr, d: nat, pt: int, r0: Res, r1: Res) -> bool { forall|w: u64| (#[trigger] rhits(r1, w)) == rhits(r0, w) + hits(h, n, d, pt, w) }
"""
TREE='exists|d: nat, lk: int, hk: int, st: bool| #[trigger] tree(H, pnode, d, lk, hk, st, %s)'
AB='start_key as int, end_key as int'
TREEX='exists|d: nat, lk: int, hk: int, st: bool, a: int, b: int| #[trigger] tree(%s, %s, d, lk, hk, st, a, b)'
SEGF=['seg_m_nonleaf_node_pool','seg_m_segment_store','seg_m_tagged_nodes_map','seg_m_root_node','seg_m_left_leaf','seg_m_right_leaf','seg_m_valid_tree','g_seq']
DISC=dict(before='let ghost ls = h0.g_seq[this]; let ghost mut i: int = 0; proof { lem_l0(h0, h@, this); lem_lget(h@, ls, 0); lem_lget(h@, ls, ls.len() - 1); }',
  inv=['0 <= i < ls.len() - 1','cur_node == ls[i]','right_node == ls.last()','right_node != 0','h@.al_node.contains(right_node)','ls.contains(right_node)','lch(h@, ls, i)','ls == h@.g_seq[this]','h@.al_seg.contains(this)','h@.al_node.contains(cur_node)','forall|x: Ptr| #![trigger h@.node_next[x]] #![trigger h@.node_prev[x]] #![trigger h@.nbase_parent[x]] !ls.contains(x) ==> h@.node_next[x] == h0.node_next[x] && h@.node_prev[x] == h0.node_prev[x] && h@.nbase_parent[x] == h0.nbase_parent[x]'],
  xb=[],dec='ls.len() - i',begin='proof { lem_lget(h@, ls, i); } let ghost hb = h@;',end='proof { lem_lstep(hb, h@, ls, i); i = i + 1; lem_lget(h@, ls, i); }')
CONTRACTS={
 'seg.descend_tree_and_mark':dict(rlimit=60,requires=['pnode == 0 || '+TREE%AB],ensures=['mark(H0, H, pnode, %s, value)'%AB,'same_shape(H0, H)','pnode == 0 ==> H == H0',
    'forall|q: Ptr| #![trigger chs(H, q)] chs(H, q) == chs(H0, q) || nv(*final(nodelist)).contains(q)','forall|q: Ptr| #[trigger] nv(*old(nodelist)).contains(q) ==> nv(*final(nodelist)).contains(q)'],
   at={'entry':'''let ghost (a, b) = (start_key as int, end_key as int); let ghost mut hm = h@; let ghost mut nd: (nat, int, int, bool) = (0, 0, 0, true); let ghost mut mk: int = 0; let ghost nl0 = *nodelist;
     proof { if pnode != 0 { let (x0, x1, x2, x3) = choose|x0: nat, x1: int, x2: int, x3: bool| #[trigger] tree(h@, pnode, x0, x1, x2, x3, a, b); nd = (x0, x1, x2, x3); assert(tree(h@, pnode, nd.0, nd.1, nd.2, nd.3, a, b)); if nd.0 > 0 { mk = lem_mid(h@, pnode, nd.0, nd.1, nd.2, nd.3, a, b); } } }''',
    'after_call:seg.descend_tree_and_mark:1':'proof { hm = h@; let r = h0.nl_right[pnode]; if r != 0 { lem_tree_frame(h0, hm, r, (nd.0 - 1) as nat, mk, nd.2, nd.3, a, b); } }',
    'exit':'''proof { if pnode == 0 || if h0.nbase_is_leaf[pnode] { !(a <= h0.node_key[pnode] < b) } else { b < h0.nl_low[pnode] || h0.nl_high[pnode] <= a } { lem_m_none(h0, pnode, a, b, value); }
      else if h0.nbase_is_leaf[pnode] || (a <= h0.nl_low[pnode] && h0.nl_high[pnode] < b) { assert(chs(h@, pnode) == chs(h0, pnode).push(value)); assert(nv(*nodelist) == nv(nl0).push(pnode)); assert(nv(*nodelist)[nv(nl0).len() as int] == pnode); assert forall|q: Ptr| #[trigger] nv(nl0).contains(q) implies nv(*nodelist).contains(q) by { let i = choose|i: int| 0 <= i < nv(nl0).len() && nv(nl0)[i] == q; assert(nv(*nodelist)[i] == q); } lem_m_one(h0, h@, pnode, a, b, value); }
      else { lem_m_both(h0, hm, h@, pnode, a, b, value); } }'''}),
 'srb.push_back_chain':dict(requires=['rok(old(this).mp_res_chains)'],ensures=['rok(final(this).mp_res_chains)','forall|w: u64| (#[trigger] rhits(final(this).mp_res_chains, w)) == rhits(old(this).mp_res_chains, w) + cnt(cseq(chain), w)'],
   at={'entry':'let ghost r0 = this.mp_res_chains;','exit':"""proof { assert forall|w: u64| (#[trigger] rhits(this.mp_res_chains, w)) == rhits(r0, w) + cnt(cseq(chain), w) by {
       if this.mp_res_chains != r0 { if rv(r0) is None { lem_r0(r0, w); } reveal(rhits); assert(rseq(r0).push(chain).drop_last() =~= rseq(r0)); } } }"""}),
 'descend_tree_for_search':dict(requires=[TREEX%('H','pnode'),'rok(old(result).m_results.mp_res_chains)'],
   ensures=['rok(final(result).m_results.mp_res_chains)',
     "forall|d: nat, lk: int, hk: int, st: bool, a: int, b: int| #[trigger] tree(H, pnode, d, lk, hk, st, a, b) && lk <= point < hk ==> found(H, pnode, d, point as int, old(result).m_results.mp_res_chains, final(result).m_results.mp_res_chains)",
     '!H.nbase_is_leaf[pnode] && !(H.nl_low[pnode] <= point < H.nl_high[pnode]) ==> final(result).m_results.mp_res_chains == old(result).m_results.mp_res_chains'],
   decreases='ht(h@, pnode)',
   at={'entry':"""let ghost (d, lk, hk, st, a, b) = choose|d: nat, lk: int, hk: int, st: bool, a: int, b: int| #[trigger] tree(h@, pnode, d, lk, hk, st, a, b); let ghost r0 = result.m_results.mp_res_chains; let ghost mut r1 = r0; let ghost mut child: Ptr = 0;
     proof { lem_ht(h@, pnode, d, lk, hk, st, a, b); if d > 0 { let mk = lem_mid(h@, pnode, d, lk, hk, st, a, b); let l = h@.nl_left[pnode]; assert(keyof(h@, l) == lk); if h@.nl_right[pnode] != 0 { assert(keyof(h@, h@.nl_right[pnode]) == mk); lem_ht(h@, h@.nl_right[pnode], (d - 1) as nat, mk, hk, st, a, b); lem_htv(h@, h@.nl_right[pnode], (d - 1) as nat); } lem_ht(h@, l, (d - 1) as nat, lk, mk, st || h@.nl_right[pnode] != 0, a, b); lem_htv(h@, l, (d - 1) as nat); } lem_htv(h@, pnode, d); }""",
     'exit':"""proof { assert forall|d2: nat, lk2: int, hk2: int, st2: bool, a2: int, b2: int| #[trigger] tree(h@, pnode, d2, lk2, hk2, st2, a2, b2) && lk2 <= point < hk2 implies found(h@, pnode, d2, point as int, r0, result.m_results.mp_res_chains) by {
         lem_ht(h@, pnode, d2, lk2, hk2, st2, a2, b2); lem_ht1(h@, pnode, d, d2); } }"""}),
 'srb.empty':dict(requires=['rok(this.mp_res_chains)'],ensures=['r == (rseq(this.mp_res_chains).len() == 0)']),
 # a search reports every stored interval that contains the point, once, and nothing else
 'seg.search':dict(requires=['this != 0','H.al_seg.contains(this)','seg_ok(H, this)'],
   ensures=['rok(r.mp_res_chains)','forall|w: u64| (#[trigger] rhits(r.mp_res_chains, w)) == b2(H.seg_m_valid_tree[this] && w < H.seg_m_segment_store[this]@.len() && H.seg_m_segment_store[this]@[w as int].start <= point < H.seg_m_segment_store[this]@[w as int].end)'],
   at={'entry':'let ghost rt = h@.seg_m_root_node[this]; let ghost st = h@.seg_m_segment_store[this]@; let ghost mut d: nat = 0; let ghost mut lk: int = 0; let ghost mut hk: int = 0; proof { res_default(); reveal(seg_ok); if h@.seg_m_valid_tree[this] && st.len() > 0 { let (d2, lk2, hk2) = choose|d: nat, lk: int, hk: int| #[trigger] exact(h@, rt, d, lk, hk, st); d = d2; lk = lk2; hk = hk2; reveal(exact); assert(tree(h@, rt, d, lk, hk, false, lk, hk)); } }',
     'exit':"""proof { let v = h@.seg_m_valid_tree[this]; reveal(exact);
       assert forall|w: u64| (#[trigger] rhits(ret.mp_res_chains, w)) == b2(v && w < st.len() && st[w as int].start <= point < st[w as int].end) by {
         if !v || st.len() == 0 { lem_r0(ret.mp_res_chains, w); }
         else if lk <= point < hk { assert(found(h@, rt, d, point as int, spec_default_Res(), ret.mp_res_chains)); lem_r0(spec_default_Res(), w); assert(hits(h@, rt, d, point as int, w) == b2(w < st.len() && st[w as int].start <= point < st[w as int].end)); }
         else { lem_r0(ret.mp_res_chains, w); if w < st.len() { assert(lk <= st[w as int].start && st[w as int].end <= hk); } } } }"""}),
 'seg.insert':dict(requires=['this != 0','H.al_seg.contains(this)'],throws='start_key >= end_key',throw_unchanged='h@ == h0',
   ensures=['start_key < end_key','H.seg_m_valid_tree == H0.seg_m_valid_tree.insert(this, false)','H.seg_m_segment_store == H0.seg_m_segment_store.insert(this, H.seg_m_segment_store[this])','H.seg_m_segment_store[this]@ =~= H0.seg_m_segment_store[this]@.push(sgt { start: start_key, end: end_key, value: value })','seg_ok(H, this)','okd(H0.seg_m_segment_store[this]@) ==> okd(H.seg_m_segment_store[this]@)'],at={'exit':'proof { reveal(seg_ok); let (s, t) = (h0.seg_m_segment_store[this]@, h@.seg_m_segment_store[this]@); assert forall|i: int| okd(s) && 0 <= i < t.len() implies (#[trigger] t[i]).start < t[i].end || t[i] == dsg() by { if i < s.len() { assert(t[i] == s[i]); } } }'}),
 'seg.swap':dict(requires=['H.al_seg.contains(this)','H.al_seg.contains(r)','this != 0','r != 0'],
   ensures=['seg_ok(H0, r) ==> seg_ok(H, this)','seg_ok(H0, this) ==> seg_ok(H, r)']+['H.%s[this] == H0.%s[r]'%(f,f) for f in SEGF]+['H.%s[r] == H0.%s[this]'%(f,f) for f in SEGF]+['forall|x: Ptr| #![trigger H.%s[x]] x != this && x != r ==> H.%s[x] == H0.%s[x]'%(f,f,f) for f in SEGF],
   at={'exit':'let ghost s = h0.g_seq[this]; let ghost t = h0.g_seq[r]; gset_g_seq(h, this, Ghost(t)); gset_g_seq(h, r, Ghost(s)); proof { lem_okmv(h0, h@, r, this); lem_okmv(h0, h@, this, r); }'}),
 # one pool node becomes the parent of one or two nodes and carries their range
 'tb.make_parent_node':dict(requires=['node1 != 0','fresh(H, old(this).m_pool_pos.v@, old(this).m_pool_pos.i as int)','old(this).m_pool_pos.v == old(this).m_pool_pos_end.v','old(this).m_pool_pos.i < old(this).m_pool_pos_end.i','old(this).m_pool_pos_end.i == old(this).m_pool_pos.v@.len()','if H.nbase_is_leaf[node1] { H.al_node.contains(node1) } else { H.al_nl.contains(node1) }',
     'node2 != 0 ==> if H.nbase_is_leaf[node2] { H.al_node.contains(node2) && (H.node_next[node2] == 0 || H.al_node.contains(H.node_next[node2])) } else { H.al_nl.contains(node2) }',
     'H.nbase_is_leaf[node1] || !exists|j: int| old(this).m_pool_pos.i <= j < old(this).m_pool_pos.v@.len() && #[trigger] old(this).m_pool_pos.v@[j] == node1','node2 == 0 || H.nbase_is_leaf[node2] || !exists|j: int| old(this).m_pool_pos.i <= j < old(this).m_pool_pos.v@.len() && #[trigger] old(this).m_pool_pos.v@[j] == node2'],
   ensures=['r == old(this).m_pool_pos.v@[old(this).m_pool_pos.i as int]','final(this).m_pool_pos.v == old(this).m_pool_pos.v','final(this).m_pool_pos.i == old(this).m_pool_pos.i + 1','final(this).m_pool_pos_end == old(this).m_pool_pos_end',
     'joined(H0, H, r, node1, node2, keyof(H0, node1) as int, hiof(H0, node1, node2))'],
   at={'entry':'proof { lem_fr(h@, this.m_pool_pos.v@, this.m_pool_pos.i as int, this.m_pool_pos.i as int); }'}),
 'tb.build_tree_non_leaf':dict(rlimit=60,requires=['old(this).m_pool_pos.v == old(this).m_pool_pos_end.v','old(this).m_pool_pos.i + need(node_list@.len() as int) <= old(this).m_pool_pos_end.i','old(this).m_pool_pos_end.i == old(this).m_pool_pos.v@.len()','node_list@.len() > 0',
     'level(H, node_list@, node_list@.len() as int, H.g_d[0], H.g_k[0], H.g_ks[0], old(this).m_pool_pos.v@, old(this).m_pool_pos.i as int)','H.g_d[0] > 0','H.g_ks[0].len() > 0','fresh(H, old(this).m_pool_pos.v@, old(this).m_pool_pos.i as int)'],
   ensures=['exists|d: nat| d > 0 && #[trigger] sub(H, r, d, H0.g_k[0][0], H0.g_k[0].last(), false, H0.g_ks[0], old(this).m_pool_pos.v@, final(this).m_pool_pos.i as int)','H.g_ks == H0.g_ks'],
   decreases='node_list@.len()',
   loops=[dict(before='proof { lem_need(n); lem_need((n + 1) / 2); assert(level(h@, Seq::<Ptr>::empty(), (n + 1) / 2, d + 1, half(K, n), ks, P, m0)) by { reveal(level); } assert(new_node_list@ =~= Seq::<Ptr>::empty()); }',
     inv=['even_itr == (it.i % 2 == 1)','it.v == node_list','it_end.v == node_list','it_end.i == n','it.i <= n','n == node_list@.len()','n >= 2','new_node_list@.len() == it.i / 2','node1 == if even_itr { node_list@[it.i - 1] } else { 0 }','this.m_pool_pos.v == this.m_pool_pos_end.v','this.m_pool_pos.v@ == P','this.m_pool_pos_end.i == P.len()','this.m_pool_pos.i == m0 + it.i / 2','m0 + need(n) <= P.len()','need(n) == (n + 1) / 2 + need((n + 1) / 2)','need((n + 1) / 2) >= 0','ks.len() > 0','d > 0',
       'level(h@, node_list@, n, d, K, ks, P, this.m_pool_pos.i as int)','level(h@, new_node_list@, (n + 1) / 2, d + 1, half(K, n), ks, P, this.m_pool_pos.i as int)','fresh(h@, P, this.m_pool_pos.i as int)','h@.g_k == h0.g_k','h@.g_d == h0.g_d','h@.g_ks == h0.g_ks'],
     dec='n - it.i',begin='let ghost hb = h@; let ghost q = new_node_list@.len() as int; let ghost m = this.m_pool_pos.i as int; let ghost l2 = new_node_list@; proof { if it.i < n { lem_lv(h@, node_list@, n, d, K, ks, P, m, it.i as int); if even_itr { lem_lv(h@, node_list@, n, d, K, ks, P, m, it.i - 1); lem_out(h@, P, m, node_list@[it.i as int], d); lem_out(h@, P, m, node_list@[it.i - 1], d); } } }',after='proof { lem_lv(h@, node_list@, n, d, K, ks, P, this.m_pool_pos.i as int, n - 1); }')],
   at={'entry':'let ghost n = node_list@.len() as int; let ghost P = this.m_pool_pos.v@; let ghost m0 = this.m_pool_pos.i as int; let ghost (d, K, ks) = (h@.g_d[0], h@.g_k[0], h@.g_ks[0]); ','after_call:tb.make_parent_node:1':'proof { lem_join(hb, h@, P[m], node1, node2, K[2 * q], K[mn(2 * q + 2, n)], node_list@, d, K, ks, P, m, l2); }',
       'before_call:tb.make_parent_node:2':'let ghost hb = h@; let ghost q = new_node_list@.len() as int; let ghost m = this.m_pool_pos.i as int; let ghost l2 = new_node_list@; proof { lem_lv(h@, node_list@, n, d, K, ks, P, m, n - 1); lem_out(h@, P, m, node_list@[n - 1], d); }',
       'after_call:tb.make_parent_node:2':'proof { lem_join(hb, h@, P[m], node1, 0, K[2 * q], K[mn(2 * q + 2, n)], node_list@, d, K, ks, P, m, l2); }',
       'before_call:tb.build_tree_non_leaf:1':'let ghost hq = h@; gset_g_k(h, 0, Ghost(half(K, n))); gset_g_d(h, 0, Ghost(d + 1)); proof { lem_need((n + 1) / 2); lem_level_g(hq, h@, new_node_list@, (n + 1) / 2, d + 1, half(K, n), ks, P, this.m_pool_pos.i as int); reveal(fresh); }',
       'exit':'''proof { reveal(level); if n == 1 { lem_lv(h@, node_list@, 1, d, K, ks, P, m0, 0); assert(sub(h@, node_list@[0], d, K[0], K.last(), false, ks, P, m0)); }
         else { let k2 = half(K, n); assert(k2[0] == K[0]); assert(k2.last() == K[n]); let d2 = choose|d2: nat| d2 > 0 && #[trigger] sub(h@, ret, d2, k2[0], k2.last(), false, ks, P, this.m_pool_pos.i as int); assert(sub(h@, ret, d2, K[0], K.last(), false, ks, P, this.m_pool_pos.i as int)); } }'''}),
  'tb.build':dict(rlimit=60,requires=['old(this).m_pool_pos.v == old(this).m_pool_pos_end.v','H.g_seq[0].len() >= 2','left_leaf_node == H.g_seq[0][0]','lch(H, H.g_seq[0], 0)','H.node_next[H.g_seq[0].last()] == 0','old(this).m_pool_pos.i + need(H.g_seq[0].len() as int) <= old(this).m_pool_pos_end.i','old(this).m_pool_pos_end.i == old(this).m_pool_pos.v@.len()',
     'level(H, H.g_seq[0], H.g_seq[0].len() as int, 0, kseq(H, H.g_seq[0]), H.g_ks[0], old(this).m_pool_pos.v@, old(this).m_pool_pos.i as int)','H.g_ks[0].len() > 0','fresh(H, old(this).m_pool_pos.v@, old(this).m_pool_pos.i as int)'],
   ensures=['exists|d: nat| d > 0 && #[trigger] sub(H, r, d, H.node_key[H0.g_seq[0][0]] as int, H.node_key[H0.g_seq[0].last()] as int, false, H0.g_ks[0], old(this).m_pool_pos.v@, final(this).m_pool_pos.i as int)','H.g_ks == H0.g_ks'],
   loops=[dict(before='proof { lem_need(n); lem_need((n + 1) / 2); lem_lget(h@, s, 0); assert(level(h@, Seq::<Ptr>::empty(), (n + 1) / 2, 1, half(K, n), ks, P, m0)) by { reveal(level); } assert(node_list@ =~= Seq::<Ptr>::empty()); }',
     inv=['s.len() == n','n >= 2','2 * node_list@.len() < n','node1 == s[2 * node_list@.len() as int]','this.m_pool_pos.v == this.m_pool_pos_end.v','this.m_pool_pos.v@ == P','this.m_pool_pos_end.i == P.len()','need(n) == (n + 1) / 2 + need((n + 1) / 2)','need((n + 1) / 2) >= 0','m0 + need(n) <= P.len()','ks.len() > 0','lch(h@, s, 0)','h@.node_next[s.last()] == 0','K == kseq(h@, s)',
       'level(h@, s, n, 0, K, ks, P, this.m_pool_pos.i as int)','fresh(h@, P, this.m_pool_pos.i as int)','h@.g_k == h0.g_k','h@.g_d == h0.g_d','h@.g_ks == h0.g_ks'],
     xb=['level(h@, node_list@, (n + 1) / 2, 1, half(K, n), ks, P, this.m_pool_pos.i as int)','this.m_pool_pos.i == m0 + node_list@.len()'],
     dec='n - 2 * node_list@.len()',begin='let ghost hb = h@; let ghost q = node_list@.len() as int; let ghost m = this.m_pool_pos.i as int; let ghost l2 = node_list@; proof { lem_leafs(h@, s, 2 * q, K, ks, P, m); if 2 * q + 1 < n { lem_leafs(h@, s, 2 * q + 1, K, ks, P, m); } if 2 * q + 2 < n { lem_leafs(h@, s, 2 * q + 2, K, ks, P, m); } lem_lget(h@, s, 2 * q); }')],
   at={'entry':'let ghost s = h@.g_seq[0]; let ghost n = s.len() as int; let ghost P = this.m_pool_pos.v@; let ghost m0 = this.m_pool_pos.i as int; let ghost K = kseq(h@, s); let ghost ks = h@.g_ks[0]; proof { lem_lget(h@, s, 0); }',
     'after_call:tb.make_parent_node:1':'proof { lem_join(hb, h@, P[m], node1, node2, K[2 * q], K[mn(2 * q + 2, n)], s, 0, K, ks, P, m, l2); reveal(lch); }',
     'before_call:tb.build_tree_non_leaf:1':'let ghost hq = h@; gset_g_k(h, 0, Ghost(half(K, n))); gset_g_d(h, 0, Ghost(1)); proof { lem_level_g(hq, h@, node_list@, (n + 1) / 2, 1, half(K, n), ks, P, this.m_pool_pos.i as int); reveal(fresh); }',
     'exit':'proof { let k2 = half(K, n); assert(k2[0] == K[0]); assert(k2.last() == K[n]); }'}),
  # one leaf per boundary key, ascending, linked both ways, nothing stored in them
 'seg.create_leaf_node_instances':dict(rlimit=80,
   ensures=['keys@.len() < 2 ==> *final(left) == 0 && *final(right) == 0 && H == H0',
     'keys@.len() >= 2 && (exists|i: int, j: int| 0 <= i < keys@.len() && 0 <= j < keys@.len() && keys@[i] != keys@[j]) ==> exists|s: Seq<Ptr>| #[trigger] leaves(H, s, keys@) && s[0] == *final(left) && s.last() == *final(right) && (forall|j: int| 0 <= j < s.len() ==> !H0.al_node.contains(#[trigger] s[j]))',
     'forall|x: Ptr| #![trigger H.node_key[x]] #![trigger H.node_next[x]] #![trigger H.node_prev[x]] #![trigger H.nbase_is_leaf[x]] #![trigger H.node_value_leaf[x]] H0.al_node.contains(x) ==> H.node_key[x] == H0.node_key[x] && H.node_next[x] == H0.node_next[x] && H.node_prev[x] == H0.node_prev[x] && H.nbase_is_leaf[x] == H0.nbase_is_leaf[x] && H.node_value_leaf[x] == H0.node_value_leaf[x]','forall|x: Ptr| #[trigger] H0.al_node.contains(x) ==> H.al_node.contains(x)'],
   at={'entry':'let ghost mut s: Seq<Ptr> = Seq::empty(); let ghost mut hd = h@; let ghost ks0 = keys@; proof { assert(cv(spec_default_Chain()) is None) by { ch_default(); } }',
     'after_new:node:2':'',
     'exit':'proof { if ks0.len() >= 2 { let u = keys@; lem_mkl(hd, h@, h0, s, u); if s.len() >= 2 { lem_leaves(h@, h0, s, u, ks0); assert(s[0] == *left); assert(s.last() == *right); } else if exists|i: int, j: int| 0 <= i < ks0.len() && 0 <= j < ks0.len() && ks0[i] != ks0[j] { let (i, j) = choose|i: int, j: int| 0 <= i < ks0.len() && 0 <= j < ks0.len() && ks0[i] != ks0[j]; assert(ks0.contains(ks0[i]) && ks0.contains(ks0[j])); assert(u.contains(ks0[i]) && u.contains(ks0[j])); assert(false); } } }'},
   loops=[dict(before='proof { s = seq![*left]; assert(mk(h@, h0, s, keys@)) by { reveal(mk); } }',
     inv=['it.v == keys','1 <= it.i <= keys@.len()','s.len() == it.i','mk(h@, h0, s, keys@)','s[0] == *left','s.last() == prev_node','h@.al_node.contains(prev_node)','cur_node != 0','h@.al_node.contains(cur_node)','!h0.al_node.contains(cur_node)','!s.contains(cur_node)','h@.nbase_is_leaf[cur_node]','cseq(h@.node_value_leaf[cur_node].data_chain).len() == 0','h@.node_next[prev_node] == cur_node','cv(spec_default_Chain()) is None','forall|x: Ptr| #![trigger h@.node_key[x]] #![trigger h@.node_next[x]] #![trigger h@.node_prev[x]] #![trigger h@.nbase_is_leaf[x]] #![trigger h@.node_value_leaf[x]] h0.al_node.contains(x) ==> h@.node_key[x] == h0.node_key[x] && h@.node_next[x] == h0.node_next[x] && h@.node_prev[x] == h0.node_prev[x] && h@.nbase_is_leaf[x] == h0.nbase_is_leaf[x] && h@.node_value_leaf[x] == h0.node_value_leaf[x]','forall|x: Ptr| #[trigger] h0.al_node.contains(x) ==> h@.al_node.contains(x)'],
     dec='keys@.len() - it.i',begin='let ghost hb = h@; let ghost cb = cur_node; proof { lem_mkf(hb, h0, s, keys@, prev_node); assert forall|x: Ptr| #[trigger] s.contains(x) implies hb.al_node.contains(x) by { lem_mkf(hb, h0, s, keys@, x); } }',
     end='proof { lem_mk(hb, h@, h0, s, keys@, cb); let s1 = s; s = s.push(cb); assert(s1.contains(cur_node) || !s.contains(cur_node)); }',
     after='proof { hd = h@; }')]),
  'seg.build_leaf_nodes':dict(rlimit=60,requires=['this != 0','H.al_seg.contains(this)','leafs(H, this)','okst(H.seg_m_segment_store[this]@)'],
   ensures=['H.seg_m_segment_store[this]@.len() == 0 ==> H.seg_m_left_leaf[this] == 0 && H.seg_m_right_leaf[this] == 0','H.seg_m_segment_store[this]@.len() > 0 ==> leaves(H, H.g_seq[this], allkeys(H.seg_m_segment_store[this]@)) && H.g_seq[this][0] == H.seg_m_left_leaf[this] && H.g_seq[this].last() == H.seg_m_right_leaf[this]','leafs(H, this)','forall|x: Ptr| #![trigger H.node_next[x]] #![trigger H.al_node.contains(x)] H0.al_node.contains(x) ==> H.al_node.contains(x) && (H0.seg_m_left_leaf[this] == 0 || !H0.g_seq[this].contains(x) ==> H.node_next[x] == H0.node_next[x])']+['forall|x: Ptr| #![trigger H.%s[x]] x != this ==> H.%s[x] == H0.%s[x]'%(f,f,f) for f in ('seg_m_left_leaf','seg_m_right_leaf','g_seq')],
   loops=[DISC,dict(before='let ghost st = h@.seg_m_segment_store[this]@; let ghost hk = h@;',inv=['range_n == st.len()','range_i <= range_n','keys@ == allkeys(st.take(range_i as int))','st == h0.seg_m_segment_store[this]@','h@ == hk','h@.al_seg.contains(this)'],dec='range_n - range_i',begin='proof { if range_i < range_n { assert(st.take(range_i as int + 1).drop_last() =~= st.take(range_i as int)); } }',after='proof { assert(st.take(range_n as int) =~= st); }')],
   at={'entry':'broadcast use cvec_len_bound; let ghost mut hc = h@;','before_call:seg.create_leaf_node_instances':'let ghost st = h@.seg_m_segment_store[this]@; let ghost ak = allkeys(st); proof { lem_ak(st); if st.len() > 0 { lem_akc(st, 0); assert(ak[0] == st[0].start && ak[1] == st[0].end); assert(ak[0] != ak[1]); } }',
     'before_store:seg.m_left_leaf':'proof { hc = h@; }',
     'exit':'let ghost s = choose|s: Seq<Ptr>| #[trigger] leaves(hc, s, allkeys(st)) && s[0] == h@.seg_m_left_leaf[this] && s.last() == h@.seg_m_right_leaf[this]; let ghost s2 = if st.len() > 0 { s } else { h0.g_seq[this] }; gset_g_seq(h, this, Ghost(s2)); proof { if st.len() > 0 { lem_leavesg(hc, h@, s, allkeys(st)); lem_leafsi(h@, this, allkeys(st)); } else { reveal(leafs); } }'}),
 'count_leaf_nodes':dict(requires=['H.g_seq[0].len() >= 1','H.g_seq[0].len() < 0x7fff_ffff_ffff_ffff','lch(H, H.g_seq[0], 0)','left_end == H.g_seq[0][0]','right_end == H.g_seq[0].last()'],ensures=['r == H.g_seq[0].len()'],
   loops=[dict(before='let ghost ls = h0.g_seq[0]; let ghost mut i: int = 0;',inv=['0 <= i < ls.len()','p == ls[i]','p_end == ls.last()','leaf_count == i + 1'],dec='ls.len() - i',begin='proof { lem_lget(h@, ls, i); }',end='proof { i = i + 1; }',after='proof { assert(ls[i] == ls[ls.len() - 1]); assert(i == ls.len() - 1) by { reveal(lch); } }')]),
 'count_needed_nonleaf_nodes':dict(requires=['1 <= leaf_count < 0x3fff_ffff_ffff_ffff'],ensures=['r == need(leaf_count as int)'],
   loops=[dict(inv=['1 <= leaf_count <= leaf_count__0','nonleaf_count + need(leaf_count as int) == need(leaf_count__0 as int)'],dec='leaf_count',begin='proof { lem_needb(leaf_count as int); lem_need(leaf_count as int); lem_needb(leaf_count__0 as int); lem_needb((leaf_count as int + 1) / 2); }')]),
 # the tree is rebuilt from the store: afterwards it is valid and exact
 'seg.build_tree':dict(rlimit=80,requires=['this != 0','H.al_seg.contains(this)','leafs(H, this)','okd(H.seg_m_segment_store[this]@)'],
   ensures=['leafs(H, this)','H.seg_m_segment_store[this]@ == live(H0.seg_m_segment_store[this]@)','H.seg_m_segment_store[this]@.len() > 0 ==> H.seg_m_valid_tree[this]','seg_ok(H, this)','forall|x: Ptr| x != this ==> (#[trigger] H.g_seq[x]) == H0.g_seq[x] || x == 0','forall|x: Ptr| #![trigger H.node_next[x]] #![trigger H.al_node.contains(x)] H0.al_node.contains(x) ==> H.al_node.contains(x) && (H0.seg_m_left_leaf[this] == 0 || !H0.g_seq[this].contains(x) ==> H.node_next[x] == H0.node_next[x])']+['forall|x: Ptr| #![trigger H.%s[x]] x != this ==> H.%s[x] == H0.%s[x]'%(f,f,f) for f in SEGF[:-1]],
   at={'entry':'broadcast use cvec_len_bound; let ghost mut hp = h@; let ghost mut hm = h@; let ghost mut hl = h@; let ghost mut m1: int = 0; let ghost mut P: Seq<Ptr> = Seq::empty(); let ghost mut d: nat = 0; let ghost mut st: Seq<sgt> = Seq::empty(); let ghost mut ks: Seq<i64> = Seq::empty(); let ghost mut ls: Seq<Ptr> = Seq::empty(); let ghost mut lk: int = 0; let ghost mut hk: int = 0; let ghost mut rt: Ptr = 0;',
     'before_call:seg.build_leaf_nodes':'proof { lem_live(h0.seg_m_segment_store[this]@); lem_leafsf(h0, h@, this); }',
     'before_call:count_leaf_nodes':'proof { st = h@.seg_m_segment_store[this]@; ks = allkeys(st); lem_ak(st); ls = h@.g_seq[this]; lem_leavesp(ha, h@, ls, ks); lem_lvs(h@, ls, ks); lk = h@.node_key[ls[0]] as int; hk = h@.node_key[ls.last()] as int; } gset_g_seq(h, 0, Ghost(ls)); gset_g_ks(h, 0, Ghost(ks)); proof { lem_leavesp(ha, h@, ls, ks); lem_lvs(h@, ls, ks); lem_needb(ls.len() as int); hp = h@; }',
     'before_call:tb.build':'proof { lem_fresh0(h@, builder.m_pool_pos.v@); lem_leavesp(hp, h@, ls, ks); lem_lvs(h@, ls, ks); lem_l00(h@, ls, ks, builder.m_pool_pos.v@); hp = h@; P = builder.m_pool_pos.v@; }',
     'after_call:tb.build':'proof { hm = h@; d = choose|d2: nat| d2 > 0 && #[trigger] sub(hm, t19, d2, hm.node_key[ls[0]] as int, hm.node_key[ls.last()] as int, false, ks, P, builder.m_pool_pos.i as int); m1 = builder.m_pool_pos.i as int; }','after_call:seg.build_leaf_nodes':'let ghost ha = h@; proof { if h@.seg_m_segment_store[this]@.len() > 0 { lem_lvs(ha, h@.g_seq[this], allkeys(h@.seg_m_segment_store[this]@)); } }',
     'exit':'proof { if st.len() == 0 { reveal(seg_ok); reveal(leafs); } else { assert(h@.g_seq[this] == ls); assert(ha.g_seq[this] == ls); lem_leafsf(ha, h@, this); lem_upf(hl, h@, rt, d, lk, hk, ks, st, st.len() as int); lem_okend(h@, this, ls, ks, hp, d); } }'},
   loops=[dict(before='proof { rt = h@.seg_m_root_node[this]; lem_sub_g(hm, h@, rt, d, lk, hk, false, ks, P, m1); lem_u0(h@, rt, d, lk, hk, ks, P, m1, st); }',inv=['i <= st.len()','st == h@.seg_m_segment_store[this]@','rt == h@.seg_m_root_node[this]','tagged_node_map@.len() == i','ks == allkeys(st)','upto(h@, rt, d, lk, hk, ks, st, i as int)','h@.g_seq == hl1.g_seq','h@.g_ks == hl1.g_ks'],dec='st.len() - i',
     begin='let ghost hb = h@; let ghost ib = i; proof { if i < st.len() { lem_akc(st, i as int); lem_ut(hb, rt, d, lk, hk, ks, st, i as int, st[i as int].start, st[i as int].end); } }',
     end='proof { lem_u1(hb, h@, rt, d, lk, hk, ks, st, ib); }',after='proof { hl = h@; }')]),
 'seg.clear':dict(requires=['this != 0','H.al_seg.contains(this)','leafs(H, this)'],
   ensures=['H.seg_m_segment_store[this]@ =~= Seq::<sgt>::empty()','H.seg_m_nonleaf_node_pool[this]@ =~= Seq::<Ptr>::empty()','!H.seg_m_valid_tree[this]','H.seg_m_root_node[this] == 0','H.seg_m_left_leaf[this] == 0','H.seg_m_right_leaf[this] == 0','leafs(H, this)','seg_ok(H, this)',
     'forall|x: Ptr| x != this ==> '+' && '.join('(#[trigger] H.%s[x]) == H0.%s[x]'%(f,f) for f in SEGF[:1]),
     'forall|x: Ptr| !H0.g_seq[this].contains(x) ==> (#[trigger] H.node_next[x]) == H0.node_next[x] && H.node_prev[x] == H0.node_prev[x]'],
   loops=[DISC],at={'exit':'proof { reveal(leafs); reveal(seg_ok); }'}),
 'seg.ctor/0':dict(requires=['this != 0','H.al_seg.contains(this)'],ensures=['H.seg_m_segment_store[this]@ =~= Seq::<sgt>::empty()','H.seg_m_nonleaf_node_pool[this]@ =~= Seq::<Ptr>::empty()','!H.seg_m_valid_tree[this]','H.seg_m_root_node[this] == 0','H.seg_m_left_leaf[this] == 0','H.seg_m_right_leaf[this] == 0']),
 'seg.ctor/1#m':dict(bind='seg.ctor/1',where=r'&&',requires=['this != 0','r != 0','this != r','H.al_seg.contains(this)','H.al_seg.contains(r)'],
   ensures=['seg_ok(H0, r) ==> seg_ok(H, this)']+['H.%s[this] == H0.%s[r]'%(f,f) for f in SEGF]+['!H.seg_m_valid_tree[r]','H.seg_m_root_node[r] == 0','H.seg_m_segment_store[r]@ =~= Seq::<sgt>::empty()','H.seg_m_left_leaf[r] == 0','H.seg_m_right_leaf[r] == 0']+['forall|x: Ptr| #![trigger H.%s[x]] x != this && x != r ==> H.%s[x] == H0.%s[x]'%(f,f,f) for f in SEGF],
   at={'exit':'let ghost s = h0.g_seq[r]; gset_g_seq(h, this, Ghost(s)); proof { lem_okmv(h0, h@, r, this); }'}),
 'seg.dtor':dict(requires=['this != 0','H.al_seg.contains(this)','leafs(H, this)'],ensures=['H.al_seg == H0.al_seg','H.al_node == H0.al_node','H.al_nl == H0.al_nl','H.g_seq == H0.g_seq','H.seg_m_segment_store == H0.seg_m_segment_store','H.seg_m_valid_tree == H0.seg_m_valid_tree','H.node_key == H0.node_key','H.node_value_leaf == H0.node_value_leaf']+['forall|x: Ptr| #![trigger H.%s[x]] x != this ==> H.%s[x] == H0.%s[x]'%(f,f,f) for f in SEGF]+
     ['forall|x: Ptr| #![trigger H.node_next[x]] #![trigger H.node_prev[x]] #![trigger H.nbase_parent[x]] H0.seg_m_left_leaf[this] == 0 || !H0.g_seq[this].contains(x) ==> H.node_next[x] == H0.node_next[x] && H.node_prev[x] == H0.node_prev[x] && H.nbase_parent[x] == H0.nbase_parent[x]'],loops=[DISC]),
 'seg.operator=#m':dict(bind='seg.operator=',where='&&',requires=['this != 0','r != 0','this != r','H.al_seg.contains(this)','H.al_seg.contains(r)','leafs(H, this)'],
   ensures=['RES == this','seg_ok(H0, r) ==> seg_ok(H, this)','leafs(H0, r) && apart(H0, this, r) ==> leafs(H, this)']+['H.%s[this] == H0.%s[r]'%(f,f) for f in SEGF]+['!H.seg_m_valid_tree[r]','H.seg_m_root_node[r] == 0','H.seg_m_segment_store[r]@ =~= Seq::<sgt>::empty()','H.seg_m_left_leaf[r] == 0','H.seg_m_right_leaf[r] == 0'],at={'entry':'let ghost mut hs = h@;','after_call:seg.swap':'proof { hs = h@; lem_lmv(h0, h@, this, tmp); lem_lmv(h0, h@, r, this); lem_okmv(h0, h@, r, this); }',
     'exit':'proof { lem_okmv(hs, h@, this, this); if leafs(h0, r) && apart(h0, this, r) { reveal(leafs); } }'}),
 'seg.ctor/1#c':dict(bind='seg.ctor/1',where=r'const (mdds::)?segment_tree',requires=['this != 0','r != 0','this != r','H.al_seg.contains(this)','H.al_seg.contains(r)','okd(H.seg_m_segment_store[r]@)'],
   ensures=['H.seg_m_segment_store[this]@ == if H0.seg_m_valid_tree[r] { live(H0.seg_m_segment_store[r]@) } else { H0.seg_m_segment_store[r]@ }','seg_ok(H, this)','leafs(H, this)','H0.seg_m_valid_tree[r] && H.seg_m_segment_store[this]@.len() > 0 ==> H.seg_m_valid_tree[this]',
     '!H0.seg_m_valid_tree[r] ==> !H.seg_m_valid_tree[this]','forall|x: Ptr| #![trigger H.node_next[x]] #![trigger H.al_node.contains(x)] H0.al_node.contains(x) ==> H.al_node.contains(x) && H.node_next[x] == H0.node_next[x]','forall|x: Ptr| x != this ==> (#[trigger] H.g_seq[x]) == H0.g_seq[x] || x == 0']+['forall|x: Ptr| #![trigger H.%s[x]] x != this ==> H.%s[x] == H0.%s[x]'%(f,f,f) for f in SEGF[:-1]],
   at={'exit':'proof { if !h0.seg_m_valid_tree[r] { reveal(seg_ok); reveal(leafs); } }','before_call:seg.build_tree':'proof { reveal(leafs); }'}),
 'seg.operator=#c':dict(bind='seg.operator=',where=r'const (mdds::)?segment_tree',requires=['this != 0','r != 0','this != r','H.al_seg.contains(this)','H.al_seg.contains(r)','okd(H.seg_m_segment_store[r]@)','leafs(H, this)'],
   ensures=['RES == this','H.seg_m_segment_store[this]@ == if H0.seg_m_valid_tree[r] { live(H0.seg_m_segment_store[r]@) } else { H0.seg_m_segment_store[r]@ }','seg_ok(H, this)','H0.seg_m_valid_tree[r] && H.seg_m_segment_store[this]@.len() > 0 ==> H.seg_m_valid_tree[this]',
     '!H0.seg_m_valid_tree[r] ==> !H.seg_m_valid_tree[this]','H.seg_m_segment_store[r] == H0.seg_m_segment_store[r]','H.seg_m_valid_tree[r] == H0.seg_m_valid_tree[r]'],
   at={'entry':'let ghost mut hs = h@; let ghost mut hq = h@;','before_call:seg.swap':'proof { hq = h@; lem_lgrow(h0, h@, this); }','after_call:seg.swap':'proof { hs = h@; lem_lmv(hq, h@, this, tmp); lem_okmv(hq, h@, tmp, this); }',
     'exit':'proof { lem_okmv(hs, h@, this, this); }'}),
 'erase_deleted_segments':dict(ensures=['final(segments)@ == live(old(segments)@)'],
   loops=[dict(before='let ghost s0 = (*segments)@;',inv=['range_n == s0.len()','range_i <= range_n','(*segments)@.len() == s0.len()','forall|j: int| range_i <= j < range_n ==> (*segments)@[j] == s0[j]','compacted@ == live(s0.take(range_i as int))'],dec='range_n - range_i',
      begin='proof { if range_i != range_n { assert(s0.take(range_i as int + 1).drop_last() =~= s0.take(range_i as int)); } }',after='proof { assert(s0.take(range_n as int) =~= s0); }')]),

 # one occurrence of the value goes; every other value stays
 'seg.remove_data_from_chain':dict(ensures=['forall|w: u64| (#[trigger] cnt(final(chain)@, w)) == cnt(old(chain)@, w) - b2(w == value && cnt(old(chain)@, value) > 0)'],
   loops=[dict(inv=['lib_it.v == *chain','lib_it.i <= (*chain)@.len()','forall|j: int| 0 <= j < lib_it.i ==> (*chain)@[j] != value'],dec='(*chain)@.len() - lib_it.i',after='proof { k = lib_it.i as int; }')],
   at={'entry':'let ghost mut k: int = 0; let ghost s0 = (*chain)@;','exit':'''proof { assert forall|w: u64| (#[trigger] cnt((*chain)@, w)) == cnt(s0, w) - b2(w == value && cnt(s0, value) > 0) by { if k == s0.len() { lem_nin(s0, value); } else { let l = s0.last(); let u = s0.update(k, l); lem_upd(s0, k, l, w); lem_upd(s0, k, l, value); assert((*chain)@ =~= u.drop_last()); assert(u.last() == l);
        let v2 = s0.update(k, l); lem_nneg(u.drop_last(), value); if l == value { } else { lem_nneg(u.drop_last(), value); } assert(cnt(s0, value) > 0) by { lem_pos(s0, k); } } } }'''}),
 'seg.size':dict(requires=['this != 0','H.al_seg.contains(this)'],ensures=['r == live(H.seg_m_segment_store[this]@).len()'],
   loops=[dict(before='let ghost s0 = h@.seg_m_segment_store[this]@; broadcast use cvec_len_bound;',inv=['lib_it.v@ == s0','t5.v@ == s0','t5.i == s0.len()','s0.len() < 0x1000_0000_0000_0000','lib_it.i <= s0.len()','0 <= lib_n <= lib_it.i','lib_n == live(s0.take(lib_it.i as int)).len()'],dec='s0.len() - lib_it.i',begin='proof { if lib_it.i < s0.len() { assert(s0.take(lib_it.i as int + 1).drop_last() =~= s0.take(lib_it.i as int)); } }',after='proof { assert(s0.take(s0.len() as int) =~= s0); }')]),'seg.empty':dict(requires=['this != 0','H.al_seg.contains(this)'],ensures=['r == (live(H.seg_m_segment_store[this]@).len() == 0)']),
}
def isch(tr,o):
    from cxx2verus import Unsupported
    try: l=tr.lv(o)
    except Unsupported: return None
    return l if l.ty==CH else None
def libmember(tr,e,cal,obj,name,args,arrow):
    from cxx2verus import qt,kids,Unsupported
    o=tr.skip(obj)
    if name=='erase' and len(args)==2 and not arrow:
        # v.erase(std::unique(v.begin(), v.end()), v.end())
        x=tr.skip(args[0])
        while x['kind'] in('CXXConstructExpr','MaterializeTemporaryExpr','ExprWithCleanups','CXXMemberCallExpr','CXXBindTemporaryExpr') and len(kids(x))==1: x=tr.skip(kids(x)[0])
        if x['kind']=='CallExpr' and 'unique' in str(kids(x)[0])[:2000]:
            tr.ev(x); lv=tr.lv(o)
            if tr.uniq_of.root!=lv.root: raise Unsupported('unique of another container')
            y=tr.skip(args[1])
            while y['kind']!='CXXMemberCallExpr': y=tr.skip(kids(y)[0])
            while tr.skip(kids(y)[0]).get('name') not in('end','cend'): y=tr.skip(kids(y)[0])
            tr.store(lv,tr.let('ks_uniq(%s)'%tr.load(lv),lv.ty)); return ('()',('void',))
    if name=='operator bool':
        l=isch(tr,obj)
        if l: return (tr.let('ch_some(%s)'%tr.load(l),('b',)),('b',))
    if name=='get' and not args:
        l=isch(tr,obj)
        if l: return (tr.load(l),CH)
    if name in('push_back','empty','size') and arrow:
        # through -> of a chain pointer: the chain itself
        if o['kind']=='CXXOperatorCallExpr': o=tr.skip(kids(o)[1])
        l=isch(tr,o)
        if l:
            if name=='push_back':
                v=tr.let(tr.icast(tr.ev(args[0]),U)[0],U); tr.store(l,tr.let('ch_push(%s, %s)'%(tr.load(l),v),CH)); return ('()',('void',))
            t=U if name=='size' else ('b',); return (tr.let('ch_%s(%s)'%(name,tr.load(l)),t),t)
    if name=='push_back' and not arrow:
        l=tr.lv(obj)
        if l.ty==('v','NodeV'):
            v=tr.ev(args[0]); tr.store(l,tr.let('nodev_push(%s, %s)'%(tr.load(l),v[0]),l.ty)); return ('()',('void',))
    if name=='emplace' and not arrow and len(args)==1:
        l=tr.lv(o)
        if l.ty==TAGS:
            # std::map with the keys 0..n-1, inserted in that order (an obligation)
            v=tr.ev(args[0]); n=tr.let('%s.len()'%tr.load(l),U); tr.emit('assert(%s.first == %s);'%(v[0],n)); tr.store(l,tr.let('%s.push(%s)'%(tr.load(l),v[0]),l.ty)); tr.empmap=l
            return (tr.let('Pair_u64_bool { first: %s, second: true }'%n,EMP),EMP)
    if name=='resize' and not arrow and len(args)==1:
        l=tr.lv(o)
        if l.ty==('vec',('p','nl')):
            n=tr.icast(tr.ev(args[0]),U)[0]
            tr.write('al_nl')
            for f in ('nbase_parent','nbase_is_leaf','nl_value_nonleaf','nl_low','nl_high','nl_left','nl_right'): tr.write(f)
            tr.emit('assert(%s@.len() == 0);'%tr.load(l)); tr.store(l,tr.let('pool_new(h, %s)'%n,l.ty)); return ('()',('void',))
    if name in('clear','swap') and not arrow:
        try: l=tr.lv(o)
        except Unsupported: return None
        if l.ty==('vec',('p','nl')) and name=='resize': pass
    if name in('operator bool','empty','push_back','reset'):
        if o['kind']=='CXXOperatorCallExpr' and arrow: o=tr.skip(kids(o)[1])
        try: l=tr.lv(o)
        except Unsupported: return None
        if l.ty==('v','Res'):
            if name=='operator bool': return (tr.let('res_some(%s)'%tr.load(l),('b',)),('b',))
            if name=='empty': return (tr.let('res_empty(%s)'%tr.load(l),('b',)),('b',))
            if name=='reset': tr.store(l,tr.let('res_new()',l.ty)); return ('()',('void',))
            v=tr.ev(args[0]); tr.store(l,tr.let('res_push(%s, %s)'%(tr.load(l),v[0]),l.ty)); return ('()',('void',))
        if l.ty==('v','TagsX') and name=='clear': tr.store(l,tr.let('default_Tags()',l.ty)); return ('()',('void',))
    return None
def libop(tr,e,name,args,want_lv):
    from cxx2verus import qt,kids,Unsupported
    if name=='operator*' and len(args)==1 and want_lv and getattr(tr,'findvec',None) is not None:
        i=tr.ev(args[0])
        if i[1]==('it',U):
            # a store through an iterator goes to the container it was found in
            tr.emit('assert(%s.v@ == %s@);'%(i[0],tr.load(tr.findvec))); return tr.findvec.i(tr.let('%s.i'%i[0],U),U)
    if name=='operator->' and len(args)==1:
        try: i=tr.ev(args[0])
        except Unsupported: return None
        if i[1]==U: return tr.empmap.i(i[0],('r','Pair_u64_NodeV'))
    if name=='operator=' and len(args)==2:
        l=isch(tr,args[0])
        if l: v=tr.ev(args[1]); tr.store(l,v[0]); return l
    return None
def libcall(tr,e,name,args,want_lv):
    if name=='make_pair' and len(args)==2:
        a=tr.ev(args[0]); b=tr.ev(args[1])
        if b[1]==('v','NodeV'): t=('r','Pair_u64_NodeV'); return (tr.let('Pair_u64_NodeV { first: %s, second: %s }'%(a[0],b[0]),t),t)
    from cxx2verus import qt
    if name in('sort','unique') and len(args)==2:
        from cxx2verus import kids,Unsupported
        x=tr.skip(args[0]); y=tr.skip(args[1])
        if x['kind']!='CXXMemberCallExpr' or y['kind']!='CXXMemberCallExpr': return None
        mx=tr.skip(kids(x)[0]); my=tr.skip(kids(y)[0])
        if mx.get('name')!='begin' or my.get('name')!='end': raise Unsupported('%s of a part'%name)
        lv=tr.lv(tr.skip(kids(mx)[0])); l2=tr.lv(tr.skip(kids(my)[0]))
        if lv.ty!=('vec',('i','i64')) or lv.root!=l2.root or lv.path or l2.path: return None
        if name=='sort': tr.store(lv,tr.let('ks_sort(%s)'%tr.load(lv),lv.ty)); return ('()',('void',))
        tr.uniq_of=lv; return (tr.let('%s.begin()'%tr.load(lv),('it',('i','i64'))),('it',('i','i64')))
    if name=='find' and len(args)==3:
        from cxx2verus import kids,Unsupported
        x=tr.skip(args[0])
        if x['kind']=='CXXMemberCallExpr': tr.findvec=tr.lv(tr.skip(kids(kids(x)[0])[0]))
        return None
    if name=='make_unique' and 'unique_ptr<std::vector<unsigned long' in qt(e): return (tr.let('ch_new()',CH),CH)
    return None

