import re
from base import *
NAME='fst'
DRIVER='''
#include <cstddef>
struct Val { unsigned long id; };
bool operator==(const Val&, const Val&);
bool operator!=(const Val&, const Val&);
#include <mdds/flat_segment_tree.hpp>
template class mdds::flat_segment_tree<long, Val>;
'''
HEAP={'node':r'^mdds::st::detail::node<','nl':r'^mdds::st::detail::nonleaf_node<','fst':r'flat_segment_tree<long,Val>$'}
ABSTRACT={'nbase':r'node_base<>$'}
RECORDS={'leafval':r'flat_segment_tree::leaf_value_type<','nlval':r'flat_segment_tree::nonleaf_value_type<','cit':r'flat_segment_tree::const_iterator<','segval':r'const_segment_iterator::value_type<','segit':r'const_segment_iterator<mdds'}
OPAQUE=['Val']
TYPES_RAW=[(r'^(const )?std::vector<mdds::st::detail::nonleaf_node<[^*]*>>( \*)?$',('vec',('p','nl')))]
TYPES=[(r'^(mdds::st::detail::|st::detail::)?node<.*>$',('p','node',1)),(r'^(mdds::st::detail::|st::detail::)?nonleaf_node<.*>$',('p','nl',1)),
 (r'^(boost::)?intrusive_ptr<.*>$',('p','node')),(r'^node_ptr$',('p','node')),
 (r'^(leaf_)?node$|^(typename )?fst_type::node$',('p','node',1)),(r'^nonleaf_node$',('p','nl',1)),(r'^node_base$|^mdds::st::detail::node_base$|^st::detail::node_base$',('p','nbase',1)),
 (r'^(mdds::)?flat_segment_tree<long, Val>$|^(.*::)?fst_type$|^flat_segment_tree$',('p','fst',1)),
 (r'.*const_iterator_base<.*forward.*>$',('r','cit')),(r'^(mdds::flat_segment_tree<.*>::|typename flat_segment_tree<.*>::)?const_iterator$',('r','cit')),
 (r'^.*::leaf_value_type$|^leaf_value_type$',('r','leafval')),(r'^.*::nonleaf_value_type$|^nonleaf_value_type$',('r','nlval')),
 (r'^.*const_segment_iterator<.*>$|^const_segment_iterator$',('r','segit')),(r'^Val$',('v','Val')),
 (r'^(.*::)?key_type$|^long$',('i','i64')),(r'^(.*::)?value_type$',('v','Val')),(r'^size_type$',('i','u64'))]
SKIP_FIELDS={'refcount'}
FIELD_OWNER={('node','is_leaf'):'nbase',('nl','is_leaf'):'nbase',('node','parent'):'nbase',('nl','parent'):'nbase'}
OWNER_ALLOC={'nbase':['node','nl']}
FIELD_TYPES={'segit.m_node':('r','segval')}

GHOST=[('g_seq','Seq<Ptr>')]
PRELUDE=r"""
pub open spec fn k_of(h: Heap, p: Ptr) -> i64 { h.node_key[p] }
pub open spec fn v_of(h: Heap, p: Ptr) -> Val { h.node_value_leaf[p].value }
// the leaf chain s: linked both ways, strictly increasing keys
pub open spec fn linked(h: Heap, s: Seq<Ptr>) -> bool {
    &&& s.len() >= 2
    &&& forall|i: int| 0 <= i < s.len() ==> h.al_node.contains(#[trigger] s[i])
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] h.node_next[s[i]] == (if i + 1 < s.len() { s[i + 1] } else { 0 })
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] h.node_prev[s[i]] == (if i > 0 { s[i - 1] } else { 0 })
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] h.nbase_is_leaf[s[i]]
}
#[verifier::opaque] pub open spec fn sorted(h: Heap, s: Seq<Ptr>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] h.node_key[s[i]]) < #[trigger] h.node_key[s[j]]
}
// no two neighbouring segments carry the same value
#[verifier::opaque] pub open spec fn canon(h: Heap, s: Seq<Ptr>) -> bool {
    forall|i: int, j: int| #![trigger h.node_value_leaf[s[i]], h.node_value_leaf[s[j]]] 0 <= i && j == i + 1 && j + 1 < s.len() ==> h.node_value_leaf[s[i]].value != h.node_value_leaf[s[j]].value
}
#[verifier::opaque] pub open spec fn at(s: Seq<Ptr>, p: Ptr) -> int { choose|i: int| 0 <= i < s.len() && s[i] == p }
pub open spec fn covers(h: Heap, s: Seq<Ptr>, i: int, k: int) -> bool {
    0 <= i && i + 1 < s.len() && k_of(h, s[i]) <= k && k < k_of(h, s[i + 1])
}
pub open spec fn seg_of(h: Heap, s: Seq<Ptr>, k: int) -> int { choose|i: int| covers(h, s, i, k) }
// the abstract map: the value of the key k
pub open spec fn look(h: Heap, s: Seq<Ptr>, k: int) -> Val { v_of(h, s[seg_of(h, s, k)]) }
pub open spec fn kmin(h: Heap, t: Ptr) -> i64 { k_of(h, h.fst_m_left_leaf[t]) }
pub open spec fn kmax(h: Heap, t: Ptr) -> i64 { k_of(h, h.fst_m_right_leaf[t]) }

pub open spec fn wf0(h: Heap, t: Ptr) -> bool {
    let s = h.g_seq[t];
    &&& h.al_fst.contains(t)
    &&& !h.al_node.contains(0) && !h.al_nl.contains(0)
    &&& linked(h, s) && sorted(h, s)
    &&& s[0] == h.fst_m_left_leaf[t] && s[s.len() - 1] == h.fst_m_right_leaf[t]
    &&& v_of(h, s[s.len() - 1]) == spec_default_Val()
}
pub open spec fn wf(h: Heap, t: Ptr) -> bool { wf0(h, t) && canon(h, h.g_seq[t]) && (h.fst_m_valid_tree[t] ==> tree_ok(h, t)) }

// ---- the non-leaf tree: node n at height d covers the leaves [lo, hi)
pub open spec fn top(h: Heap, s: Seq<Ptr>, hi: int) -> i64 { k_of(h, s[if hi < s.len() { hi } else { s.len() - 1 }]) }
pub open spec fn trig(i: int) -> bool { true }
pub open spec fn tree(h: Heap, s: Seq<Ptr>, n: Ptr, d: nat, lo: int, hi: int) -> bool
    decreases d
{
    &&& h.al_nl.contains(n) && n != 0 && !h.nbase_is_leaf[n]
    &&& 0 <= lo < hi <= s.len()
    &&& h.nl_low[n] == k_of(h, s[lo]) && h.nl_high[n] == top(h, s, hi)
    &&& if d == 0 { false } else if d == 1 {
            &&& h.nl_left[n] == s[lo]
            &&& (hi == lo + 2 && h.nl_right[n] == s[lo + 1]) || (hi == lo + 1 && hi == s.len() && h.nl_right[n] == 0)
        } else {
            &&& exists|mid: int| #[trigger] trig(mid) && tree(h, s, h.nl_left[n], (d - 1) as nat, lo, mid) && (
                (mid == hi && h.nl_right[n] == 0) || (mid < hi && tree(h, s, h.nl_right[n], (d - 1) as nat, mid, hi)))
        }
}
#[verifier::opaque] pub open spec fn tree_ok(h: Heap, t: Ptr) -> bool {
    let s = h.g_seq[t];
    h.fst_m_root_node[t] == 0 || exists|d: nat| #[trigger] tree(h, s, h.fst_m_root_node[t], d, 0, s.len() as int)
}

pub proof fn lemma_at(s: Seq<Ptr>, h: Heap, i: int)
    requires sorted(h, s), 0 <= i < s.len()
    ensures at(s, s[i]) == i, s.contains(s[i])
{ reveal(sorted); reveal(at); let j = at(s, s[i]); assert(0 <= i < s.len() && s[i] == s[i]); assert(s[j] == s[i]); assert(h.node_key[s[j]] == h.node_key[s[i]]); if j < i {} else if i < j {} }
pub proof fn lemma_at2(s: Seq<Ptr>, p: Ptr)
    requires s.contains(p)
    ensures 0 <= at(s, p) < s.len(), s[at(s, p)] == p
{ reveal(at); }
pub proof fn lemma_lt(h: Heap, s: Seq<Ptr>, i: int, j: int)
    requires sorted(h, s), 0 <= i < j < s.len()
    ensures k_of(h, s[i]) < k_of(h, s[j]), s[i] != s[j], h.node_key[s[i]] < h.node_key[s[j]]
{ reveal(sorted); assert(h.node_key[s[i]] < h.node_key[s[j]]); }
pub proof fn lemma_diff(h: Heap, s: Seq<Ptr>, i: int)
    requires sorted(h, s)
    ensures 0 <= i < s.len() ==> at(s, s[i]) == i && s.contains(s[i]), forall|m: int| 0 <= m < s.len() && 0 <= i < s.len() && m != i ==> #[trigger] s[m] != s[i]
{ reveal(sorted); if 0 <= i < s.len() { lemma_at(s, h, i); assert(h.node_key[s[i]] == h.node_key[s[i]]);
  assert forall|m: int| 0 <= m < s.len() && m != i implies #[trigger] s[m] != s[i] by { if m < i { lemma_lt(h, s, m, i); } else { lemma_lt(h, s, i, m); } } } }
pub proof fn lemma_look(h: Heap, s: Seq<Ptr>, i: int, k: int)
    requires sorted(h, s), covers(h, s, i, k)
    ensures seg_of(h, s, k) == i, look(h, s, k) == v_of(h, s[i])
{ reveal(sorted); let j = seg_of(h, s, k); assert(covers(h, s, j, k)); if j < i { if j + 1 < i {} } else if i < j { if i + 1 < j {} } }
pub proof fn lemma_seg(h: Heap, s: Seq<Ptr>, k: int) -> (i: int)
    requires sorted(h, s), s.len() >= 2, k_of(h, s[0]) <= k < k_of(h, s[s.len() - 1])
    ensures covers(h, s, i, k), seg_of(h, s, k) == i
{
    let i = lemma_seg_rec(h, s, k, s.len() - 1); lemma_look(h, s, i, k); i
}
proof fn lemma_seg_rec(h: Heap, s: Seq<Ptr>, k: int, n: int) -> (i: int)
    requires sorted(h, s), s.len() >= 2, k_of(h, s[0]) <= k < k_of(h, s[n]), 0 <= n < s.len()
    ensures covers(h, s, i, k)
    decreases n
{
    if n > 0 && k_of(h, s[n - 1]) <= k { n - 1 } else { lemma_seg_rec(h, s, k, n - 1) }
}
pub proof fn lemma_tree_frame(h0: Heap, h: Heap, s: Seq<Ptr>, n: Ptr, d: nat, lo: int, hi: int)
    requires tree(h0, s, n, d, lo, hi), h.al_nl == h0.al_nl, h.nbase_is_leaf == h0.nbase_is_leaf, h.nl_low == h0.nl_low, h.nl_high == h0.nl_high,
        h.nl_left == h0.nl_left, h.nl_right == h0.nl_right, h.node_key == h0.node_key
    ensures tree(h, s, n, d, lo, hi)
    decreases d
{
    if d > 1 {
        let mid = choose|mid: int| #[trigger] trig(mid) && tree(h0, s, h0.nl_left[n], (d - 1) as nat, lo, mid) && (
                (mid == hi && h0.nl_right[n] == 0) || (mid < hi && tree(h0, s, h0.nl_right[n], (d - 1) as nat, mid, hi)));
        lemma_tree_frame(h0, h, s, h0.nl_left[n], (d - 1) as nat, lo, mid);
        if mid < hi { lemma_tree_frame(h0, h, s, h0.nl_right[n], (d - 1) as nat, mid, hi); }
        assert(trig(mid));
    }
}
pub proof fn lemma_tree_ok_frame(h0: Heap, h: Heap, t: Ptr)
    requires tree_ok(h0, t), h.al_nl == h0.al_nl, h.nbase_is_leaf == h0.nbase_is_leaf, h.nl_low == h0.nl_low, h.nl_high == h0.nl_high,
        h.nl_left == h0.nl_left, h.nl_right == h0.nl_right, h.node_key == h0.node_key, h.g_seq[t] == h0.g_seq[t], h.fst_m_root_node[t] == h0.fst_m_root_node[t]
    ensures tree_ok(h, t)
{
    reveal(tree_ok);
    let s = h.g_seq[t];
    if h.fst_m_root_node[t] != 0 {
        let d = choose|d: nat| #[trigger] tree(h0, s, h.fst_m_root_node[t], d, 0, s.len() as int);
        lemma_tree_frame(h0, h, s, h.fst_m_root_node[t], d, 0, s.len() as int);
    }
}
// the spine s of h0 becomes g in h: g is s[0..p-1], ns, at most one node n2, s[jj..]
#[verifier::opaque] pub open spec fn spliced(h0: Heap, h: Heap, s: Seq<Ptr>, g: Seq<Ptr>, p: int, q: int, j: int, jj: int, start: int, end: int, val: Val) -> bool {
    &&& s.len() >= 2 && start < end && 1 <= p && (q == p || q == p + 1) && p - 1 <= j < s.len() && j >= 1 && (jj == j || jj == j + 1) && jj < s.len()
    &&& g.len() == q + s.len() - jj
    &&& forall|x: int| #![trigger g[x]] 0 <= x < p - 1 ==> g[x] == s[x]
    &&& forall|x: int| #![trigger g[x]] q <= x < g.len() ==> g[x] == s[jj + x - q]
    &&& forall|x: int| #![trigger s[x]] 0 <= x < s.len() ==> k_of(h, s[x]) == k_of(h0, s[x])
    &&& forall|x: int| #![trigger s[x]] 0 <= x < s.len() && (x < p - 1 || x >= j) ==> v_of(h, s[x]) == v_of(h0, s[x])
    &&& k_of(h, g[p - 1]) <= start && v_of(h, g[p - 1]) == val
    &&& k_of(h0, s[0]) <= k_of(h, g[p - 1])
    &&& k_of(h, g[p - 1]) < start ==> p <= j && k_of(h0, s[p - 1]) == k_of(h, g[p - 1]) && v_of(h0, s[p - 1]) == val && start <= k_of(h0, s[p])
    &&& p >= 2 ==> k_of(h0, s[p - 2]) < k_of(h, g[p - 1]) && v_of(h0, s[p - 2]) != val
    &&& k_of(h, g[p - 1]) <= k_of(h0, s[p - 1])
    &&& k_of(h0, s[j - 1]) < end <= k_of(h0, s[j])
    &&& q == p + 1 ==> jj == j && k_of(h, g[p]) == end && v_of(h, g[p]) == v_of(h0, s[j - 1]) && v_of(h0, s[j - 1]) != val && end < k_of(h0, s[j])
    &&& q == p && jj == j + 1 ==> k_of(h0, s[j]) == end && v_of(h0, s[j]) == val
    &&& q == p && jj == j && end == k_of(h0, s[j]) ==> j == s.len() - 1 || v_of(h0, s[j]) != val
    &&& q == p && jj == j && end < k_of(h0, s[j]) ==> v_of(h0, s[j - 1]) == val
}
pub proof fn lemma_splice_ends(h0: Heap, h: Heap, s: Seq<Ptr>, g: Seq<Ptr>, p: int, q: int, j: int, jj: int, start: int, end: int, val: Val)
    requires sorted(h0, s), spliced(h0, h, s, g, p, q, j, jj, start, end, val)
    ensures k_of(h, g[0]) == k_of(h0, s[0]), k_of(h, g[g.len() - 1]) == k_of(h0, s[s.len() - 1]), g.len() >= 2, g[q] == s[jj],
{
    reveal(spliced);
    assert(g[p - 1] == g[p - 1]);
    lemma_lt(h0, s, 0, s.len() - 1);
    if p - 1 > 0 { lemma_lt(h0, s, 0, p - 1); assert(g[0] == s[0]); }
    if jj < s.len() - 1 { lemma_lt(h0, s, jj, s.len() - 1); }
    if j < jj { lemma_lt(h0, s, j, jj); }
    assert(g[g.len() - 1] == s[s.len() - 1]);
    assert(g[q] == s[jj]);
}
pub proof fn lemma_splice_sorted(h0: Heap, h: Heap, s: Seq<Ptr>, g: Seq<Ptr>, p: int, q: int, j: int, jj: int, start: int, end: int, val: Val)
    requires sorted(h0, s), spliced(h0, h, s, g, p, q, j, jj, start, end, val)
    ensures sorted(h, g)
{
    reveal(spliced);
    lemma_splice_ends(h0, h, s, g, p, q, j, jj, start, end, val);
    assert forall|x: int, y: int| 0 <= x < y < g.len() implies (#[trigger] h.node_key[g[x]]) < #[trigger] h.node_key[g[y]] by {
        if j < jj { lemma_lt(h0, s, j, jj); }
        if x < p - 2 { lemma_lt(h0, s, x, p - 2); }
        if y < p - 1 { lemma_lt(h0, s, x, y); }
        if y > q { lemma_lt(h0, s, jj, jj + y - q); }
        if x >= q { lemma_lt(h0, s, jj + x - q, jj + y - q); }
        assert(x < p - 1 ==> h.node_key[g[x]] == k_of(h0, s[x]));
        assert(y < p - 1 ==> h.node_key[g[y]] == k_of(h0, s[y]));
        assert(x >= q ==> h.node_key[g[x]] == k_of(h0, s[jj + x - q]));
        assert(y >= q ==> h.node_key[g[y]] == k_of(h0, s[jj + y - q]));
        assert(x < p - 1 || x == p - 1 || (x == p && x < q) || x >= q);
        assert(y < p - 1 || y == p - 1 || (y == p && y < q) || y >= q);
    }
    reveal(sorted);
}
pub proof fn lemma_splice_canon(h0: Heap, h: Heap, s: Seq<Ptr>, g: Seq<Ptr>, p: int, q: int, j: int, jj: int, start: int, end: int, val: Val)
    requires sorted(h0, s), canon(h0, s), spliced(h0, h, s, g, p, q, j, jj, start, end, val)
    ensures canon(h, g)
{
    reveal(spliced);
    lemma_splice_ends(h0, h, s, g, p, q, j, jj, start, end, val);
    assert forall|x: int, y: int| #![trigger h.node_value_leaf[g[x]], h.node_value_leaf[g[y]]] 0 <= x && y == x + 1 && y + 1 < g.len() implies h.node_value_leaf[g[x]].value != h.node_value_leaf[g[y]].value by {
        lemma_canon(h0, s, x); lemma_canon(h0, s, jj + x - q); lemma_canon(h0, s, j - 1); lemma_canon(h0, s, j);
        assert(x < p - 1 ==> h.node_value_leaf[g[x]].value == v_of(h0, s[x]));
        assert(y < p - 1 ==> h.node_value_leaf[g[y]].value == v_of(h0, s[y]));
        assert(x >= q ==> h.node_value_leaf[g[x]].value == v_of(h0, s[jj + x - q]));
        assert(y >= q ==> h.node_value_leaf[g[y]].value == v_of(h0, s[jj + y - q]));
        assert(x < p - 1 || x == p - 1 || (x == p && x < q) || x >= q);
    }
    reveal(canon);
}
pub proof fn lemma_splice_look(h0: Heap, h: Heap, s: Seq<Ptr>, g: Seq<Ptr>, p: int, q: int, j: int, jj: int, start: int, end: int, val: Val, k: int)
    requires sorted(h0, s), sorted(h, g), spliced(h0, h, s, g, p, q, j, jj, start, end, val), k_of(h, g[0]) <= k < k_of(h, g[g.len() - 1])
    ensures look(h, g, k) == (if start <= k < end { val } else { look(h0, s, k) })
{
    reveal(spliced);
    lemma_splice_ends(h0, h, s, g, p, q, j, jj, start, end, val);
    let x = lemma_seg(h, g, k); lemma_look(h, g, x, k);
    let b = lemma_seg(h0, s, k);
    assert(g[x + 1] == g[x + 1]);
    assert(x + 1 < p - 1 ==> k_of(h, g[x + 1]) == k_of(h0, s[x + 1]));
    if x < p - 1 {
        assert(g[x] == s[x]);
        if x + 1 < p - 1 { if p - 2 > x + 1 { lemma_lt(h0, s, x + 1, p - 2); } }
        assert(k < start);
        assert(covers(h0, s, x, k));
        lemma_look(h0, s, x, k);
    } else if x == p - 1 {
        if k < start { assert(covers(h0, s, p - 1, k)); lemma_look(h0, s, p - 1, k); }
        if k >= end { if jj == j + 1 { assert(covers(h0, s, j, k)); lemma_look(h0, s, j, k); } else { assert(covers(h0, s, j - 1, k)); lemma_look(h0, s, j - 1, k); } }
    } else if x < q { assert(covers(h0, s, j - 1, k)); lemma_look(h0, s, j - 1, k); }
    else { assert(k_of(h, g[x]) == k_of(h0, s[jj + x - q])); assert(k_of(h, g[x + 1]) == k_of(h0, s[jj + x + 1 - q])); if x > q { lemma_lt(h0, s, jj, jj + x - q); } if j < jj { lemma_lt(h0, s, j, jj); } lemma_look(h0, s, jj + x - q, k); }
}
pub proof fn lemma_splice(h0: Heap, h: Heap, s: Seq<Ptr>, g: Seq<Ptr>, p: int, q: int, j: int, jj: int, start: int, end: int, val: Val)
    requires sorted(h0, s), canon(h0, s), spliced(h0, h, s, g, p, q, j, jj, start, end, val)
    ensures sorted(h, g), canon(h, g), k_of(h, g[0]) == k_of(h0, s[0]), k_of(h, g[g.len() - 1]) == k_of(h0, s[s.len() - 1]),
        g.len() >= 2, covers(h, g, p - 1, start), v_of(h, g[g.len() - 1]) == v_of(h0, s[s.len() - 1]),
        forall|k: int| #![trigger look(h, g, k)] k_of(h, g[0]) <= k < k_of(h, g[g.len() - 1]) ==> look(h, g, k) == (if start <= k < end { val } else { look(h0, s, k) })
{
    reveal(spliced);
    lemma_splice_ends(h0, h, s, g, p, q, j, jj, start, end, val);
    lemma_splice_sorted(h0, h, s, g, p, q, j, jj, start, end, val);
    lemma_splice_canon(h0, h, s, g, p, q, j, jj, start, end, val);
    if j < jj { lemma_lt(h0, s, j, jj); }
    assert(g[g.len() - 1] == s[s.len() - 1]);
    assert forall|k: int| #![trigger look(h, g, k)] k_of(h, g[0]) <= k < k_of(h, g[g.len() - 1]) implies look(h, g, k) == (if start <= k < end { val } else { look(h0, s, k) }) by {
        lemma_splice_look(h0, h, s, g, p, q, j, jj, start, end, val, k);
    }
}
pub proof fn lemma_canon(h: Heap, s: Seq<Ptr>, i: int)
    requires canon(h, s)
    ensures 0 <= i && i + 2 < s.len() ==> v_of(h, s[i]) != v_of(h, s[i + 1])
{ reveal(canon); if 0 <= i && i + 2 < s.len() { assert(h.node_value_leaf[s[i]].value != h.node_value_leaf[s[i + 1]].value); } }
// nothing but the nodes of s and fresh nodes differs
pub open spec fn node_frame(h0: Heap, h: Heap, s: Seq<Ptr>) -> bool {
    &&& forall|p: Ptr| #[trigger] h0.al_node.contains(p) ==> h.al_node.contains(p)
    &&& forall|p: Ptr| h0.al_node.contains(p) && !s.contains(p) ==> #[trigger] h.node_key[p] == h0.node_key[p]
    &&& forall|p: Ptr| h0.al_node.contains(p) && !s.contains(p) ==> #[trigger] h.node_next[p] == h0.node_next[p]
    &&& forall|p: Ptr| h0.al_node.contains(p) && !s.contains(p) ==> #[trigger] h.node_prev[p] == h0.node_prev[p]
    &&& forall|p: Ptr| h0.al_node.contains(p) && !s.contains(p) ==> #[trigger] h.node_value_leaf[p] == h0.node_value_leaf[p]
    &&& forall|p: Ptr| h0.al_node.contains(p) && !s.contains(p) ==> #[trigger] h.nbase_is_leaf[p] == h0.nbase_is_leaf[p]
}
"""
CONTRACTS={
 'fst.get_insertion_pos_leaf': dict(
  requires=['wf0(H,this)','key >= kmin(H,this)','H.g_seq[this].contains(start_pos)'],
  ensures=['r == 0 ==> key > kmax(H,this)',
     'r != 0 ==> H.g_seq[this].contains(r) && key <= k_of(H,r) && at(H.g_seq[this],r) >= at(H.g_seq[this],start_pos) && (forall|m:int| #![trigger H.g_seq[this][m]] at(H.g_seq[this],start_pos) <= m < at(H.g_seq[this],r) ==> k_of(H,H.g_seq[this][m]) < key)'],
  at={'entry':'proof { reveal(sorted); lemma_at2(H.g_seq[this],start_pos); } let ghost s = H.g_seq[this]; let ghost a = at(s,start_pos); let ghost mut i: int = a;'},
  loops=[dict(inv=['a <= i <= s.len()','cur_node == (if i < s.len() { s[i] } else { 0 })','forall|m:int| #![trigger s[m]] a <= m < i ==> k_of(H,s[m]) < key'],
     begin='proof { if i < s.len() { lemma_at(s,H,i); } assert(s[0] == H.fst_m_left_leaf[this]); }', end='proof { i = i + 1; }', dec='s.len() - i',
     ens=['cur_node == 0 && i == s.len()'])]),
 'fst.adjust_segment_range': dict(
  requires=['wf0(H,this)'],
  ensures=['r == (*old(start_key) < *old(end_key) && *old(end_key) > kmin(H,this) && *old(start_key) < kmax(H,this))',
    'r ==> *final(start_key) == (if *old(start_key) < kmin(H,this) { kmin(H,this) } else { *old(start_key) })',
    'r ==> *final(end_key) == (if *old(end_key) > kmax(H,this) { kmax(H,this) } else { *old(end_key) })'],
  at={'entry':'proof { let s = H.g_seq[this]; lemma_lt(H,s,0,s.len()-1); }'}),
}
# the state after the covered leaves have been unlinked (cut point of insert_to_pos)
INS_CUT=['wf(h0,this)','val == val__0','ch1 == changed','s == h0.g_seq[this]','1 <= j < s.len() && 1 <= p <= j + 1 && p == pre.len()',
 'end_pos == s[j] && k_of(h0,s[j-1]) < end_key && end_key <= k_of(h0,s[j])','start_key__0 < end_key && end_key == end_key__0',
 'k_of(h0,s[0]) <= start_key__0 && end_key <= k_of(h0,s[s.len()-1])',
 'new_start_node == ns && pre[p-1] == ns','forall|x:int| #![trigger pre[x]] 0 <= x < p - 1 ==> pre[x] == s[x]',
 'ns != 0 && ((p <= j && ns == s[p-1]) || (!h0.al_node.contains(ns) && p >= 2))',
 'forall|m:int| #![trigger H.node_next[pre[m]]] 0 <= m < p - 1 ==> H.node_next[pre[m]] == pre[m+1]',
 'forall|m:int| #![trigger H.node_prev[pre[m]]] 0 <= m < p ==> H.node_prev[pre[m]] == (if m > 0 { pre[m-1] } else { 0 })',
 'H.node_next[ns] == (if lk { s[j] } else { 0 })','lk ==> H.node_prev[s[j]] == ns','!lk ==> changed',
 'forall|m:int| #![trigger H.node_next[s[m]]] j <= m < s.len() ==> H.node_next[s[m]] == h0.node_next[s[m]]',
 'forall|m:int| #![trigger H.node_prev[s[m]]] j < m < s.len() ==> H.node_prev[s[m]] == h0.node_prev[s[m]]',
 'H.al_node.contains(ns) && H.nbase_is_leaf[ns] && !H.al_node.contains(0)',
 'node_frame(h0,H,s)', 'H.g_seq == h0.g_seq && H.fst_m_valid_tree == h0.fst_m_valid_tree',
 'forall|x:int| #![trigger s[x]] 0 <= x < s.len() ==> H.al_node.contains(s[x]) && H.nbase_is_leaf[s[x]]',
 'forall|x:int| #![trigger s[x]] 0 <= x < s.len() ==> H.node_key[s[x]] == h0.node_key[s[x]]',
 'forall|x:int| #![trigger s[x]] 0 <= x < s.len() && x != p - 1 ==> H.node_value_leaf[s[x]].value == h0.node_value_leaf[s[x]].value',
 'p - 1 == j ==> v_of(H,s[j]) == v_of(h0,s[j])',
 'v_of(H,ns) == val && k_of(H,ns) <= start_key__0','k_of(h0,s[0]) <= k_of(H,ns)','k_of(H,ns) <= k_of(h0,s[p-1])',
 'k_of(H,ns) < start_key__0 ==> p <= j && k_of(h0,s[p-1]) == k_of(H,ns) && v_of(h0,s[p-1]) == val && start_key__0 <= k_of(h0,s[p])',
 'p >= 2 ==> k_of(h0,s[p-2]) < k_of(H,ns) && v_of(h0,s[p-2]) != val',
 'old_value == v_of(h0,s[j-1])',
 '!changed ==> p == j && ns == s[p-1] && H.node_key == h0.node_key && H.nbase_is_leaf == h0.nbase_is_leaf && v_of(h0,s[p-1]) == val',
 'changed ==> exists|k:int| start_key__0 <= k < end_key && look(h0,s,k) != val']
INS_CUT2=[q for q in INS_CUT if not re.search(r'lk|ch1|^end_pos|old_value|H.node_next.s|H.node_prev.s|fst_m_valid|!changed|^val_of_j',q)]+[
 'ret.first.m_pos == ns && ret.first.m_db == this__0 && !ret.first.m_end_pos && ret.second == changed','H.g_seq == h0.g_seq','k_of(h0,s[j-1]) < end_key__0 && end_key__0 <= k_of(h0,s[j])',
 '!changed ==> p == j && jj == j && q == p && ns == s[p-1] && H.node_key == h0.node_key && H.nbase_is_leaf == h0.nbase_is_leaf && v_of(h0,s[p-1]) == val',
 'H.fst_m_valid_tree == (if changed { h0.fst_m_valid_tree.insert(this__0, false) } else { h0.fst_m_valid_tree })',
 '(jj == j || jj == j + 1) && jj < s.len() && n2 == H.node_next[ns]',
 'q == p ==> n2 == s[jj]','H.node_prev[s[jj]] == (if q == p { ns } else { n2 })',
 'q == p || (q == p + 1 && jj == j && !h0.al_node.contains(n2) && n2 != ns && n2 != 0 && H.al_node.contains(n2) && H.nbase_is_leaf[n2] && H.node_next[n2] == s[jj] && H.node_prev[n2] == ns)',
 'forall|m:int| #![trigger H.node_next[s[m]]] jj <= m < s.len() ==> H.node_next[s[m]] == h0.node_next[s[m]]',
 'forall|m:int| #![trigger H.node_prev[s[m]]] jj < m < s.len() ==> H.node_prev[s[m]] == h0.node_prev[s[m]]',
 'q == p + 1 ==> jj == j && k_of(H, n2) == end_key__0 && v_of(H, n2) == v_of(h0, s[j - 1]) && v_of(h0, s[j - 1]) != val && end_key__0 < k_of(h0, s[j])',
 'q == p && jj == j + 1 ==> k_of(h0, s[j]) == end_key__0 && v_of(h0, s[j]) == val',
 'q == p && jj == j && end_key__0 == k_of(h0, s[j]) ==> j == s.len() - 1 || v_of(h0, s[j]) != val',
 'q == p && jj == j && end_key__0 < k_of(h0, s[j]) ==> v_of(h0, s[j - 1]) == val']
INS_CUT2=[re.sub(r'\bend_key\b','end_key__0',q) for q in INS_CUT2]
INS_DONE="""let ghost ch1 = changed; proof {
   lemma_diff(h0,s,i); lemma_diff(h0,s,i-1); lemma_diff(h0,s,j); lemma_lt(h0,s,0,s.len()-1); if i > 0 { lemma_lt(h0,s,i-1,i); } if i > 1 { lemma_lt(h0,s,i-2,i-1); lemma_canon(h0,s,i-2); } lemma_canon(h0,s,i-1);
   if i < j { lemma_lt(h0,s,i,j); } if 0 < i { lemma_lt(h0,s,0,i); } if 1 < i { lemma_lt(h0,s,0,i-1); }
   assert(changed ==> exists|k:int| start_key__0 <= k < end_key && look(h0,s,k) != val) by {
     if changed {
        let b = lemma_seg(h0, s, start_key__0 as int); lemma_look(h0, s, b, start_key__0 as int);
        if v_of(h0, s[b]) == val {
            lemma_canon(h0, s, b); lemma_diff(h0,s,b); if b + 1 < i - 1 { lemma_lt(h0,s,b+1,i-1); } if i < b { lemma_lt(h0,s,i,b); }
            assert(b == i || b == i - 1); assert(b + 1 <= j - 1); if b + 1 < j - 1 { lemma_lt(h0,s,b+1,j-1); }
            assert(k_of(h0, s[b+1]) < end_key__0);
            lemma_lt(h0,s,b+1,b+2);
            assert(covers(h0, s, b+1, k_of(h0, s[b+1]) as int));
            lemma_look(h0, s, b+1, k_of(h0, s[b+1]) as int); assert(look(h0,s,k_of(h0, s[b+1]) as int) != val);
        } } } }"""
CONTRACTS.update({
 'fst.get_insertion_pos_leaf_reverse': dict(
  requires=['wf0(H,this)','start_pos == H.fst_m_right_leaf[this]'],
  ensures=['r == 0 ==> key <= kmin(H,this)',
     'r != 0 ==> H.g_seq[this].contains(r) && k_of(H,r) < key && (forall|m:int| #![trigger H.g_seq[this][m]] at(H.g_seq[this],r) < m < H.g_seq[this].len() ==> key <= k_of(H,H.g_seq[this][m]))'],
  at={'entry':'proof { reveal(sorted); } let ghost s = H.g_seq[this]; let ghost mut i: int = s.len() - 1;'},
  loops=[dict(inv=['-1 <= i < s.len()','cur_node == (if i >= 0 { s[i] } else { 0 })','forall|m:int| #![trigger s[m]] i < m < s.len() ==> key <= k_of(H,s[m])'],
     begin='proof { if i >= 0 { lemma_at(s,H,i); } assert(s[0] == H.fst_m_left_leaf[this]); }', end='proof { i = i - 1; }', dec='i + 1',
     ens=['cur_node == 0 && i == -1'])]),
 'fst.insert_to_pos': dict(rlimit=60,cuts=[dict(req=INS_CUT, ghosts={'s':'Seq<Ptr>','j':'int','p':'int','ns':'Ptr','pre':'Seq<Ptr>','lk':'bool','ch1':'bool'}),dict(req=INS_CUT2,ghosts={'s':'Seq<Ptr>','j':'int','p':'int','ns':'Ptr','pre':'Seq<Ptr>','n2':'Ptr','q':'int','jj':'int'})],
  requires=['wf(H,this)','H.g_seq[this].contains(start_pos)','start_key < end_key','kmin(H,this) <= start_key','end_key <= kmax(H,this)',
   'start_key <= k_of(H,start_pos)','at(H.g_seq[this],start_pos) > 0 ==> k_of(H,H.g_seq[this][at(H.g_seq[this],start_pos)-1]) < start_key'],
  ensures=['wf(H,this)','kmin(H,this) == kmin(H0,this)','kmax(H,this) == kmax(H0,this)',
   'forall|k:int| #![trigger look(H,H.g_seq[this],k)] kmin(H,this) <= k < kmax(H,this) ==> look(H,H.g_seq[this],k) == (if start_key <= k < end_key { val } else { look(H0,H0.g_seq[this],k) })',
   'r.first.m_db == this && !r.first.m_end_pos','exists|i:int| #![trigger H.g_seq[this][i]] H.g_seq[this][i] == r.first.m_pos && covers(H,H.g_seq[this],i,start_key as int)',
   '!r.second ==> H.g_seq == H0.g_seq && H.node_key == H0.node_key && (forall|x:int| #![trigger H.g_seq[this][x]] 0 <= x < H.g_seq[this].len() ==> v_of(H,H.g_seq[this][x]) == v_of(H0,H.g_seq[this][x]))',
   'r.second ==> (exists|k:int| start_key <= k < end_key && look(H0,H0.g_seq[this],k) != val)',
   'forall|t:Ptr| t != this ==> H.g_seq[t] == H0.g_seq[t]','node_frame(H0,H,H0.g_seq[this])'],
  at={'entry':'''let ghost s = H.g_seq[this]; let ghost i = at(s,start_pos); let ghost mut j: int = 0; let ghost mut ns: Ptr = 0; let ghost mut pre: Seq<Ptr> = Seq::empty(); let ghost mut a0: int = 0; let ghost mut lk: bool = false; let ghost mut p: int = 0;
     proof { lemma_at2(s,start_pos); assert(s[i] == start_pos); lemma_at(s,H,i); if i == 0 { assert(s[0] == H.fst_m_left_leaf[this]); } }''',
   'decl:old_value':'proof { j = at(s,end_pos); if end_pos == H.fst_m_right_leaf[this] { lemma_at(s,H,s.len()-1); } lemma_at2(s,end_pos); if i < j { lemma_lt(H,s,j-1,j); } lemma_at(s,H,j); assert(end_key <= k_of(H,s[j])); assert(i <= j); assert(k_of(H,s[j-1]) < end_key); }',
   'exit':'''let ghost n2: Ptr = H.node_next[ns]; let ghost q: int = if s.contains(n2) { p } else { p + 1 };
     let ghost jj: int = at(s, if s.contains(n2) { n2 } else { H.node_next[n2] });
     proof {
        lemma_diff(h0,s,j); lemma_diff(h0,s,j+1); lemma_diff(h0,s,j-1); lemma_diff(h0,s,p-1);
        assert(changed ==> exists|k:int| start_key__0 <= k < end_key__0 && look(h0,s,k) != val) by {
          if changed && !ch1 { lemma_canon(h0, s, j-1); assert(v_of(h0,s[j-1]) != val);
             let w: int = if k_of(h0,s[j-1]) < start_key__0 { start_key__0 as int } else { k_of(h0,s[j-1]) as int };
             assert(covers(h0,s,j-1,w)); lemma_look(h0,s,j-1,w); assert(look(h0,s,w) != val); } };
     }
     //@CUT 2
     let ghost mid: Seq<Ptr> = if q == p { Seq::empty() } else { seq![n2] };
     let ghost g = pre + mid + s.subrange(jj, s.len() as int);
     proof {
        assert(forall|x:int| 0 <= x < p ==> #[trigger] g[x] == pre[x]);
        assert(forall|x:int| q <= x < g.len() ==> #[trigger] g[x] == s[jj + x - q]);
        assert(mid.len() > 0 ==> g[p] == n2);
        assert(g[p-1] == ns); assert(g[0] == pre[0]); assert(g[0] == s[0]); assert(g[g.len()-1] == s[s.len()-1]);
        assert(linked(H, g));
        if !changed { assert(g =~= s); if h0.fst_m_valid_tree[this] { lemma_tree_ok_frame(h0, H, this); } }
     }
     if changed { gset_g_seq(h, this, Ghost(g)); }
     proof { assert(H.g_seq[this] == g); assert(linked(H,g));
        assert(spliced(h0, H, s, g, p, q, j, jj, start_key__0 as int, end_key__0 as int, val)) by { reveal(spliced); };
        lemma_splice(h0, H, s, g, p, q, j, jj, start_key__0 as int, end_key__0 as int, val);
       assert(H.g_seq[this][p-1] == ns); }''',
   },
  loops=[dict(before='''let ghost a: int = at(s,cur_node); let ghost mut c: int = a; let ghost ch0 = changed; let ghost ov0 = old_value;
       proof { a0 = a; ns = new_start_node;  pre = if s.contains(ns) { s.subrange(0, at(s,ns)+1) } else { s.subrange(0,i).push(ns) }; p = pre.len() as int; lemma_diff(h0,s,i); lemma_diff(h0,s,i-1); lemma_diff(h0,s,i+1);
         assert(i < j || (i == j && k_of(h0,s[i]) > start_key));
         assert(a == i || a == i + 1); assert(s[a] == cur_node);
         assert(pre[pre.len()-1] == ns);
         assert(a < j || ov0 == v_of(h0,s[a-1])); }''',
     inv=['a <= c <= j','cur_node == s[c]','changed == (ch0 || c > a)','c > a ==> old_value == v_of(h0,s[c-1])','c == a ==> old_value == ov0',
       'forall|m:int| #![trigger H.node_next[s[m]]] c <= m < s.len() ==> H.node_next[s[m]] == h0.node_next[s[m]]',
       'forall|m:int| #![trigger H.node_prev[s[m]]] c < m < s.len() ==> H.node_prev[s[m]] == h0.node_prev[s[m]]',
       'H.node_prev[s[c]] == (if c == a { ns } else { s[c-1] })', 'H.node_next[ns] == (if c == a { s[a] } else { 0 })',
       'forall|m:int| #![trigger H.node_next[pre[m]]] 0 <= m < pre.len() - 1 ==> H.node_next[pre[m]] == pre[m+1]',
       'forall|m:int| #![trigger H.node_prev[pre[m]]] 0 <= m < pre.len() ==> H.node_prev[pre[m]] == (if m > 0 { pre[m-1] } else { 0 })',
       'node_frame(h0,H,s)'],
     begin='proof { lemma_diff(h0,s,c); lemma_diff(h0,s,j); lemma_diff(h0,s,c-1); lemma_diff(h0,s,i-1); }', end='proof { c = c + 1; }', after='proof { lk = (c == a); }', done=INS_DONE+'\n//@CUT 1', dec='j - c')]),
})
MAPEQ='forall|k:int| #![trigger look(H,H.g_seq[this],k)] kmin(H,this) <= k < kmax(H,this) ==> look(H,H.g_seq[this],k) == (if start_key <= k < end_key { val } else { look(H0,H0.g_seq[this],k) })'
INS_ENS=['wf(H,this)','kmin(H,this) == kmin(H0,this)','kmax(H,this) == kmax(H0,this)',MAPEQ,
   'r.first.m_db == this','r.second ==> (exists|k:int| kmin(H,this) <= k < kmax(H,this) && start_key <= k < end_key && look(H0,H0.g_seq[this],k) != val)',
   '!r.second ==> H.g_seq == H0.g_seq && H.node_key == H0.node_key && (forall|x:int| #![trigger H.g_seq[this][x]] 0 <= x < H.g_seq[this].len() ==> v_of(H,H.g_seq[this][x]) == v_of(H0,H.g_seq[this][x]))',
   '(kmin(H,this) <= start_key && start_key < end_key && start_key < kmax(H,this)) ==> !r.first.m_end_pos && (exists|i:int| #![trigger H.g_seq[this][i]] H.g_seq[this][i] == r.first.m_pos && covers(H,H.g_seq[this],i,start_key as int))',
   'forall|t:Ptr| t != this ==> H.g_seq[t] == H0.g_seq[t]','node_frame(H0,H,H0.g_seq[this])']
CONTRACTS.update({
 'fst.insert_segment_impl': dict(requires=['wf(H,this)'],ensures=INS_ENS,
   at={'entry':'let ghost s = H.g_seq[this]; proof { lemma_lt(H,s,0,s.len()-1); lemma_diff(H,s,0); lemma_diff(H,s,s.len()-1); }',
       'before_call:fst.insert_to_pos':'proof { let q = at(s,ARG1); lemma_at2(s,ARG1); lemma_diff(H,s,q); if q > 0 { lemma_lt(H,s,q-1,q); lemma_diff(H,s,q-1); } }',
       }),
 'fst.insert/4': dict(requires=['wf(H,this)','pos.m_db == this && pos.m_pos != 0 ==> H.g_seq[this].contains(pos.m_pos)'],ensures=INS_ENS,
   at={'entry':'let ghost s = H.g_seq[this]; proof { lemma_lt(H,s,0,s.len()-1); lemma_diff(H,s,0); lemma_diff(H,s,s.len()-1); if s.contains(pos.m_pos) { let x = at(s,pos.m_pos); lemma_at2(s,pos.m_pos); if x > 0 { lemma_lt(H,s,0,x); } } }',
       'before_call:fst.insert_to_pos':'proof { let q = at(s,ARG1); lemma_at2(s,ARG1); lemma_diff(H,s,q); if q > 0 { lemma_lt(H,s,q-1,q); } }'}),
})
CONTRACTS.update({
 'fst.insert_front': dict(requires=['wf(H,this)'],ensures=INS_ENS),
 'fst.insert_back': dict(requires=['wf(H,this)'],ensures=INS_ENS),
})
CONTRACTS.update({
 'fst.search_by_key_impl': dict(requires=['wf0(H,this)','H.g_seq[this].contains(start_pos)','key < kmin(H,this) || key >= k_of(H,start_pos)'],
   ensures=['r.m_db == this','r.m_end_pos == !(kmin(H,this) <= key < kmax(H,this))',
     '!r.m_end_pos ==> exists|i:int| #![trigger H.g_seq[this][i]] H.g_seq[this][i] == r.m_pos && covers(H,H.g_seq[this],i,key as int)'],
   at={'entry':'let ghost s = H.g_seq[this]; proof { lemma_at2(s,start_pos); lemma_lt(H,s,0,s.len()-1); lemma_diff(H,s,0); }',
     'after_call:fst.get_insertion_pos_leaf':'proof { if CALLRES != 0 { let q = at(s,CALLRES); lemma_at2(s,CALLRES); lemma_diff(H,s,q); if q > 0 { lemma_lt(H,s,q-1,q); assert(s[q-1]==s[q-1]); } if q + 1 < s.len() { lemma_lt(H,s,q,q+1); } if q > at(s,start_pos) { assert(k_of(H,s[q-1]) < key); } } }'}),
 'fst.search/1': dict(requires=['wf0(H,this)'],ensures=['r.m_db == this','r.m_end_pos == !(kmin(H,this) <= key < kmax(H,this))',
     '!r.m_end_pos ==> exists|i:int| #![trigger H.g_seq[this][i]] H.g_seq[this][i] == r.m_pos && covers(H,H.g_seq[this],i,key as int)'],
   at={'entry':'let ghost s = H.g_seq[this]; proof { assert(s.contains(s[0])); }'}),
 'fst.search/2': dict(requires=['wf0(H,this)','pos.m_db == this && pos.m_pos != 0 ==> H.g_seq[this].contains(pos.m_pos)'],ensures=['r.m_db == this','r.m_end_pos == !(kmin(H,this) <= key < kmax(H,this))',
     '!r.m_end_pos ==> exists|i:int| #![trigger H.g_seq[this][i]] H.g_seq[this][i] == r.m_pos && covers(H,H.g_seq[this],i,key as int)']),
})
SEGOUT=['r.first.m_db == this','r.first.m_end_pos == !r.second',
 'r.second ==> exists|i:int| #![trigger H.g_seq[this][i]] covers(H,H.g_seq[this],i,key as int) && H.g_seq[this][i] == r.first.m_pos && *final(value) == v_of(H,H.g_seq[this][i]) && (old(start_key).nn ==> final(start_key).v == k_of(H,H.g_seq[this][i])) && (old(end_key).nn ==> final(end_key).v == k_of(H,H.g_seq[this][i+1]))',
 '!r.second ==> *final(value) == *old(value) && final(start_key).v == old(start_key).v && final(end_key).v == old(end_key).v',
 'final(start_key).nn == old(start_key).nn && final(end_key).nn == old(end_key).nn']
INR='r.second == (kmin(H,this) <= key < kmax(H,this))'
CONTRACTS.update({
 'fst.search_impl': dict(requires=['wf0(H,this)','H.g_seq[this].contains(pos)','kmin(H,this) <= key < kmax(H,this)','key <= k_of(H,pos)','at(H.g_seq[this],pos) > 0 ==> k_of(H,H.g_seq[this][at(H.g_seq[this],pos)-1]) < key'],
   ensures=SEGOUT+['r.second'],
   at={'entry':'let ghost s = H.g_seq[this]; proof { let q = at(s,pos); lemma_at2(s,pos); if q > 0 { lemma_lt(H,s,q-1,q); assert(s[q-1]==s[q-1]); } if q + 1 < s.len() { lemma_lt(H,s,q,q+1); } assert(s[q]==pos); }'}),
 'fst.search/4': dict(requires=['wf0(H,this)'],ensures=SEGOUT+[INR],
   at={'entry':'let ghost s = H.g_seq[this]; proof { lemma_diff(H,s,0); }',
    'before_call:fst.search_impl':'proof { let q = at(s,ARG1); lemma_at2(s,ARG1); if q > 0 { assert(k_of(H,s[q-1]) < key); } }'}),
 'fst.search/5': dict(requires=['wf0(H,this)','pos.m_db == this && pos.m_pos != 0 ==> H.g_seq[this].contains(pos.m_pos)'],ensures=SEGOUT+[INR],
   at={'entry':'let ghost s = H.g_seq[this]; proof { lemma_diff(H,s,0); if s.contains(pos.m_pos) { lemma_at2(s,pos.m_pos); lemma_diff(H,s,at(s,pos.m_pos)); } }',
    'before_call:fst.search_impl':'proof { let q = at(s,ARG1); let x = at(s,pos.m_pos); lemma_at2(s,ARG1); if q > x { assert(k_of(H,s[q-1]) < key); } else if q > 0 { lemma_lt(H,s,q-1,q); } }'}),
})
TREEREADY='(H.fst_m_root_node[this] != 0 && H.fst_m_valid_tree[this])'
CONTRACTS.update({
 'fst.search_tree_for_leaf_node': dict(requires=['wf(H,this)'],
   ensures=['(r != 0) == (%s && kmin(H,this) <= key < kmax(H,this))'%TREEREADY,
     'r != 0 ==> exists|i:int| #![trigger H.g_seq[this][i]] H.g_seq[this][i] == r && covers(H,H.g_seq[this],i,key as int)'],
   at={'entry':'let ghost s = H.g_seq[this]; let ghost mut d: nat = 0; let ghost mut lo: int = 0; let ghost mut hi: int = 0; proof { reveal(tree_ok); }',
     'decl:cur_node':'proof { d = choose|d: nat| #[trigger] tree(H, s, cur_node, d, 0, s.len() as int); hi = s.len() as int; }',
     'decl:dest_node':'proof { reveal(sorted); assert(s[lo]==s[lo]); if hi == lo + 2 { assert(s[lo+1]==s[lo+1]); lemma_lt(H,s,lo,lo+1); } }'},
   loops=[dict(inv=['tree(H,s,cur_node,d,lo,hi)','k_of(H,s[lo]) <= key < top(H,s,hi)'],
      ens=['d == 1'],dec='d',
      begin='''let ghost mid: int = if d > 1 { choose|mid: int| #[trigger] trig(mid) && tree(H, s, H.nl_left[cur_node], (d - 1) as nat, lo, mid) && (
                (mid == hi && H.nl_right[cur_node] == 0) || (mid < hi && tree(H, s, H.nl_right[cur_node], (d - 1) as nat, mid, hi))) } else { 0 };
         proof { let c0 = cur_node; if d > 1 { assert(tree(H, s, H.nl_left[c0], (d - 1) as nat, lo, mid)); assert(H.nl_low[H.nl_left[c0]] == k_of(H,s[lo])); assert(H.nl_high[H.nl_left[c0]] == top(H,s,mid));
              if mid < hi { assert(tree(H, s, H.nl_right[c0], (d - 1) as nat, mid, hi)); } assert(mid < s.len() ==> top(H,s,mid) == k_of(H,s[mid])); }
            }''',
      end='proof { if key < top(H,s,mid) { hi = mid; } else { lo = mid; } d = (d - 1) as nat; }')]),
})

TREEENS=['r.second ==> exists|i:int| #![trigger H.g_seq[this][i]] covers(H,H.g_seq[this],i,key as int) && H.g_seq[this][i] == r.first.m_pos && *final(value) == v_of(H,H.g_seq[this][i]) && (old(start_key).nn ==> final(start_key).v == k_of(H,H.g_seq[this][i])) && (old(end_key).nn ==> final(end_key).v == k_of(H,H.g_seq[this][i+1]))']
CONTRACTS.update({
 'fst.search_tree/4': dict(requires=['wf(H,this)'],ensures=[q for q in SEGOUT]+['r.second == (%s && kmin(H,this) <= key < kmax(H,this))'%TREEREADY]),
 'fst.search_tree/1': dict(requires=['wf(H,this)'],ensures=['r.m_db == this','r.m_end_pos == !(%s && kmin(H,this) <= key < kmax(H,this))'%TREEREADY,
    '!r.m_end_pos ==> exists|i:int| #![trigger H.g_seq[this][i]] H.g_seq[this][i] == r.m_pos && covers(H,H.g_seq[this],i,key as int)']),
})

# ---- comparison, exchange, clearing
PRELUDE += r"""
pub open spec fn same_segs(h: Heap, s: Seq<Ptr>, t: Seq<Ptr>) -> bool {
    s.len() == t.len() && forall|i: int| #![trigger s[i]] #![trigger t[i]] 0 <= i < s.len() ==> k_of(h, s[i]) == k_of(h, t[i]) && v_of(h, s[i]) == v_of(h, t[i])
}
#[verifier::opaque] pub open spec fn same_map(h: Heap, s: Seq<Ptr>, t: Seq<Ptr>) -> bool {
    &&& k_of(h, s[0]) == k_of(h, t[0]) && k_of(h, s[s.len() - 1]) == k_of(h, t[t.len() - 1])
    &&& forall|k: int| #![trigger look(h, s, k)] k_of(h, s[0]) <= k < k_of(h, s[s.len() - 1]) ==> look(h, s, k) == look(h, t, k)
}
proof fn lemma_same_fwd(h: Heap, s: Seq<Ptr>, t: Seq<Ptr>)
    requires sorted(h, s), sorted(h, t), s.len() >= 2, same_segs(h, s, t)
    ensures same_map(h, s, t)
{
    reveal(same_map);
    assert(s[0] == s[0] && s[s.len() - 1] == s[s.len() - 1]);
    assert forall|k: int| #![trigger look(h, s, k)] k_of(h, s[0]) <= k < k_of(h, s[s.len() - 1]) implies look(h, s, k) == look(h, t, k) by {
        let i = lemma_seg(h, s, k); assert(s[i] == s[i] && s[i + 1] == s[i + 1]);
        assert(covers(h, t, i, k)); lemma_look(h, s, i, k); lemma_look(h, t, i, k);
    }
}
// with equal maps the i-th segments agree, for every i up to n
proof fn lemma_same_step(h: Heap, s: Seq<Ptr>, t: Seq<Ptr>, n: int)
    requires sorted(h, s), sorted(h, t), canon(h, s), canon(h, t), s.len() >= 2, t.len() >= 2, same_map(h, s, t), 0 <= n < s.len(),
        v_of(h, s[s.len() - 1]) == v_of(h, t[t.len() - 1])
    ensures n < t.len(), k_of(h, s[n]) == k_of(h, t[n]), v_of(h, s[n]) == v_of(h, t[n]), n == s.len() - 1 <==> n == t.len() - 1
    decreases n
{
    reveal(same_map);
    let sl = s.len() - 1; let tl = t.len() - 1;
    lemma_lt(h, s, 0, sl); lemma_lt(h, t, 0, tl);
    if n == 0 {
        let k = k_of(h, s[0]) as int;
        lemma_lt(h, s, 0, 1); lemma_lt(h, t, 0, 1); assert(covers(h, s, 0, k) && covers(h, t, 0, k)); lemma_look(h, s, 0, k); lemma_look(h, t, 0, k);
        assert(look(h, s, k) == look(h, t, k));
    } else {
        lemma_same_step(h, s, t, n - 1);
        lemma_lt(h, s, n - 1, n); lemma_lt(h, t, n - 1, n);
        lemma_lt(h, s, 0, n); lemma_lt(h, t, 0, n);
        lemma_canon(h, s, n - 1); lemma_canon(h, t, n - 1);
        if n < sl { lemma_lt(h, s, n, sl); lemma_lt(h, s, n, n + 1); }
        if n < tl { lemma_lt(h, t, n, tl); lemma_lt(h, t, n, n + 1); }
        let ks = k_of(h, s[n]) as int; let kt = k_of(h, t[n]) as int;
        if ks < kt {
            assert(covers(h, s, n, ks) && covers(h, t, n - 1, ks)); lemma_look(h, s, n, ks); lemma_look(h, t, n - 1, ks);
            assert(look(h, s, ks) == look(h, t, ks)); assert(false);
        }
        if kt < ks {
            assert(covers(h, t, n, kt) && covers(h, s, n - 1, kt)); lemma_look(h, t, n, kt); lemma_look(h, s, n - 1, kt);
            assert(look(h, s, kt) == look(h, t, kt)); assert(false);
        }
        if n < sl && n < tl {
            assert(covers(h, s, n, ks) && covers(h, t, n, ks)); lemma_look(h, s, n, ks); lemma_look(h, t, n, ks);
            assert(look(h, s, ks) == look(h, t, ks));
        }
    }
}
pub proof fn lemma_same(h: Heap, s: Seq<Ptr>, t: Seq<Ptr>)
    requires sorted(h, s), sorted(h, t), canon(h, s), canon(h, t), s.len() >= 2, t.len() >= 2, v_of(h, s[s.len() - 1]) == v_of(h, t[t.len() - 1])
    ensures same_segs(h, s, t) <==> same_map(h, s, t)
{
    if same_segs(h, s, t) { lemma_same_fwd(h, s, t); }
    if same_map(h, s, t) {
        assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies k_of(h, s[i]) == k_of(h, t[i]) && v_of(h, s[i]) == v_of(h, t[i]) by { lemma_same_step(h, s, t, i); }
        lemma_same_step(h, s, t, s.len() - 1);
        assert(s.len() == t.len());
        assert forall|i: int| #![trigger t[i]] 0 <= i < s.len() implies k_of(h, s[i]) == k_of(h, t[i]) && v_of(h, s[i]) == v_of(h, t[i]) by { lemma_same_step(h, s, t, i); }
    }
}
"""
CONTRACTS.update({
 'fst.operator==': dict(requires=['H.al_fst.contains(this) && H.al_fst.contains(other)','H.fst_m_left_leaf[this] == 0 || wf(H,this)','H.fst_m_left_leaf[other] == 0 || wf(H,other)'],
   ensures=['H0.fst_m_left_leaf[this] != 0 && H0.fst_m_left_leaf[other] != 0 ==> r == same_map(H0,H0.g_seq[this],H0.g_seq[other])',
     'H0.fst_m_left_leaf[this] == 0 || H0.fst_m_left_leaf[other] == 0 ==> r == (H0.fst_m_left_leaf[this] == H0.fst_m_left_leaf[other])'],
   at={'entry':'let ghost s = H.g_seq[this]; let ghost t = H.g_seq[other]; let ghost mut i: int = 0; proof { if H.fst_m_left_leaf[this] != 0 && H.fst_m_left_leaf[other] != 0 { lemma_same(H,s,t); } }'},
   loops=[dict(inv=['H.fst_m_left_leaf[this] == 0 <==> H.fst_m_left_leaf[other] == 0','H.fst_m_left_leaf[this] == 0 ==> n1 == 0 && n2 == 0',
      'H.fst_m_left_leaf[this] != 0 ==> 0 <= i <= s.len() && i <= t.len() && n1 == (if i < s.len() { s[i] } else { 0 }) && n2 == (if i < t.len() { t[i] } else { 0 })',
      'forall|m:int| #![trigger s[m]] #![trigger t[m]] 0 <= m < i ==> k_of(H,s[m]) == k_of(H,t[m]) && v_of(H,s[m]) == v_of(H,t[m])'],
      begin='proof { if H.fst_m_left_leaf[this] != 0 { lemma_diff(H,s,i); lemma_diff(H,t,i); assert(i < s.len() ==> s[i] == s[i]); } }',
      end='proof { i = i + 1; }', dec='if H.fst_m_left_leaf[this] == 0 { 0 } else { s.len() - i }')]),
})
PRELUDE += r"""
// a usable tree, or one that has been moved from
pub open spec fn wfe(h: Heap, t: Ptr) -> bool { h.al_fst.contains(t) && (wf(h, t) || (h.fst_m_left_leaf[t] == 0 && h.fst_m_right_leaf[t] == 0 && h.fst_m_root_node[t] == 0 && !h.fst_m_valid_tree[t])) }
proof fn lemma_swap_tree(h0: Heap, h: Heap, a: Ptr, b: Ptr)
    requires tree_ok(h0, a) || h0.fst_m_root_node[a] == 0, h.al_nl == h0.al_nl, h.nbase_is_leaf == h0.nbase_is_leaf, h.nl_low == h0.nl_low, h.nl_high == h0.nl_high,
        h.nl_left == h0.nl_left, h.nl_right == h0.nl_right, h.node_key == h0.node_key, h.g_seq[b] == h0.g_seq[a], h.fst_m_root_node[b] == h0.fst_m_root_node[a]
    ensures tree_ok(h, b)
{
    reveal(tree_ok);
    let s = h.g_seq[b]; let n = h.fst_m_root_node[b];
    if n != 0 { let d = choose|d: nat| #[trigger] tree(h0, s, n, d, 0, s.len() as int); lemma_tree_frame(h0, h, s, n, d, 0, s.len() as int); }
}
"""
CONTRACTS.update({
 'fst.swap': dict(requires=['wfe(H,this)','wfe(H,other)'],
   ensures=['wfe(H,this)','wfe(H,other)','H.g_seq[this] == H0.g_seq[other]','H.g_seq[other] == H0.g_seq[this]',
     'H.al_node == H0.al_node && H.al_nl == H0.al_nl && H.node_key == H0.node_key && H.node_value_leaf == H0.node_value_leaf && H.node_next == H0.node_next && H.node_prev == H0.node_prev && H.nbase_is_leaf == H0.nbase_is_leaf && H.nbase_parent == H0.nbase_parent',
     'H.fst_m_init_val[this] == H0.fst_m_init_val[other]','H.fst_m_init_val[other] == H0.fst_m_init_val[this]',
     'H.fst_m_left_leaf[this] == H0.fst_m_left_leaf[other] && H.fst_m_right_leaf[this] == H0.fst_m_right_leaf[other] && H.fst_m_left_leaf[other] == H0.fst_m_left_leaf[this] && H.fst_m_right_leaf[other] == H0.fst_m_right_leaf[this]',
     'forall|t:Ptr| #![trigger H.g_seq[t]] #![trigger H.fst_m_left_leaf[t]] t != this && t != other ==> H.g_seq[t] == H0.g_seq[t] && H.fst_m_left_leaf[t] == H0.fst_m_left_leaf[t] && H.fst_m_right_leaf[t] == H0.fst_m_right_leaf[t] && H.fst_m_init_val[t] == H0.fst_m_init_val[t] && H.fst_m_valid_tree[t] == H0.fst_m_valid_tree[t] && H.fst_m_root_node[t] == H0.fst_m_root_node[t]'],
   at={'entry':'let ghost s = H.g_seq[this]; let ghost t = H.g_seq[other]; let ghost hh = H;',
    'exit':'gset_g_seq(h, this, Ghost(t)); gset_g_seq(h, other, Ghost(s)); proof { reveal(sorted); reveal(canon); reveal(tree_ok); if hh.fst_m_valid_tree[this] { lemma_swap_tree(hh, H, this, other); } if hh.fst_m_valid_tree[other] { lemma_swap_tree(hh, H, other, this); } }'}),
 'fst.destroy': dict(requires=['wf0(H,this) || (H.al_fst.contains(this) && H.fst_m_left_leaf[this] == 0 && H.fst_m_right_leaf[this] == 0)'],
   ensures=['H0.fst_m_left_leaf[this] != 0 ==> forall|i:int| #![trigger H.g_seq[this][i]] 0 <= i < H.g_seq[this].len() ==> H.node_next[H.g_seq[this][i]] == 0 && H.node_prev[H.g_seq[this][i]] == 0',
     'forall|x:Ptr| #![trigger H.node_next[x]] #![trigger H.node_prev[x]] #![trigger H.nbase_parent[x]] H0.fst_m_left_leaf[this] == 0 || !H.g_seq[this].contains(x) ==> H.node_next[x] == H0.node_next[x] && H.node_prev[x] == H0.node_prev[x] && H.nbase_parent[x] == H0.nbase_parent[x]',
     'H.fst_m_root_node == H0.fst_m_root_node.insert(this, 0)','H.node_key == H0.node_key && H.node_value_leaf == H0.node_value_leaf && H.nbase_is_leaf == H0.nbase_is_leaf && H.g_seq == H0.g_seq','H.al_node == H0.al_node && H.al_fst == H0.al_fst && H.al_nl == H0.al_nl','H.fst_m_left_leaf == H0.fst_m_left_leaf && H.fst_m_right_leaf == H0.fst_m_right_leaf && H.fst_m_init_val == H0.fst_m_init_val && H.fst_m_valid_tree == H0.fst_m_valid_tree'],
   at={'entry':'let ghost s = H.g_seq[this]; let ghost mut i: int = 0; let ghost hh = H; proof { if H.fst_m_left_leaf[this] != 0 { lemma_lt(H,s,0,s.len()-1); lemma_diff(H,s,0); lemma_diff(H,s,s.len()-1); } }'},
   loops=[dict(inv=['hh.fst_m_left_leaf[this] != 0','wf0(hh,this) && s == hh.g_seq[this]','0 <= i < s.len() - 1','cur_node == s[i]','right_node == s[s.len()-1]',
      'forall|m:int| #![trigger H.node_next[s[m]]] i <= m < s.len() ==> H.node_next[s[m]] == hh.node_next[s[m]]',
      'forall|m:int| #![trigger s[m]] 0 <= m < i ==> H.node_next[s[m]] == 0 && H.node_prev[s[m]] == 0',
      'forall|x:Ptr| #![trigger H.node_next[x]] #![trigger H.node_prev[x]] !s.contains(x) ==> H.node_next[x] == hh.node_next[x] && H.node_prev[x] == hh.node_prev[x] && H.nbase_parent[x] == hh.nbase_parent[x]'],
      begin='proof { lemma_diff(hh,s,i); lemma_diff(hh,s,i+1); lemma_diff(hh,s,s.len()-1); }',end='proof { i = i + 1; }',dec='s.len() - i')]),
})

CONTRACTS.update({
 'fst.clear': dict(requires=['wf(H,this)'],
   ensures=['wf(H,this)','kmin(H,this) == kmin(H0,this)','kmax(H,this) == kmax(H0,this)','H.node_key == H0.node_key','H.fst_m_init_val == H0.fst_m_init_val',
     'forall|k:int| #![trigger look(H,H.g_seq[this],k)] kmin(H,this) <= k < kmax(H,this) ==> look(H,H.g_seq[this],k) == H0.fst_m_init_val[this]'],
   at={'entry':'let ghost s = H.g_seq[this]; let ghost hh = H; proof { lemma_lt(H,s,0,s.len()-1); lemma_diff(H,s,0); lemma_diff(H,s,s.len()-1); assert(s[0]==s[0] && s[s.len()-1]==s[s.len()-1]); }',
    'exit':"""let ghost nseq = seq![s[0], s[s.len()-1]]; gset_g_seq(h, this, Ghost(nseq)); proof { reveal(sorted); reveal(canon);
       let t = H.g_seq[this]; assert(t.len() == 2 && t[0] == s[0] && t[1] == s[s.len()-1]); 
       assert forall|k:int| #![trigger look(H,t,k)] kmin(H,this) <= k < kmax(H,this) implies look(H,t,k) == hh.fst_m_init_val[this] by { assert(covers(H,t,0,k)); lemma_look(H,t,0,k); } }"""}),
})

PRELUDE += r"""
// d is the copy, as far as node i, of the leaf chain s of h0
#[verifier::opaque] pub open spec fn copied(h0: Heap, s: Seq<Ptr>, h: Heap, d: Seq<Ptr>, i: int) -> bool {
    &&& 0 <= i < s.len() && d.len() == i + 1
    &&& forall|m: int| #![trigger d[m]] 0 <= m <= i ==> h.al_node.contains(d[m]) && !h0.al_node.contains(d[m]) && d[m] != 0 && h.nbase_is_leaf[d[m]] && h.node_key[d[m]] == h0.node_key[s[m]]
            && h.node_value_leaf[d[m]] == h0.node_value_leaf[s[m]] && h.node_next[d[m]] == (if m < i { d[m + 1] } else { 0 }) && h.node_prev[d[m]] == (if m > 0 { d[m - 1] } else { 0 })
}
#[verifier::opaque] pub open spec fn kept(h0: Heap, h: Heap) -> bool {
    forall|x: Ptr| #![trigger h.node_key[x]] #![trigger h.node_next[x]] #![trigger h.node_prev[x]] #![trigger h.node_value_leaf[x]] #![trigger h.nbase_is_leaf[x]] h0.al_node.contains(x) ==>
        h.node_key[x] == h0.node_key[x] && h.node_value_leaf[x] == h0.node_value_leaf[x] && h.node_next[x] == h0.node_next[x] && h.node_prev[x] == h0.node_prev[x] && h.nbase_is_leaf[x] == h0.nbase_is_leaf[x] && h.nbase_parent[x] == h0.nbase_parent[x]
}
pub open spec fn same_at(ha: Heap, h: Heap, x: Ptr) -> bool {
    h.node_key[x] == ha.node_key[x] && h.node_value_leaf[x] == ha.node_value_leaf[x] && h.node_prev[x] == ha.node_prev[x] && h.nbase_is_leaf[x] == ha.nbase_is_leaf[x] && h.nbase_parent[x] == ha.nbase_parent[x]
}
// one step: node n is fresh and is appended behind the last copied node
pub proof fn lemma_copy_step(h0: Heap, s: Seq<Ptr>, ha: Heap, d: Seq<Ptr>, i: int, h: Heap, n: Ptr)
    requires copied(h0, s, ha, d, i), kept(h0, ha), i + 1 < s.len(), n != 0, !ha.al_node.contains(n), h.al_node == ha.al_node.insert(n),
        forall|x: Ptr| h0.al_node.contains(x) ==> ha.al_node.contains(x),
        forall|x: Ptr| x != n ==> #[trigger] same_at(ha, h, x), forall|x: Ptr| #![trigger h.node_next[x]] x != n && x != d[i] ==> h.node_next[x] == ha.node_next[x],
        h.node_next[d[i]] == n, h.nbase_is_leaf[n], h.node_key[n] == h0.node_key[s[i + 1]], h.node_value_leaf[n] == h0.node_value_leaf[s[i + 1]], h.node_next[n] == 0, h.node_prev[n] == d[i], sorted(h0, s)
    ensures copied(h0, s, h, d.push(n), i + 1), kept(h0, h)
{
    reveal(copied); reveal(kept);
    let e = d.push(n);
    assert(ha.al_node.contains(d[i]));
    assert forall|m: int| #![trigger e[m]] 0 <= m <= i + 1 implies h.al_node.contains(e[m]) && !h0.al_node.contains(e[m]) && e[m] != 0 && h.nbase_is_leaf[e[m]] && h.node_key[e[m]] == h0.node_key[s[m]]
            && h.node_value_leaf[e[m]] == h0.node_value_leaf[s[m]] && h.node_next[e[m]] == (if m < i + 1 { e[m + 1] } else { 0 }) && h.node_prev[e[m]] == (if m > 0 { e[m - 1] } else { 0 }) by {
        if m <= i { assert(e[m] == d[m]); assert(same_at(ha, h, d[m])); if m < i { lemma_lt(h0, s, m, i); assert(d[m] != d[i]) by { assert(ha.node_key[d[m]] == h0.node_key[s[m]]); assert(ha.node_key[d[i]] == h0.node_key[s[i]]); } } }
    }
    assert forall|x: Ptr| #![trigger h.node_key[x]] #![trigger h.node_next[x]] #![trigger h.node_prev[x]] #![trigger h.node_value_leaf[x]] #![trigger h.nbase_is_leaf[x]] h0.al_node.contains(x) implies
        h.node_key[x] == h0.node_key[x] && h.node_value_leaf[x] == h0.node_value_leaf[x] && h.node_next[x] == h0.node_next[x] && h.node_prev[x] == h0.node_prev[x] && h.nbase_is_leaf[x] == h0.nbase_is_leaf[x] && h.nbase_parent[x] == h0.nbase_parent[x] by {
        assert(same_at(ha, h, x));
    }
}
pub proof fn lemma_copy_first(h0: Heap, s: Seq<Ptr>, h: Heap, n: Ptr)
    requires s.len() > 0, n != 0, !h0.al_node.contains(n), h.al_node == h0.al_node.insert(n), forall|x: Ptr| x != n ==> #[trigger] same_at(h0, h, x) && h.node_next[x] == h0.node_next[x],
        h.nbase_is_leaf[n], h.node_key[n] == h0.node_key[s[0]], h.node_value_leaf[n] == h0.node_value_leaf[s[0]], h.node_next[n] == 0, h.node_prev[n] == 0
    ensures copied(h0, s, h, seq![n], 0), kept(h0, h)
{
    reveal(copied); reveal(kept);
    assert forall|x: Ptr| #![trigger h.node_key[x]] #![trigger h.node_next[x]] #![trigger h.node_prev[x]] #![trigger h.node_value_leaf[x]] #![trigger h.nbase_is_leaf[x]] h0.al_node.contains(x) implies
        h.node_key[x] == h0.node_key[x] && h.node_value_leaf[x] == h0.node_value_leaf[x] && h.node_next[x] == h0.node_next[x] && h.node_prev[x] == h0.node_prev[x] && h.nbase_is_leaf[x] == h0.nbase_is_leaf[x] && h.nbase_parent[x] == h0.nbase_parent[x] by {
        assert(same_at(h0, h, x)); }
}
pub proof fn lemma_ck_frame(h0: Heap, s: Seq<Ptr>, ha: Heap, d: Seq<Ptr>, i: int, h: Heap)
    requires copied(h0, s, ha, d, i), kept(h0, ha), h.al_node == ha.al_node, h.node_key == ha.node_key, h.node_value_leaf == ha.node_value_leaf, h.node_next == ha.node_next, h.node_prev == ha.node_prev,
        h.nbase_is_leaf == ha.nbase_is_leaf, h.nbase_parent == ha.nbase_parent
    ensures copied(h0, s, h, d, i), kept(h0, h)
{ reveal(copied); reveal(kept); }
pub proof fn lemma_kept_use(h0: Heap, h: Heap, x: Ptr)
    requires kept(h0, h), h0.al_node.contains(x)
    ensures same_at(h0, h, x), h.node_next[x] == h0.node_next[x]
{ reveal(kept); assert(h.node_key[x] == h0.node_key[x]); }
// what a function that only adds nodes keeps
pub open spec fn kept2(h0: Heap, h: Heap) -> bool {
    &&& kept(h0, h) && !h.al_node.contains(0) && !h.al_nl.contains(0)
    &&& forall|x: Ptr| #![trigger h.al_node.contains(x)] h0.al_node.contains(x) ==> h.al_node.contains(x)
    &&& h.al_nl == h0.al_nl && h.nl_low == h0.nl_low && h.nl_high == h0.nl_high && h.nl_left == h0.nl_left && h.nl_right == h0.nl_right
    &&& forall|x: Ptr| #![trigger h.nbase_is_leaf[x]] h0.al_nl.contains(x) ==> h.nbase_is_leaf[x] == h0.nbase_is_leaf[x]
}
proof fn lemma_tree_frame2(h0: Heap, h: Heap, s: Seq<Ptr>, n: Ptr, d: nat, lo: int, hi: int)
    requires tree(h0, s, n, d, lo, hi), kept2(h0, h), linked(h0, s)
    ensures tree(h, s, n, d, lo, hi)
    decreases d
{
    reveal(kept);
    assert(h0.al_node.contains(s[lo])); lemma_kept_use(h0, h, s[lo]);
    let e = if hi < s.len() { hi } else { s.len() - 1 }; assert(h0.al_node.contains(s[e])); lemma_kept_use(h0, h, s[e]);
    if d > 1 {
        let mid = choose|mid: int| #[trigger] trig(mid) && tree(h0, s, h0.nl_left[n], (d - 1) as nat, lo, mid) && (
                (mid == hi && h0.nl_right[n] == 0) || (mid < hi && tree(h0, s, h0.nl_right[n], (d - 1) as nat, mid, hi)));
        lemma_tree_frame2(h0, h, s, h0.nl_left[n], (d - 1) as nat, lo, mid);
        if mid < hi { lemma_tree_frame2(h0, h, s, h0.nl_right[n], (d - 1) as nat, mid, hi); }
        assert(trig(mid));
    }
}
pub proof fn lemma_kept_tree(h0: Heap, h: Heap, t: Ptr)
    requires wf(h0, t), kept2(h0, h), h.g_seq[t] == h0.g_seq[t], h.fst_m_left_leaf[t] == h0.fst_m_left_leaf[t], h.fst_m_right_leaf[t] == h0.fst_m_right_leaf[t], h.fst_m_root_node[t] == h0.fst_m_root_node[t],
        h.fst_m_valid_tree[t] == h0.fst_m_valid_tree[t], h.al_fst.contains(t)
    ensures wf(h, t), kmin(h, t) == kmin(h0, t), kmax(h, t) == kmax(h0, t)
{
    let s = h.g_seq[t]; lemma_kept_chain(h0, s, h);
    assert(h0.al_node.contains(s[0]) && h0.al_node.contains(s[s.len() - 1])); lemma_kept_use(h0, h, s[0]); lemma_kept_use(h0, h, s[s.len() - 1]);
    if h.fst_m_valid_tree[t] && h.fst_m_root_node[t] != 0 { reveal(tree_ok); let n = h.fst_m_root_node[t]; let d = choose|d: nat| #[trigger] tree(h0, s, n, d, 0, s.len() as int); lemma_tree_frame2(h0, h, s, n, d, 0, s.len() as int); }
    if h.fst_m_valid_tree[t] { reveal(tree_ok); }
}
// the leaf chain of t does not meet the nodes whose links were cut
pub proof fn lemma_cut_other(h0: Heap, h: Heap, t: Ptr, c: Seq<Ptr>)
    requires wf(h0, t), forall|x: Ptr| #![trigger c.contains(x)] h0.g_seq[t].contains(x) ==> !c.contains(x), h.g_seq[t] == h0.g_seq[t],
        forall|x: Ptr| #![trigger h.node_next[x]] #![trigger h.node_prev[x]] !c.contains(x) ==> h.node_next[x] == h0.node_next[x] && h.node_prev[x] == h0.node_prev[x],
        h.node_key == h0.node_key, h.node_value_leaf == h0.node_value_leaf, h.nbase_is_leaf == h0.nbase_is_leaf, h.al_node == h0.al_node, h.al_nl == h0.al_nl, h.al_fst.contains(t),
        h.nl_low == h0.nl_low && h.nl_high == h0.nl_high && h.nl_left == h0.nl_left && h.nl_right == h0.nl_right,
        h.fst_m_left_leaf[t] == h0.fst_m_left_leaf[t], h.fst_m_right_leaf[t] == h0.fst_m_right_leaf[t], h.fst_m_root_node[t] == h0.fst_m_root_node[t], h.fst_m_valid_tree[t] == h0.fst_m_valid_tree[t]
    ensures wf(h, t), kmin(h, t) == kmin(h0, t), kmax(h, t) == kmax(h0, t), forall|k: int| #![trigger look(h, h.g_seq[t], k)] kmin(h, t) <= k < kmax(h, t) ==> look(h, h.g_seq[t], k) == look(h0, h.g_seq[t], k)
{
    let s = h.g_seq[t];
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies h.node_next[s[i]] == h0.node_next[s[i]] && h.node_prev[s[i]] == h0.node_prev[s[i]] by { assert(s.contains(s[i])); assert(!c.contains(s[i])); }
    assert(sorted(h, s)) by { reveal(sorted); assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] h.node_key[s[i]]) < #[trigger] h.node_key[s[j]] by { assert(h0.node_key[s[i]] < h0.node_key[s[j]]); } }
    assert(canon(h, s)) by { reveal(canon); assert forall|i: int, j: int| #![trigger h.node_value_leaf[s[i]], h.node_value_leaf[s[j]]] 0 <= i && j == i + 1 && j + 1 < s.len() implies h.node_value_leaf[s[i]].value != h.node_value_leaf[s[j]].value by { assert(h0.node_value_leaf[s[i]].value != h0.node_value_leaf[s[j]].value); } }
    if h.fst_m_valid_tree[t] { lemma_tree_ok_frame(h0, h, t); }
    assert forall|k: int| #![trigger look(h, s, k)] kmin(h, t) <= k < kmax(h, t) implies look(h, s, k) == look(h0, s, k) by {
        let i = lemma_seg(h0, s, k); assert(covers(h, s, i, k)); lemma_look(h, s, i, k); }
}
pub proof fn lemma_copied_all(h0: Heap, s: Seq<Ptr>, h: Heap, d: Seq<Ptr>)
    requires copied(h0, s, h, d, s.len() - 1)
    ensures d.len() == s.len(), forall|x: Ptr| #![trigger d.contains(x)] d.contains(x) ==> !h0.al_node.contains(x)
{ reveal(copied); assert forall|x: Ptr| #![trigger d.contains(x)] d.contains(x) implies !h0.al_node.contains(x) by { let m = choose|m: int| 0 <= m < d.len() && d[m] == x; assert(d[m] == x); } }
pub proof fn lemma_copied_use(h0: Heap, s: Seq<Ptr>, h: Heap, d: Seq<Ptr>, i: int)
    requires copied(h0, s, h, d, i)
    ensures h.al_node.contains(d[i]), !h0.al_node.contains(d[i]), d[i] != 0, d.len() == i + 1, h.node_next[d[i]] == 0
{ reveal(copied); }
pub proof fn lemma_copy_done(h0: Heap, s: Seq<Ptr>, h: Heap, d: Seq<Ptr>)
    requires linked(h0, s), sorted(h0, s), canon(h0, s), copied(h0, s, h, d, s.len() - 1)
    ensures linked(h, d), sorted(h, d), canon(h, d), k_of(h, d[0]) == k_of(h0, s[0]), k_of(h, d[d.len() - 1]) == k_of(h0, s[s.len() - 1]), v_of(h, d[d.len() - 1]) == v_of(h0, s[s.len() - 1]),
        forall|k: int| #![trigger look(h, d, k)] k_of(h0, s[0]) <= k < k_of(h0, s[s.len() - 1]) ==> look(h, d, k) == look(h0, s, k)
{
    reveal(copied);
    assert(sorted(h, d)) by { reveal(sorted); assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] h.node_key[d[i]]) < #[trigger] h.node_key[d[j]] by { assert(h0.node_key[s[i]] < h0.node_key[s[j]]); } }
    assert(canon(h, d)) by { reveal(canon); assert forall|i: int, j: int| #![trigger h.node_value_leaf[d[i]], h.node_value_leaf[d[j]]] 0 <= i && j == i + 1 && j + 1 < d.len() implies h.node_value_leaf[d[i]].value != h.node_value_leaf[d[j]].value by { assert(h0.node_value_leaf[s[i]].value != h0.node_value_leaf[s[j]].value); } }
    assert(d[0] == d[0] && d[d.len() - 1] == d[d.len() - 1]);
    assert forall|k: int| #![trigger look(h, d, k)] k_of(h0, s[0]) <= k < k_of(h0, s[s.len() - 1]) implies look(h, d, k) == look(h0, s, k) by {
        let i = lemma_seg(h0, s, k); assert(d[i] == d[i] && d[i + 1] == d[i + 1]); assert(covers(h, d, i, k)); lemma_look(h, d, i, k); lemma_look(h0, s, i, k);
    }
}
pub proof fn lemma_kept_chain(h0: Heap, s: Seq<Ptr>, h: Heap)
    requires linked(h0, s), sorted(h0, s), canon(h0, s), kept(h0, h), forall|x: Ptr| h0.al_node.contains(x) ==> h.al_node.contains(x)
    ensures linked(h, s), sorted(h, s), canon(h, s), forall|k: int| #![trigger look(h, s, k)] k_of(h0, s[0]) <= k < k_of(h0, s[s.len() - 1]) ==> look(h, s, k) == look(h0, s, k)
{
    reveal(kept);
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies h.node_key[s[i]] == h0.node_key[s[i]] && h.node_value_leaf[s[i]] == h0.node_value_leaf[s[i]] && h.node_next[s[i]] == h0.node_next[s[i]] && h.node_prev[s[i]] == h0.node_prev[s[i]] && h.nbase_is_leaf[s[i]] == h0.nbase_is_leaf[s[i]] by { assert(h0.al_node.contains(s[i])); }
    assert(sorted(h, s)) by { reveal(sorted); assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] h.node_key[s[i]]) < #[trigger] h.node_key[s[j]] by { assert(h0.node_key[s[i]] < h0.node_key[s[j]]); } }
    assert(canon(h, s)) by { reveal(canon); assert forall|i: int, j: int| #![trigger h.node_value_leaf[s[i]], h.node_value_leaf[s[j]]] 0 <= i && j == i + 1 && j + 1 < s.len() implies h.node_value_leaf[s[i]].value != h.node_value_leaf[s[j]].value by { assert(h0.node_value_leaf[s[i]].value != h0.node_value_leaf[s[j]].value); } }
    assert forall|k: int| #![trigger look(h, s, k)] k_of(h0, s[0]) <= k < k_of(h0, s[s.len() - 1]) implies look(h, s, k) == look(h0, s, k) by {
        let i = lemma_seg(h0, s, k); assert(s[i] == s[i] && s[i + 1] == s[i + 1]); assert(covers(h, s, i, k)); lemma_look(h, s, i, k); lemma_look(h0, s, i, k);
    }
}
"""
CONTRACTS.update({
 'fst.ctor/1': dict(where='const ',requires=['wf(H,r)','H.al_fst.contains(this)','this != r'],
   ensures=['wf(H,this)','kmin(H,this) == kmin(H0,r)','kmax(H,this) == kmax(H0,r)','H.fst_m_init_val[this] == H0.fst_m_init_val[r]',
     'forall|k:int| #![trigger look(H,H.g_seq[this],k)] kmin(H0,r) <= k < kmax(H0,r) ==> look(H,H.g_seq[this],k) == look(H0,H0.g_seq[r],k)',
     'forall|t:Ptr| #![trigger H.g_seq[t]] #![trigger H.fst_m_left_leaf[t]] t != this ==> H.g_seq[t] == H0.g_seq[t] && H.fst_m_left_leaf[t] == H0.fst_m_left_leaf[t] && H.fst_m_right_leaf[t] == H0.fst_m_right_leaf[t] && H.fst_m_init_val[t] == H0.fst_m_init_val[t] && H.fst_m_valid_tree[t] == H0.fst_m_valid_tree[t] && H.fst_m_root_node[t] == H0.fst_m_root_node[t]',
     'kept2(H0,H)','wf(H,r)','H.fst_m_root_node[this] == 0 && !H.fst_m_valid_tree[this]','forall|k:int| #![trigger look(H,H.g_seq[r],k)] kmin(H0,r) <= k < kmax(H0,r) ==> look(H,H.g_seq[r],k) == look(H0,H0.g_seq[r],k)',
     'forall|x:Ptr| #![trigger H.g_seq[this].contains(x)] H.g_seq[this].contains(x) ==> !H0.al_node.contains(x)','kept(H0,H)'],
   at={'entry':'let ghost s = H.g_seq[r]; let ghost hh = H; let ghost mut hb = H; let ghost mut hc = H; let ghost mut i: int = 0; let ghost mut d: Seq<Ptr> = seq![]; proof { assert(s[0] == s[0]); lemma_lt(H,s,0,s.len()-1); }',
    'decl:dest_node':'proof { d = seq![dest_node]; assert(H.node_next[s[0]] == s[1]); lemma_copy_first(hh,s,H,dest_node); }',
    'before_if':'proof { lemma_copy_step(hh,s,hb,d,i,H,dest_node); d = d.push(dest_node); i = i + 1; hc = H; }',
    'exit':'gset_g_seq(h, this, Ghost(d)); proof { lemma_ck_frame(hh,s,hc,d,i,H); lemma_copy_done(hh, s, H, d); lemma_kept_chain(hh, s, H); lemma_kept_tree(hh, H, r); lemma_copied_all(hh,s,H,d); assert(s[0]==s[0] && s[s.len()-1]==s[s.len()-1]); assert(d[0]==d[0] && d[d.len()-1]==d[d.len()-1]);  }'},
   loops=[dict(inv=['copied(hh,s,H,d,i)','0 <= i < s.len()-1','d.len() == i + 1','src_node == s[i]','dest_node == d[i]','H.fst_m_left_leaf[this] == d[0]','kept(hh,H)','!H.al_node.contains(0) && !H.al_nl.contains(0)',
       'forall|x:Ptr| #![trigger H.al_node.contains(x)] hh.al_node.contains(x) ==> H.al_node.contains(x)','forall|t:Ptr| #![trigger H.fst_m_right_leaf[t]] t != this ==> H.fst_m_right_leaf[t] == hh.fst_m_right_leaf[t]','forall|x:Ptr| #![trigger hh.al_nl.contains(x)] #![trigger H.nbase_is_leaf[x]] hh.al_nl.contains(x) ==> H.nbase_is_leaf[x] == hh.nbase_is_leaf[x]'],
     begin='proof { hb = H; assert(hh.al_node.contains(s[i]) && hh.al_node.contains(s[i+1])); lemma_diff(hh,s,i); lemma_diff(hh,s,i+1); lemma_diff(hh,s,s.len()-1); assert(s[i+1]==s[i+1]); lemma_kept_use(hh,H,s[i]); lemma_kept_use(hh,H,s[i+1]); lemma_copied_use(hh,s,H,d,i); assert(hh.node_next[s[i]] == s[i+1]); assert(hh.nbase_is_leaf[s[i+1]]); }',
     dec='s.len() - i')]),
})

CONTRACTS.update({
 'fst.ctor/1#m': dict(bind='fst.ctor/1',where='&&',requires=['wfe(H,other)','H.al_fst.contains(this)','this != other'],
   ensures=['wfe(H,this)','wfe(H,other)','H.fst_m_left_leaf[other] == 0 && H.fst_m_right_leaf[other] == 0 && H.fst_m_root_node[other] == 0 && !H.fst_m_valid_tree[other]','H0.fst_m_left_leaf[other] != 0 ==> wf(H,this)','H.g_seq[this] == H0.g_seq[other]','H.fst_m_init_val[this] == H0.fst_m_init_val[other]',
     'H.fst_m_left_leaf[this] == H0.fst_m_left_leaf[other] && H.fst_m_right_leaf[this] == H0.fst_m_right_leaf[other]',
     'forall|t:Ptr| #![trigger H.g_seq[t]] #![trigger H.fst_m_left_leaf[t]] t != this && t != other ==> H.g_seq[t] == H0.g_seq[t] && H.fst_m_left_leaf[t] == H0.fst_m_left_leaf[t] && H.fst_m_right_leaf[t] == H0.fst_m_right_leaf[t] && H.fst_m_init_val[t] == H0.fst_m_init_val[t] && H.fst_m_valid_tree[t] == H0.fst_m_valid_tree[t] && H.fst_m_root_node[t] == H0.fst_m_root_node[t]',
     'H.al_node == H0.al_node && H.al_nl == H0.al_nl && H.node_key == H0.node_key && H.node_value_leaf == H0.node_value_leaf && H.node_next == H0.node_next && H.node_prev == H0.node_prev && H.nbase_is_leaf == H0.nbase_is_leaf && H.nbase_parent == H0.nbase_parent'],
   at={'entry':'let ghost s = H.g_seq[other]; let ghost hh = H;',
    'exit':'gset_g_seq(h, this, Ghost(s)); proof { reveal(sorted); reveal(canon); reveal(tree_ok); if hh.fst_m_valid_tree[other] { lemma_swap_tree(hh, H, other, this); } }'}),
 'fst.dtor': dict(requires=['wfe(H,this)'],
   ensures=['forall|x:Ptr| #![trigger H.node_next[x]] #![trigger H.node_prev[x]] #![trigger H.nbase_parent[x]] H0.fst_m_left_leaf[this] == 0 || !H.g_seq[this].contains(x) ==> H.node_next[x] == H0.node_next[x] && H.node_prev[x] == H0.node_prev[x] && H.nbase_parent[x] == H0.nbase_parent[x]',
     'H.node_key == H0.node_key && H.node_value_leaf == H0.node_value_leaf && H.nbase_is_leaf == H0.nbase_is_leaf && H.g_seq == H0.g_seq','H.al_node == H0.al_node && H.al_nl == H0.al_nl',
     'forall|t:Ptr| #![trigger H.g_seq[t]] #![trigger H.fst_m_left_leaf[t]] t != this ==> H.fst_m_left_leaf[t] == H0.fst_m_left_leaf[t] && H.fst_m_right_leaf[t] == H0.fst_m_right_leaf[t] && H.fst_m_init_val[t] == H0.fst_m_init_val[t] && H.fst_m_valid_tree[t] == H0.fst_m_valid_tree[t] && H.fst_m_root_node[t] == H0.fst_m_root_node[t]']),
})
SAMEMAP='''kmin(H,this) == kmin(H0,other) && kmax(H,this) == kmax(H0,other) && H.fst_m_init_val[this] == H0.fst_m_init_val[other]'''
LOOKMAP='forall|k:int| #![trigger look(H,H.g_seq[this],k)] kmin(H0,other) <= k < kmax(H0,other) ==> look(H,H.g_seq[this],k) == look(H0,H0.g_seq[other],k)'
CONTRACTS.update({
 'fst.operator=#c': dict(bind='fst.operator=',where='const ',requires=['wf(H,other)','wfe(H,this)','apart(H,this,other)'],
   ensures=['r == this','wf(H,this)','wf(H,other)',SAMEMAP,LOOKMAP,
     'kmin(H,other) == kmin(H0,other) && kmax(H,other) == kmax(H0,other) && H.fst_m_init_val[other] == H0.fst_m_init_val[other]','forall|k:int| #![trigger look(H,H.g_seq[other],k)] kmin(H0,other) <= k < kmax(H0,other) ==> look(H,H.g_seq[other],k) == look(H0,H0.g_seq[other],k)'],
   at={'entry':'let ghost hh = H; let ghost mut hn = H; let ghost mut hc = H; let ghost mut hs = H; let ghost so = H.g_seq[other]; let ghost st = H.g_seq[this]; let ghost mut d = so;',
     'before_call:fst.ctor/1':'proof { lemma_cut_other(hh, H, other, seq![]); if hh.fst_m_left_leaf[this] != 0 { lemma_cut_other(hh, H, this, seq![]); } lemma_look_same(hh, H, so); hn = H; }','after_call:fst.ctor/1':'proof { hc = H; lemma_kept_tree(hn, H, other); assert(H.g_seq[this] == hn.g_seq[this]); assert(H.fst_m_left_leaf[this] == hn.fst_m_left_leaf[this]); if hh.fst_m_left_leaf[this] != 0 { lemma_kept_tree(hn, H, this); } }',
     'after_call:fst.swap':'''proof { hs = H; d = H.g_seq[this]; lemma_look_same(hc, hs, d); lemma_look_same(hc, hs, so); if this != other { lemma_cut_other(hc, hs, other, seq![]); }
        if hh.fst_m_left_leaf[this] != 0 { lemma_apart_new(hh, st, d); } }''',
     'exit':'proof { if hh.fst_m_left_leaf[this] != 0 { lemma_cut_other(hs, H, this, st); if this != other { lemma_cut_other(hs, H, other, st); } } else { lemma_cut_other(hs, H, this, seq![]); if this != other { lemma_cut_other(hs, H, other, seq![]); } } }'}),
 'fst.operator=#m': dict(bind='fst.operator=',where='&&',requires=['wfe(H,other)','wfe(H,this)','this != other','apart(H,this,other)'],
   ensures=['r == this','wfe(H,this)','H0.fst_m_left_leaf[other] != 0 ==> wf(H,this)','wfe(H,other)','H.fst_m_left_leaf[other] == 0','H0.fst_m_left_leaf[other] != 0 ==> '+SAMEMAP,'H0.fst_m_left_leaf[other] != 0 ==> '+LOOKMAP],
   at={'entry':'let ghost hh = H; let ghost mut hs = H; let ghost so = H.g_seq[other]; let ghost st = H.g_seq[this];',
     'before_call:fst.ctor/1#m':'proof { if hh.fst_m_left_leaf[other] != 0 { lemma_cut_other(hh, H, other, seq![]); } if hh.fst_m_left_leaf[this] != 0 { lemma_cut_other(hh, H, this, seq![]); } }',
     'after_call:fst.ctor/1#m':'proof { assert(H.fst_m_left_leaf[this] == hh.fst_m_left_leaf[this]); assert(H.g_seq[this] == hh.g_seq[this]); if hh.fst_m_left_leaf[this] != 0 { lemma_cut_other(hh, H, this, seq![]); } }',
     'after_call:fst.swap':'proof { hs = H; assert(other != ARG1); assert(H.fst_m_left_leaf[other] == 0); assert(H.fst_m_right_leaf[other] == 0); assert(!H.fst_m_valid_tree[other]); if hh.fst_m_left_leaf[other] != 0 { lemma_look_same(hh, hs, so); } }',
     'exit':'proof { assert(H.fst_m_left_leaf[other] == 0); if hh.fst_m_left_leaf[other] != 0 { if hh.fst_m_left_leaf[this] != 0 { lemma_cut_other(hs, H, this, st); } else { lemma_cut_other(hs, H, this, seq![]); } } }'}),
})
PRELUDE += r'''
// two trees share no leaf (or are the same tree)
pub open spec fn apart(h: Heap, a: Ptr, b: Ptr) -> bool { a == b || h.fst_m_left_leaf[a] == 0 || h.fst_m_left_leaf[b] == 0 || forall|x: Ptr| #![trigger h.g_seq[a].contains(x)] #![trigger h.g_seq[b].contains(x)] h.g_seq[a].contains(x) ==> !h.g_seq[b].contains(x) }
proof fn lemma_look_same(h0: Heap, h: Heap, s: Seq<Ptr>)
    requires sorted(h0, s), s.len() >= 2, h.node_key == h0.node_key, h.node_value_leaf == h0.node_value_leaf
    ensures forall|k: int| #![trigger look(h, s, k)] k_of(h0, s[0]) <= k < k_of(h0, s[s.len() - 1]) ==> look(h, s, k) == look(h0, s, k)
{
    assert(sorted(h, s)) by { reveal(sorted); assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] h.node_key[s[i]]) < #[trigger] h.node_key[s[j]] by { assert(h0.node_key[s[i]] < h0.node_key[s[j]]); } }
    assert forall|k: int| #![trigger look(h, s, k)] k_of(h0, s[0]) <= k < k_of(h0, s[s.len() - 1]) implies look(h, s, k) == look(h0, s, k) by {
        let i = lemma_seg(h0, s, k); assert(covers(h, s, i, k)); lemma_look(h, s, i, k); }
}
proof fn lemma_apart_new(h0: Heap, s: Seq<Ptr>, d: Seq<Ptr>)
    requires linked(h0, s), forall|x: Ptr| #![trigger d.contains(x)] d.contains(x) ==> !h0.al_node.contains(x)
    ensures forall|x: Ptr| #![trigger s.contains(x)] d.contains(x) ==> !s.contains(x)
{ assert forall|x: Ptr| #![trigger s.contains(x)] d.contains(x) implies !s.contains(x) by { if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(h0.al_node.contains(s[i])); } } }
'''
# ---- shifting
PRELUDE += r"""
// leaves s of h0 from index p on moved up by size; those pushed to or past the end are gone (e is the first of them)
#[verifier::opaque] pub open spec fn shr(h0: Heap, h: Heap, s: Seq<Ptr>, g: Seq<Ptr>, p: int, e: int, size: int) -> bool {
    let n = s.len() as int;
    &&& n >= 2 && 1 <= p <= e <= n - 1 && size > 0
    &&& g == s.take(e).push(s[n - 1])
    &&& forall|m: int| #![trigger s[m]] 0 <= m < p ==> k_of(h, s[m]) == k_of(h0, s[m])
    &&& forall|m: int| #![trigger s[m]] p <= m < e ==> k_of(h, s[m]) == k_of(h0, s[m]) + size && k_of(h0, s[m]) + size < k_of(h0, s[n - 1])
    &&& k_of(h, s[n - 1]) == k_of(h0, s[n - 1])
    &&& e < n - 1 ==> k_of(h0, s[e]) + size >= k_of(h0, s[n - 1])
    &&& forall|m: int| #![trigger s[m]] 0 <= m < n ==> v_of(h, s[m]) == v_of(h0, s[m])
}
pub open spec fn shr_src(kp: int, size: int, k: int) -> int { if k < kp { k } else if k < kp + size { kp - 1 } else { k - size } }
#[verifier::spinoff_prover]
pub proof fn lemma_shr_sorted(h0: Heap, h: Heap, s: Seq<Ptr>, g: Seq<Ptr>, p: int, e: int, size: int)
    requires sorted(h0, s), canon(h0, s), shr(h0, h, s, g, p, e, size)
    ensures sorted(h, g), canon(h, g), g.len() == e + 1, g.len() >= 2, g[0] == s[0], g[e] == s[s.len() - 1], v_of(h, g[e]) == v_of(h0, s[s.len() - 1])
{
    reveal(shr); reveal(sorted); reveal(canon); let n = s.len() as int;
    assert(forall|m: int| #![trigger g[m]] 0 <= m < e ==> g[m] == s[m]);
    assert(g[e] == s[n - 1]);
    assert forall|i: int, j: int| 0 <= i < j < g.len() implies (#[trigger] h.node_key[g[i]]) < #[trigger] h.node_key[g[j]] by {
        let jj = if j == e { n - 1 } else { j }; assert(g[i] == s[i]); assert(g[j] == s[jj]); assert(h0.node_key[s[i]] < h0.node_key[s[jj]]); }
    assert forall|i: int, j: int| #![trigger h.node_value_leaf[g[i]], h.node_value_leaf[g[j]]] 0 <= i && j == i + 1 && j + 1 < g.len() implies h.node_value_leaf[g[i]].value != h.node_value_leaf[g[j]].value by {
        assert(g[i] == s[i] && g[j] == s[j]); assert(h0.node_value_leaf[s[i]].value != h0.node_value_leaf[s[j]].value); assert(v_of(h, s[i]) == v_of(h0, s[i])); assert(v_of(h, s[j]) == v_of(h0, s[j])); }
}
#[verifier::spinoff_prover]
pub proof fn lemma_shr_look(h0: Heap, h: Heap, s: Seq<Ptr>, g: Seq<Ptr>, p: int, e: int, size: int, k: int)
    requires sorted(h0, s), canon(h0, s), shr(h0, h, s, g, p, e, size), k_of(h0, s[0]) <= k < k_of(h0, s[s.len() - 1])
    ensures look(h, g, k) == look(h0, s, shr_src(k_of(h0, s[p]) as int, size, k))
{
    lemma_shr_sorted(h0, h, s, g, p, e, size); reveal(shr); let n = s.len() as int; let kp = k_of(h0, s[p]) as int;
    assert(forall|m: int| #![trigger g[m]] 0 <= m < e ==> g[m] == s[m]); assert(g[e] == s[n - 1]);
    lemma_lt(h0, s, 0, p);
    if k < kp {
        let i = lemma_seg(h0, s, k); if i >= p { if i > p { lemma_lt(h0, s, p, i); } assert(false); }
        assert(g[i] == s[i]); if i == p - 1 { assert(s[p] == s[p]); assert(g[p] == s[if p == e { n - 1 } else { p }]); if p == e && p < n - 1 { lemma_lt(h0, s, p, n - 1); } } else { assert(g[i + 1] == s[i + 1]); }
        assert(covers(h, g, i, k)); lemma_look(h, g, i, k); lemma_look(h0, s, i, k);
    } else if k < kp + size {
        lemma_lt(h0, s, p - 1, p); assert(covers(h0, s, p - 1, kp - 1)); lemma_look(h0, s, p - 1, kp - 1);
        assert(g[p - 1] == s[p - 1]); if p == e { assert(g[p] == s[n - 1]); } else { assert(g[p] == s[p]); }
        assert(covers(h, g, p - 1, k)); lemma_look(h, g, p - 1, k);
    } else {
        let i = lemma_seg(h0, s, k - size); if i < p { if i + 1 < p { lemma_lt(h0, s, i + 1, p); } assert(false); }
        if i >= e { if e < n - 1 { if e < i { lemma_lt(h0, s, e, i); } } assert(false); }
        assert(g[i] == s[i]); if i + 1 == e { assert(g[i + 1] == s[n - 1]); } else { assert(g[i + 1] == s[i + 1]); }
        assert(covers(h, g, i, k)); lemma_look(h, g, i, k); lemma_look(h0, s, i, k - size);
    }
}

pub open spec fn shr_map(h0: Heap, s: Seq<Ptr>, pos: int, size: int, skip: bool, init: Val, k: int) -> Val {
    if size <= 0 || pos < k_of(h0, s[0]) || pos >= k_of(h0, s[s.len() - 1]) || k < pos { look(h0, s, k) } else if k >= pos + size { look(h0, s, k - size) } else if skip { look(h0, s, pos) } else if pos == k_of(h0, s[0]) { init } else { look(h0, s, pos - 1) }
}
// outcome of the loops: a new spine, and what the keys look up to now
#[verifier::spinoff_prover]
pub proof fn lemma_shr_fin(h0: Heap, h: Heap, s: Seq<Ptr>, p: int, e: int, size: int) -> (g: Seq<Ptr>)
    requires linked(h0, s), sorted(h0, s), canon(h0, s), 1 <= p <= e, e <= s.len() - 1, size > 0, h.node_value_leaf == h0.node_value_leaf,
        forall|m: int| #![trigger s[m]] 0 <= m < s.len() ==> h.node_key[s[m]] == h0.node_key[s[m]] + (if p <= m && m < e { size as int } else { 0 }),
        forall|m: int| #![trigger s[m]] p <= m < e ==> k_of(h0, s[m]) + size < k_of(h0, s[s.len() - 1]),
        e < s.len() - 1 ==> k_of(h0, s[e]) + size >= k_of(h0, s[s.len() - 1])
    ensures g == s.take(e).push(s[s.len() - 1]), shr(h0, h, s, g, p, e, size), sorted(h, g), canon(h, g), g.len() == e + 1, g.len() >= 2, g[0] == s[0], g[e] == s[s.len() - 1],
        forall|k: int| k_of(h0, s[0]) <= k < k_of(h0, s[s.len() - 1]) ==> #[trigger] look(h, g, k) == look(h0, s, shr_src(k_of(h0, s[p]) as int, size, k)),
        k_of(h, g[0]) == k_of(h0, s[0]), k_of(h, g[e]) == k_of(h0, s[s.len() - 1]), forall|x: Ptr| g.contains(x) ==> #[trigger] s.contains(x)
{
    let g = s.take(e).push(s[s.len() - 1]);
    assert(shr(h0, h, s, g, p, e, size)) by { reveal(shr); assert(s[s.len() - 1] == s[s.len() - 1]); if e < s.len() - 1 { assert(s[e] == s[e]); } }
    lemma_shr_sorted(h0, h, s, g, p, e, size);
    assert forall|k: int| k_of(h0, s[0]) <= k < k_of(h0, s[s.len() - 1]) implies #[trigger] look(h, g, k) == look(h0, s, shr_src(k_of(h0, s[p]) as int, size, k)) by { lemma_shr_look(h0, h, s, g, p, e, size, k); }
    assert(s[0] == s[0]); assert(g[e] == s[s.len() - 1]);
    assert forall|x: Ptr| g.contains(x) implies #[trigger] s.contains(x) by { let i = choose|i: int| 0 <= i < g.len() && g[i] == x; if i < e { assert(s[i] == x); } else { assert(s[s.len() - 1] == x); } }
    g
}
// the stated map follows
#[verifier::spinoff_prover]
pub proof fn lemma_shr_pos(h0: Heap, h: Heap, s: Seq<Ptr>, g: Seq<Ptr>, p: int, size: int, pos: int, skip: bool, init: Val)
    requires linked(h0, s), sorted(h0, s), 1 <= p < s.len(), size > 0, k_of(h0, s[p - 1]) <= pos <= k_of(h0, s[p]), pos < k_of(h0, s[s.len() - 1]), k_of(h0, s[p - 1]) == pos ==> skip || (p == 1 && v_of(h0, s[0]) == init), pos == k_of(h0, s[p]) ==> !skip,
        forall|k: int| k_of(h0, s[0]) <= k < k_of(h0, s[s.len() - 1]) ==> #[trigger] look(h, g, k) == look(h0, s, shr_src(k_of(h0, s[p]) as int, size, k))
    ensures forall|k: int| k_of(h0, s[0]) <= k < k_of(h0, s[s.len() - 1]) ==> #[trigger] look(h, g, k) == shr_map(h0, s, pos, size, skip, init, k)
{
    let kp = k_of(h0, s[p]) as int; lemma_lt(h0, s, 0, p); lemma_lt(h0, s, p - 1, p); if p > 1 { lemma_lt(h0, s, 0, p - 1); } if p < s.len() - 1 { lemma_lt(h0, s, p, s.len() - 1); }
    assert forall|k: int| k_of(h0, s[0]) <= k < k_of(h0, s[s.len() - 1]) implies #[trigger] look(h, g, k) == shr_map(h0, s, pos, size, skip, init, k) by {
        assert(covers(h0, s, p - 1, kp - 1)); lemma_look(h0, s, p - 1, kp - 1);
        if k >= pos { if k < kp { assert(covers(h0, s, p - 1, k)); lemma_look(h0, s, p - 1, k); } else {}
          if k >= pos + size && k - size < kp { assert(covers(h0, s, p - 1, k - size)); lemma_look(h0, s, p - 1, k - size); }
          if skip { if pos < kp { assert(covers(h0, s, p - 1, pos)); lemma_look(h0, s, p - 1, pos); } }
          else if pos > k_of(h0, s[0]) { assert(pos - 1 >= k_of(h0, s[p - 1])); assert(covers(h0, s, p - 1, pos - 1)); lemma_look(h0, s, p - 1, pos - 1); } }
    }
}
// the left-most leaf takes the base value, a new leaf behind it what it held before
#[verifier::spinoff_prover]
pub proof fn lemma_left_new(h0: Heap, h1: Heap, h: Heap, s: Seq<Ptr>, g: Seq<Ptr>, nn: Ptr, size: int, init: Val) -> (g2: Seq<Ptr>)
    requires !h1.al_node.contains(0), linked(h0, s), sorted(h0, s), linked(h1, g), sorted(h1, g), canon(h1, g), size > 0, g[0] == s[0], g[g.len() - 1] == s[s.len() - 1], k_of(h1, g[0]) == k_of(h0, s[0]), k_of(h1, g[g.len() - 1]) == k_of(h0, s[s.len() - 1]), v_of(h1, g[0]) == v_of(h0, s[0]), v_of(h0, s[0]) != init,
        forall|k: int| k_of(h0, s[0]) <= k < k_of(h0, s[s.len() - 1]) ==> #[trigger] look(h1, g, k) == look(h0, s, shr_src(k_of(h0, s[1]) as int, size, k)),
        k_of(h0, s[0]) + size < k_of(h1, g[1]), !h1.al_node.contains(nn), nn != 0,
        h.al_node == h1.al_node.insert(nn), h.nbase_is_leaf == h1.nbase_is_leaf.insert(nn, true),
        forall|m: int| #![trigger g[m]] 0 <= m < g.len() ==> h.node_key[g[m]] == h1.node_key[g[m]] && (m > 0 ==> h.node_value_leaf[g[m]].value == h1.node_value_leaf[g[m]].value),
        h.node_value_leaf[g[0]].value == init, h.node_value_leaf[nn].value == v_of(h0, s[0]), k_of(h, nn) == k_of(h0, s[0]) + size,
        forall|x: Ptr| x != nn && x != g[0] ==> #[trigger] h.node_next[x] == h1.node_next[x], forall|x: Ptr| x != nn && x != g[1] ==> #[trigger] h.node_prev[x] == h1.node_prev[x],
        h.node_next[g[0]] == nn, h.node_next[nn] == g[1], h.node_prev[nn] == g[0], h.node_prev[g[1]] == nn
    ensures g2 == seq![g[0], nn] + g.skip(1), linked(h, g2), sorted(h, g2), canon(h, g2), g2[0] == s[0], g2[g2.len() - 1] == s[s.len() - 1], v_of(h, g2[g2.len() - 1]) == v_of(h1, g[g.len() - 1]),
        forall|k: int| k_of(h0, s[0]) <= k < k_of(h0, s[s.len() - 1]) ==> #[trigger] look(h, g2, k) == shr_map(h0, s, k_of(h0, s[0]) as int, size, false, init, k)
{
    reveal(sorted); reveal(canon);
    let g2 = seq![g[0], nn] + g.skip(1); let n = g.len() as int;
    assert(forall|m: int| #![trigger g2[m]] 2 <= m < g2.len() ==> g2[m] == g[m - 1]); assert(g2[0] == g[0] && g2[1] == nn && g2.len() == n + 1);
    assert forall|i: int| 0 <= i < g2.len() implies h.al_node.contains(#[trigger] g2[i]) && h.nbase_is_leaf[g2[i]] && g2[i] != 0 by { if i != 1 { let j = if i == 0 { 0 } else { i - 1 }; assert(g2[i] == g[j]); assert(h1.al_node.contains(g[j])); assert(h1.nbase_is_leaf[g[j]]); } }
    assert forall|i: int| 0 <= i < g2.len() implies #[trigger] h.node_next[g2[i]] == (if i + 1 < g2.len() { g2[i + 1] } else { 0 }) by { if i >= 2 { lemma_diff(h1, g, i - 1); assert(h1.al_node.contains(g[i - 1])); assert(g[i - 1] != g[0]); assert(h1.node_next[g[i - 1]] == (if i < g.len() { g[i] } else { 0 })); } }
    assert forall|i: int| 0 <= i < g2.len() implies #[trigger] h.node_prev[g2[i]] == (if i > 0 { g2[i - 1] } else { 0 }) by { lemma_diff(h1, g, 1); if i == 0 { assert(g[0] != g[1]); assert(h1.al_node.contains(g[0])); assert(h1.node_prev[g[0]] == 0); } else if i >= 3 { assert(g[i - 1] != g[1]); assert(h1.al_node.contains(g[i - 1])); assert(h1.node_prev[g[i - 1]] == g[i - 2]); } }
    assert forall|i: int, j: int| 0 <= i < j < g2.len() implies (#[trigger] h.node_key[g2[i]]) < #[trigger] h.node_key[g2[j]] by {
        let a = if i <= 1 { 0 } else { i - 1 }; let b = j - 1;
        assert(h.node_key[g[a]] == h1.node_key[g[a]]); assert(h.node_key[g[b]] == h1.node_key[g[b]]);
        if j >= 2 { assert(h1.node_key[g[a]] < h1.node_key[g[b]]); if i == 1 && b > 1 { assert(h1.node_key[g[1]] < h1.node_key[g[b]]); } } }
    assert forall|i: int, j: int| #![trigger h.node_value_leaf[g2[i]], h.node_value_leaf[g2[j]]] 0 <= i && j == i + 1 && j + 1 < g2.len() implies h.node_value_leaf[g2[i]].value != h.node_value_leaf[g2[j]].value by {
        if i >= 1 { let a = i - 1; assert(g2[j] == g[a + 1]); assert(h1.node_value_leaf[g[a]].value != h1.node_value_leaf[g[a + 1]].value); if i >= 2 { assert(g2[i] == g[a]); } } }
    assert forall|k: int| k_of(h0, s[0]) <= k < k_of(h0, s[s.len() - 1]) implies #[trigger] look(h, g2, k) == shr_map(h0, s, k_of(h0, s[0]) as int, size, false, init, k) by {
        let pos = k_of(h0, s[0]) as int; assert(look(h1, g, k) == look(h0, s, shr_src(k_of(h0, s[1]) as int, size, k))); lemma_lt(h0, s, 0, 1);
        assert(h.node_key[g[0]] == h1.node_key[g[0]]);
        if k < pos + size { assert(covers(h, g2, 0, k)); lemma_look(h, g2, 0, k); }
        else { let i = lemma_seg(h1, g, k); lemma_look(h1, g, i, k); assert(g2[i + 2] == g[i + 1]); assert(h.node_key[g[i + 1]] == h1.node_key[g[i + 1]]); if i > 0 { assert(g2[i + 1] == g[i]); assert(h.node_key[g[i]] == h1.node_key[g[i]]); } assert(covers(h, g2, i + 1, k)); lemma_look(h, g2, i + 1, k);
          if k - size < k_of(h0, s[1]) { assert(covers(h0, s, 0, k - size)); lemma_look(h0, s, 0, k - size); if k >= k_of(h0, s[1]) { assert(covers(h0, s, 0, k_of(h0, s[1]) - 1)); lemma_look(h0, s, 0, k_of(h0, s[1]) - 1); } else { assert(covers(h0, s, 0, k)); lemma_look(h0, s, 0, k); } } }
    }
    g2
}
// everything has been shifted out
#[verifier::spinoff_prover]
pub proof fn lemma_left_all(h0: Heap, h1: Heap, h: Heap, s: Seq<Ptr>, g: Seq<Ptr>, size: int, init: Val)
    requires linked(h0, s), sorted(h0, s), linked(h1, g), sorted(h1, g), g.len() == 2, size > 0, g[0] == s[0], g[1] == s[s.len() - 1], k_of(h0, s[0]) + size >= k_of(h0, s[s.len() - 1]),
        k_of(h1, g[0]) == k_of(h0, s[0]), k_of(h1, g[1]) == k_of(h0, s[s.len() - 1]), h.node_key == h1.node_key, h.node_next == h1.node_next, h.node_prev == h1.node_prev, h.al_node == h1.al_node, h.nbase_is_leaf == h1.nbase_is_leaf,
        h.node_value_leaf[g[0]].value == init
    ensures linked(h, g), sorted(h, g), canon(h, g), forall|k: int| k_of(h0, s[0]) <= k < k_of(h0, s[s.len() - 1]) ==> #[trigger] look(h, g, k) == shr_map(h0, s, k_of(h0, s[0]) as int, size, false, init, k)
{
    reveal(sorted); reveal(canon);
    assert forall|i: int, j: int| 0 <= i < j < g.len() implies (#[trigger] h.node_key[g[i]]) < #[trigger] h.node_key[g[j]] by { assert(h1.node_key[g[i]] < h1.node_key[g[j]]); }
    assert forall|k: int| k_of(h0, s[0]) <= k < k_of(h0, s[s.len() - 1]) implies #[trigger] look(h, g, k) == shr_map(h0, s, k_of(h0, s[0]) as int, size, false, init, k) by { assert(covers(h, g, 0, k)); lemma_look(h, g, 0, k); }
}
"""
SHR_INV=['linked(h0,s)','sorted(h0,s)','s == h0.g_seq[h0.g_arg[0]]','H.g_seq == h0.g_seq','shift_value > 0','1 <= gp && gp < s.len()','gp <= ge && ge < s.len()','*end_node == s[s.len()-1]','end_node_key == k_of(h0,s[s.len()-1])',
  'H.al_node == h0.al_node && H.nbase_is_leaf == h0.nbase_is_leaf','H.node_value_leaf == h0.node_value_leaf','node_frame(h0,H,s)',
  'forall|m:int| #![trigger s[m]] 0 <= m < s.len() ==> H.node_key[s[m]] == h0.node_key[s[m]] + (if gp <= m && m < ge { shift_value as int } else { 0 })',
  'forall|m:int| #![trigger s[m]] gp <= m < ge ==> k_of(h0,s[m]) + shift_value < k_of(h0,s[s.len()-1])']
SHR_OUT='ge < s.len() - 1 ==> k_of(h0,s[ge]) + shift_value >= k_of(h0,s[s.len()-1])'
PRELUDE += r"""
#[verifier::opaque] pub open spec fn shr_out(h0: Heap, h: Heap, s: Seq<Ptr>, p: int, e: int, size: int) -> bool {
    &&& p <= e <= s.len() - 1
    &&& linked(h, s.take(e).push(s[s.len() - 1]))
    &&& forall|m: int| #![trigger s[m]] 0 <= m < s.len() ==> h.node_key[s[m]] == h0.node_key[s[m]] + (if p <= m && m < e { size as int } else { 0 })
    &&& forall|m: int| #![trigger s[m]] p <= m < e ==> k_of(h0, s[m]) + size < k_of(h0, s[s.len() - 1])
    &&& e < s.len() - 1 ==> k_of(h0, s[e]) + size >= k_of(h0, s[s.len() - 1])
}
"""
GHOST.append(('g_arg','Ptr'))
CONTRACTS['fst.shift_leaf_key_right']=dict(rlimit=100,
  requires=['linked(H,H.g_seq[H.g_arg[0]])','sorted(H,H.g_seq[H.g_arg[0]])','H.g_seq[H.g_arg[0]].contains(*old(cur_node))','at(H.g_seq[H.g_arg[0]],*old(cur_node)) >= 1','shift_value > 0','*old(end_node) == H.g_seq[H.g_arg[0]][H.g_seq[H.g_arg[0]].len()-1]'],
  ensures=['exists|e: int| #[trigger] shr_out(H0,H,H0.g_seq[H0.g_arg[0]],at(H0.g_seq[H0.g_arg[0]],*old(cur_node)),e,shift_value as int)','node_frame(H0,H,H0.g_seq[H0.g_arg[0]])','*final(end_node) == *old(end_node)'],
  loops=[dict(inv=SHR_INV,xb=['*cur_node == s[ge]','linked(H,s)'],ens=['linked(H,s.take(ge).push(s[s.len()-1]))',SHR_OUT],dec='s.len() - ge',
       begin='proof { lemma_diff(h0,s,ge); lemma_diff(h0,s,s.len()-1); if ge < s.len() - 1 { lemma_lt(h0,s,ge,s.len()-1); } }',
       brk='proof { assert(ge == s.len() - 1); assert(s.take(ge).push(s[s.len()-1]) =~= s); }'),
      dict(before='proof { gj = ge; } let ghost hj = H;',inv=SHR_INV+['*cur_node == s[gj]','ge <= gj && gj < s.len()','ge < s.len() - 1',SHR_OUT,'last_node == s[ge-1]',
        'forall|m:int| #![trigger H.node_next[s[m]]] 0 <= m < s.len() && (m < ge || m >= gj) ==> H.node_next[s[m]] == (if m + 1 < s.len() { s[m + 1] } else { 0 })','forall|m:int| #![trigger H.node_prev[s[m]]] 0 <= m < s.len() && (m < ge || m >= gj) ==> H.node_prev[s[m]] == (if m > 0 { s[m - 1] } else { 0 })'],dec='s.len() - gj',
        begin='proof { lemma_diff(h0,s,gj); lemma_diff(h0,s,s.len()-1); }',end='proof { gj = gj + 1; }',
        after='proof { lemma_diff(h0,s,ge-1); lemma_diff(h0,s,s.len()-1); lemma_lt(h0,s,ge-1,s.len()-1); }')],
  at={'entry':'let ghost s = H.g_seq[H.g_arg[0]]; let ghost mut gp = at(s,*cur_node); let ghost mut ge = gp; let ghost mut gj = gp; proof { lemma_at2(s,*cur_node); lemma_diff(H,s,s.len()-1); }',
    'after_store:node.key:1':'proof { ge = ge + 1; }','exit':'proof { reveal(shr_out); assert(shr_out(h0,H,s,gp,ge,shift_value as int)); }'})
SHR_MAP='forall|k: int| kmin(H0,this) <= k < kmax(H0,this) ==> #[trigger] look(H,H.g_seq[this],k) == shr_map(H0,H0.g_seq[this],pos as int,size as int,skip_start_node,H0.fst_m_init_val[this],k)'
CONTRACTS['fst.is_in_bound_after_shift']=dict(requires=['shift_value > 0','key <= end_key'],ensures=['r == (key + shift_value < end_key)'])
CONTRACTS['fst.shift_right']=dict(requires=['wf(H,this)'],ensures=['wf(H,this)','kmin(H,this) == kmin(H0,this)','kmax(H,this) == kmax(H0,this)',SHR_MAP,'node_frame(H0,H,H0.g_seq[this])','forall|t: Ptr| t != this ==> #[trigger] H.g_seq[t] == H0.g_seq[t]'],rlimit=200,
  at={'entry':'let ghost s = H.g_seq[this]; let ghost mut gp = 1int; let ghost mut ge = 1int; let ghost mut gj = 1int; let ghost mut nw = false; let ghost mut nn = 0u64; let ghost mut hq = H; let ghost mut gg = s; proof { lemma_lt(H,s,0,1); lemma_lt(H,s,0,s.len()-1); lemma_diff(H,s,0); lemma_diff(H,s,1); lemma_diff(H,s,s.len()-1); }',
    'before_call:fst.shift_leaf_key_right:1':'proof { lemma_at(s,h0,1); gp = 1; } gset_g_arg(h, 0, Ghost(this)); let ghost hp1 = H; proof { reveal(sorted); }','before_call:fst.shift_leaf_key_right:2':'proof { lemma_at2(s,cur_node_2); gp = at(s,cur_node_2); lemma_diff(h0,s,gp); lemma_lt(h0,s,0,gp); lemma_lt(h0,s,gp-1,gp); } gset_g_arg(h, 0, Ghost(this)); let ghost hp2 = H; proof { reveal(sorted); }',
    'after_call:fst.shift_leaf_key_right:1':'proof { reveal(shr_out); reveal(sorted); reveal(canon); let hx = Heap { fst_m_right_leaf: hp1.fst_m_right_leaf, ..H }; ge = choose|e: int| #[trigger] shr_out(hp1,hx,s,gp,e,size as int); assert(shr_out(hp1,hx,s,gp,ge,size as int)); gg = lemma_shr_fin(h0,H,s,1,ge,size as int); } gset_g_seq(h, this, Ghost(gg)); proof { hq = H; }',
    'after_call:fst.shift_leaf_key_right:2':'proof { reveal(shr_out); reveal(sorted); reveal(canon); let hx = Heap { fst_m_right_leaf: hp2.fst_m_right_leaf, ..H }; ge = choose|e: int| #[trigger] shr_out(hp2,hx,s,gp,e,size as int); assert(shr_out(hp2,hx,s,gp,ge,size as int)); gg = lemma_shr_fin(h0,H,s,gp,ge,size as int); } gset_g_seq(h, this, Ghost(gg)); proof { hq = H; }',
    'after_store:node.next:2':'proof { nw = true; nn = new_node; gg = seq![gg[0], nn] + gg.skip(1); } gset_g_seq(h, this, Ghost(gg));',
    'after_store:fst.m_valid_tree:1':"""proof { reveal(sorted); reveal(canon); let init = h0.fst_m_init_val[this]; let g1 = lemma_shr_fin(h0,hq,s,1,ge,size as int);
       if skip_start_node || v_of(h0,s[0]) == init { let g2 = lemma_shr_fin(h0,H,s,1,ge,size as int); lemma_shr_pos(h0,H,s,g2,1,size as int,pos as int,skip_start_node,init); }
       else if nw { assert(H.al_node =~= hq.al_node.insert(nn)); assert(H.nbase_is_leaf =~= hq.nbase_is_leaf.insert(nn,true)); let g2 = lemma_left_new(h0,hq,H,s,g1,nn,size as int,init); }
       else { lemma_left_all(h0,hq,H,s,g1,size as int,init); } }""",
    'after_store:fst.m_valid_tree:2':'proof { reveal(sorted); reveal(canon); let g2 = lemma_shr_fin(h0,H,s,gp,ge,size as int); lemma_shr_pos(h0,H,s,g2,gp,size as int,pos as int,skip_start_node,h0.fst_m_init_val[this]); }'})

# ---- shift_left
CHAIN=['wf0(H,this)','canon(H,H.g_seq[this])']
PRELUDE += r"""
// what appending a segment of the initial value from key k0 on does to the chain: g replaces s
#[verifier::opaque] pub open spec fn app_ok(h0: Heap, h: Heap, s: Seq<Ptr>, g: Seq<Ptr>, k0: int, init: Val) -> bool {
    &&& sorted(h, g) && canon(h, g) && linked(h, g)
    &&& g[0] == s[0] && g[g.len() - 1] == s[s.len() - 1] && k_of(h, g[0]) == k_of(h0, s[0]) && k_of(h, g[g.len() - 1]) == k_of(h0, s[s.len() - 1]) && v_of(h, g[g.len() - 1]) == v_of(h0, s[s.len() - 1])
    &&& forall|k: int| k_of(h0, s[0]) <= k < k_of(h0, s[s.len() - 1]) ==> #[trigger] look(h, g, k) == (if k >= k0 { init } else { look(h0, s, k) })
}
// the last segment already starts at k0: it takes the initial value
#[verifier::spinoff_prover] #[verifier::rlimit(80)]
pub proof fn lemma_app_set(h0: Heap, h: Heap, s: Seq<Ptr>, k0: int, init: Val)
    requires linked(h0, s), sorted(h0, s), canon(h0, s), k_of(h0, s[s.len() - 2]) == k0, linked(h, s), h.node_key == h0.node_key,
        forall|x: Ptr| x != s[s.len() - 2] ==> #[trigger] h.node_value_leaf[x] == h0.node_value_leaf[x], h.node_value_leaf[s[s.len() - 2]].value == init,
        s.len() >= 3 ==> v_of(h0, s[s.len() - 3]) != init
    ensures app_ok(h0, h, s, s, k0, init)
{
    let n = s.len() as int; reveal(app_ok); lemma_diff(h0, s, n - 2);
    assert(sorted(h, s)) by { reveal(sorted); assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] h.node_key[s[i]]) < #[trigger] h.node_key[s[j]] by { assert(h0.node_key[s[i]] < h0.node_key[s[j]]); } }
    assert(canon(h, s)) by { reveal(canon); assert forall|i: int, j: int| #![trigger h.node_value_leaf[s[i]], h.node_value_leaf[s[j]]] 0 <= i && j == i + 1 && j + 1 < s.len() implies h.node_value_leaf[s[i]].value != h.node_value_leaf[s[j]].value by { lemma_canon(h0, s, i); } }
    assert forall|k: int| k_of(h0, s[0]) <= k < k_of(h0, s[n - 1]) implies #[trigger] look(h, s, k) == (if k >= k0 { init } else { look(h0, s, k) }) by {
        let i = lemma_seg(h0, s, k); assert(covers(h, s, i, k)); lemma_look(h, s, i, k); if i < n - 2 { if i + 1 < n - 2 { lemma_lt(h0, s, i + 1, n - 2); } } }
}
// the segment before it has the initial value too: the last segment joins it
#[verifier::spinoff_prover] #[verifier::rlimit(80)]
pub proof fn lemma_app_join(h0: Heap, h: Heap, s: Seq<Ptr>, k0: int, init: Val)
    requires linked(h0, s), sorted(h0, s), canon(h0, s), s.len() >= 3, k_of(h0, s[s.len() - 2]) == k0, h.node_key == h0.node_key, h.al_node == h0.al_node, h.nbase_is_leaf == h0.nbase_is_leaf,
        forall|x: Ptr| x != s[s.len() - 2] ==> #[trigger] h.node_value_leaf[x] == h0.node_value_leaf[x],
        v_of(h0, s[s.len() - 3]) == init,
        forall|x: Ptr| x != s[s.len() - 2] && x != s[s.len() - 3] ==> #[trigger] h.node_next[x] == h0.node_next[x], h.node_next[s[s.len() - 3]] == s[s.len() - 1],
        forall|x: Ptr| x != s[s.len() - 2] && x != s[s.len() - 1] ==> #[trigger] h.node_prev[x] == h0.node_prev[x], h.node_prev[s[s.len() - 1]] == s[s.len() - 3]
    ensures app_ok(h0, h, s, s.take(s.len() - 2).push(s[s.len() - 1]), k0, init)
{
    let n = s.len() as int; let g = s.take(n - 2).push(s[n - 1]); reveal(app_ok); lemma_diff(h0, s, n - 2); lemma_diff(h0, s, n - 1); lemma_diff(h0, s, n - 3); lemma_lt(h0, s, n - 2, n - 1);
    assert(forall|m: int| #![trigger g[m]] 0 <= m < n - 2 ==> g[m] == s[m]); assert(g[n - 2] == s[n - 1]);
    assert(linked(h, g));
    assert(sorted(h, g)) by { reveal(sorted); assert forall|i: int, j: int| 0 <= i < j < g.len() implies (#[trigger] h.node_key[g[i]]) < #[trigger] h.node_key[g[j]] by { let jj = if j == n - 2 { n - 1 } else { j }; assert(h0.node_key[s[i]] < h0.node_key[s[jj]]); } }
    assert(canon(h, g)) by { reveal(canon); assert forall|i: int, j: int| #![trigger h.node_value_leaf[g[i]], h.node_value_leaf[g[j]]] 0 <= i && j == i + 1 && j + 1 < g.len() implies h.node_value_leaf[g[i]].value != h.node_value_leaf[g[j]].value by { lemma_canon(h0, s, i); } }
    assert forall|k: int| k_of(h0, s[0]) <= k < k_of(h0, s[n - 1]) implies #[trigger] look(h, g, k) == (if k >= k0 { init } else { look(h0, s, k) }) by {
        let i = lemma_seg(h0, s, k); let ii = if i == n - 2 { n - 3 } else { i }; if i < n - 2 { lemma_lt(h0, s, i, n - 2); if i + 1 < n - 2 { lemma_lt(h0, s, i + 1, n - 2); } } lemma_lt(h0, s, n - 3, n - 2);
        assert(covers(h, g, ii, k)); lemma_look(h, g, ii, k); }
}
pub proof fn lemma_app_none(h: Heap, s: Seq<Ptr>, k0: int, init: Val)
    requires linked(h, s), sorted(h, s), canon(h, s), k_of(h, s[s.len() - 2]) < k0, v_of(h, s[s.len() - 2]) == init
    ensures app_ok(h, h, s, s, k0, init)
{
    reveal(app_ok); let n = s.len() as int;
    assert forall|k: int| k_of(h, s[0]) <= k < k_of(h, s[n - 1]) implies #[trigger] look(h, s, k) == (if k >= k0 { init } else { look(h, s, k) }) by {
        let i = lemma_seg(h, s, k); if k >= k0 && i < n - 2 { if i + 1 < n - 2 { lemma_lt(h, s, i + 1, n - 2); } } }
}
#[verifier::spinoff_prover] #[verifier::rlimit(80)]
pub proof fn lemma_app_new(h0: Heap, h: Heap, s: Seq<Ptr>, nn: Ptr, k0: int, init: Val)
    requires linked(h0, s), sorted(h0, s), canon(h0, s), k_of(h0, s[s.len() - 2]) < k0 < k_of(h0, s[s.len() - 1]), v_of(h0, s[s.len() - 2]) != init, nn != 0, !h0.al_node.contains(nn), !h0.al_node.contains(0),
        h.al_node == h0.al_node.insert(nn), forall|x: Ptr| x != nn ==> #[trigger] h.nbase_is_leaf[x] == h0.nbase_is_leaf[x], h.nbase_is_leaf[nn],
        forall|x: Ptr| x != nn ==> #[trigger] h.node_value_leaf[x] == h0.node_value_leaf[x], h.node_value_leaf[nn].value == init,
        forall|x: Ptr| x != nn ==> #[trigger] h.node_key[x] == h0.node_key[x], h.node_key[nn] == k0,
        forall|x: Ptr| x != nn && x != s[s.len() - 2] ==> #[trigger] h.node_next[x] == h0.node_next[x], h.node_next[s[s.len() - 2]] == nn, h.node_next[nn] == s[s.len() - 1],
        forall|x: Ptr| x != nn && x != s[s.len() - 1] ==> #[trigger] h.node_prev[x] == h0.node_prev[x], h.node_prev[s[s.len() - 1]] == nn, h.node_prev[nn] == s[s.len() - 2]
    ensures app_ok(h0, h, s, s.drop_last().push(nn).push(s[s.len() - 1]), k0, init)
{
    let n = s.len() as int; let g = s.drop_last().push(nn).push(s[n - 1]); reveal(app_ok); lemma_diff(h0, s, n - 2); lemma_diff(h0, s, n - 1); lemma_lt(h0, s, n - 2, n - 1);
    assert(forall|m: int| #![trigger g[m]] 0 <= m < n - 1 ==> g[m] == s[m]); assert(g[n - 1] == nn); assert(g[n] == s[n - 1]);
    assert forall|m: int| #![trigger s[m]] 0 <= m < n implies s[m] != nn by { assert(h0.al_node.contains(s[m])); }
    assert(linked(h, g));
    assert(sorted(h, g)) by { reveal(sorted); assert forall|i: int, j: int| 0 <= i < j < g.len() implies (#[trigger] h.node_key[g[i]]) < #[trigger] h.node_key[g[j]] by {
        if i < n - 1 { if i < n - 2 { assert(h0.node_key[s[i]] < h0.node_key[s[n - 2]]); } if j < n - 1 { assert(h0.node_key[s[i]] < h0.node_key[s[j]]); } } } }
    assert(canon(h, g)) by { reveal(canon); assert forall|i: int, j: int| #![trigger h.node_value_leaf[g[i]], h.node_value_leaf[g[j]]] 0 <= i && j == i + 1 && j + 1 < g.len() implies h.node_value_leaf[g[i]].value != h.node_value_leaf[g[j]].value by { lemma_canon(h0, s, i); } }
    assert forall|k: int| k_of(h0, s[0]) <= k < k_of(h0, s[n - 1]) implies #[trigger] look(h, g, k) == (if k >= k0 { init } else { look(h0, s, k) }) by {
        let i = lemma_seg(h0, s, k); let ii = if k >= k0 { n - 1 } else { i }; if i < n - 2 { if i + 1 < n - 2 { lemma_lt(h0, s, i + 1, n - 2); } }
        assert(covers(h, g, ii, k)); lemma_look(h, g, ii, k); }
}
"""
CONTRACTS['fst.append_new_segment']=dict(rlimit=100,
  requires=CHAIN+['start_key < kmax(H,this)','k_of(H,H.g_seq[this][H.g_seq[this].len()-2]) <= start_key'],
  ensures=CHAIN+['app_ok(H0,H,H0.g_seq[this],H.g_seq[this],start_key as int,H0.fst_m_init_val[this])','node_frame(H0,H,H0.g_seq[this])','H.fst_m_valid_tree[this] ==> H == H0','forall|t: Ptr| t != this ==> #[trigger] H.g_seq[t] == H0.g_seq[t]'],
  at={'entry':'let ghost s = H.g_seq[this]; let ghost n = s.len() as int; let ghost mut g = s; let ghost mut jn = false; let ghost mut nw = 0u64; proof { lemma_diff(H,s,n-1); lemma_diff(H,s,n-2); lemma_diff(H,s,n-3); lemma_lt(H,s,n-2,n-1); assert(s.contains(s[n-1])); lemma_canon(H,s,n-3); }',
  'after_store:fst.m_valid_tree:1':'proof { if n >= 3 && v_of(h0,s[n-3]) == h0.fst_m_init_val[this] { jn = true; g = s.take(n-2).push(s[n-1]); } } gset_g_seq(h, this, Ghost(g)); proof { if jn { lemma_app_join(h0,H,s,start_key as int,h0.fst_m_init_val[this]); } else { lemma_app_set(h0,H,s,start_key as int,h0.fst_m_init_val[this]); } }',
  'after_store:fst.m_valid_tree:2':'proof { g = s.drop_last().push(nw).push(s[n-1]); } gset_g_seq(h, this, Ghost(g)); proof { lemma_app_new(h0,H,s,nw,start_key as int,h0.fst_m_init_val[this]); }',
  'decl:new_node':'proof { nw = new_node; }',
  'exit':'proof { if k_of(h0,s[n-2]) < start_key && v_of(h0,s[n-2]) == h0.fst_m_init_val[this] { lemma_app_none(h0,s,start_key as int,h0.fst_m_init_val[this]); } reveal(app_ok); }',
  })

CONTRACTS['fst.shift_leaf_key_left']=dict(rlimit=60,
  requires=['linked(H,H.g_seq[H.g_arg[0]])','sorted(H,H.g_seq[H.g_arg[0]])','H.g_seq[H.g_arg[0]].contains(*old(begin_node))','shift_value > 0','*old(end_node) == H.g_seq[H.g_arg[0]][H.g_seq[H.g_arg[0]].len()-1]',
    'forall|m: int| #![trigger H.g_seq[H.g_arg[0]][m]] at(H.g_seq[H.g_arg[0]],*old(begin_node)) <= m < H.g_seq[H.g_arg[0]].len() - 1 ==> k_of(H,H.g_seq[H.g_arg[0]][m]) - shift_value >= i64::MIN'],
  ensures=['forall|m: int| #![trigger H0.g_seq[H0.g_arg[0]][m]] 0 <= m < H0.g_seq[H0.g_arg[0]].len() ==> H.node_key[H0.g_seq[H0.g_arg[0]][m]] == H0.node_key[H0.g_seq[H0.g_arg[0]][m]] - (if at(H0.g_seq[H0.g_arg[0]],*old(begin_node)) <= m && m < H0.g_seq[H0.g_arg[0]].len() - 1 { shift_value as int } else { 0 })',
    'forall|x: Ptr| #![trigger H.node_key[x]] !H0.g_seq[H0.g_arg[0]].contains(x) ==> H.node_key[x] == H0.node_key[x]','*final(end_node) == *old(end_node)','*final(begin_node) == *old(begin_node)'],
  loops=[dict(inv=['linked(h0,s)','sorted(h0,s)','gp <= gj && gj < s.len()','0 <= gp','cur_node_p == s[gj]','end_node_p == s[s.len()-1]','shift_value > 0','linked(H,s)',
       'forall|m: int| #![trigger s[m]] gp <= m < s.len() - 1 ==> k_of(h0,s[m]) - shift_value >= i64::MIN',
       'forall|m: int| #![trigger s[m]] 0 <= m < s.len() ==> H.node_key[s[m]] == h0.node_key[s[m]] - (if gp <= m && m < gj { shift_value as int } else { 0 })',
       'forall|x: Ptr| #![trigger H.node_key[x]] !s.contains(x) ==> H.node_key[x] == h0.node_key[x]'],
     ens=['gj == s.len() - 1'],dec='s.len() - gj',begin='proof { lemma_diff(h0,s,gj); lemma_diff(h0,s,s.len()-1); }',end='proof { gj = gj + 1; }')],
  at={'entry':'let ghost s = H.g_seq[H.g_arg[0]]; let ghost gp = at(s,*begin_node); let ghost mut gj = gp; proof { lemma_at2(s,*begin_node); lemma_diff(H,s,s.len()-1); }'})
PRELUDE += r"""
// s of h0 with the keys [start,end) taken out, in g of h: leaves p..q are gone (one stays at start when keep), the leaves from q on moved down
pub open spec fn shl_g(s: Seq<Ptr>, p: int, q: int, keep: bool) -> Seq<Ptr> { if keep { s.take(p + 1) + s.skip(q) } else { s.take(p) + s.skip(q) } }
#[verifier::opaque] pub open spec fn shl(h0: Heap, h: Heap, s: Seq<Ptr>, p: int, q: int, keep: bool, start: int, end: int) -> bool {
    let n = s.len() as int;
    &&& 0 <= p <= q && q <= n - 1 && (keep || p >= 1) && (keep ==> p < q) && start < end
    &&& k_of(h0, s[0]) <= start && end <= k_of(h0, s[n - 1])
    &&& p > 0 ==> k_of(h0, s[p - 1]) < start
    &&& k_of(h0, s[p]) >= start && (q < n - 1 ==> k_of(h0, s[q]) > end) && (q > p ==> k_of(h0, s[q - 1]) <= end)
    &&& keep && p > 0 ==> v_of(h0, s[p - 1]) != v_of(h0, s[q - 1])
    &&& !keep ==> v_of(h0, s[p - 1]) == v_of(h0, s[q - 1])
    &&& forall|m: int| #![trigger s[m]] 0 <= m < p || q <= m < n ==> h.node_key[s[m]] == h0.node_key[s[m]] - (if q <= m && m < n - 1 { end - start } else { 0 }) && h.node_value_leaf[s[m]].value == h0.node_value_leaf[s[m]].value
    &&& keep ==> k_of(h, s[p]) == start && v_of(h, s[p]) == v_of(h0, s[q - 1])
}
#[verifier::spinoff_prover] #[verifier::rlimit(80)]
pub proof fn lemma_shl_sorted(h0: Heap, h: Heap, s: Seq<Ptr>, p: int, q: int, keep: bool, start: int, end: int)
    requires sorted(h0, s), canon(h0, s), s.len() >= 2, shl(h0, h, s, p, q, keep, start, end)
    ensures ({ let g = shl_g(s, p, q, keep); sorted(h, g) && canon(h, g) && g.len() >= 2 && g[0] == s[0] && g[g.len() - 1] == s[s.len() - 1] && k_of(h, g[0]) == k_of(h0, s[0]) && k_of(h, g[g.len() - 1]) == k_of(h0, s[s.len() - 1])
        && v_of(h, g[g.len() - 1]) == v_of(h0, s[s.len() - 1]) && k_of(h, g[g.len() - 2]) <= k_of(h0, s[s.len() - 1]) - (end - start) && k_of(h0, s[s.len() - 1]) - (end - start) < k_of(h0, s[s.len() - 1]) })
{
    reveal(shl); let n = s.len() as int; let g = shl_g(s, p, q, keep); let c = if keep { p + 1 } else { p }; lemma_lt(h0, s, 0, n - 1);
    if p > 0 { lemma_lt(h0, s, 0, p); }
    assert(forall|m: int| #![trigger g[m]] 0 <= m < c ==> g[m] == s[m]); assert(forall|m: int| #![trigger g[m]] c <= m < c + n - q ==> g[m] == s[m - c + q]); assert(g.len() == c + n - q);
    assert(sorted(h, g)) by { reveal(sorted); assert forall|i: int, j: int| 0 <= i < j < g.len() implies (#[trigger] h.node_key[g[i]]) < #[trigger] h.node_key[g[j]] by {
        let ii = if i < c { i } else { i - c + q }; let jj = if j < c { j } else { j - c + q };
        assert(h0.node_key[s[ii]] < h0.node_key[s[jj]]); if ii < p - 1 { assert(h0.node_key[s[ii]] < h0.node_key[s[p - 1]]); } if jj > q { assert(h0.node_key[s[q]] < h0.node_key[s[jj]]); } } }
    assert(canon(h, g)) by { reveal(canon); assert forall|i: int, j: int| #![trigger h.node_value_leaf[g[i]], h.node_value_leaf[g[j]]] 0 <= i && j == i + 1 && j + 1 < g.len() implies h.node_value_leaf[g[i]].value != h.node_value_leaf[g[j]].value by {
        let ii = if i < c { i } else { i - c + q }; let jj = if j < c { j } else { j - c + q }; lemma_canon(h0, s, ii); lemma_canon(h0, s, q - 1); } }
    if g.len() - 2 >= c { assert(g[g.len() - 2] == s[n - 2]); lemma_lt(h0, s, n - 2, n - 1); }
}
#[verifier::spinoff_prover] #[verifier::rlimit(80)]
pub proof fn lemma_shl_look(h0: Heap, h: Heap, s: Seq<Ptr>, p: int, q: int, keep: bool, start: int, end: int, k: int)
    requires sorted(h0, s), canon(h0, s), s.len() >= 2, shl(h0, h, s, p, q, keep, start, end), k_of(h0, s[0]) <= k < k_of(h0, s[s.len() - 1]) - (end - start)
    ensures look(h, shl_g(s, p, q, keep), k) == look(h0, s, if k < start { k } else { k + (end - start) })
{
    lemma_shl_sorted(h0, h, s, p, q, keep, start, end);
    reveal(shl); let n = s.len() as int; let g = shl_g(s, p, q, keep); let c = if keep { p + 1 } else { p };
    assert(forall|m: int| #![trigger g[m]] 0 <= m < c ==> g[m] == s[m]); assert(forall|m: int| #![trigger g[m]] c <= m < c + n - q ==> g[m] == s[m - c + q]); assert(g.len() == c + n - q);
    if k < start {
        let i = lemma_seg(h0, s, k);
        if i >= p { if i > p { lemma_lt(h0, s, p, i); } }
        assert(i < p);
        assert(covers(h, g, i, k)) by { if i + 1 < p { assert(g[i + 1] == s[i + 1]); } else if keep { assert(g[i + 1] == s[p]); } else { assert(g[i + 1] == s[q]); } }
        lemma_look(h, g, i, k);
    } else {
        let kk = k + (end - start); let i = lemma_seg(h0, s, kk);
        if i < q - 1 { if i + 1 < q - 1 { lemma_lt(h0, s, i + 1, q - 1); } if i + 1 == p && p > 0 {} if q > p { } }
        if i < q - 1 { if q == p { lemma_lt(h0, s, i + 1, p); } }
        assert(i >= q - 1) by { if i < q - 1 { if q > p { assert(k_of(h0, s[q - 1]) <= end); } else { assert(k_of(h0, s[p - 1]) < start); } } }
        let ii = if i == q - 1 { c - 1 } else { i - q + c };
        assert(covers(h, g, ii, k)) by {
            assert(g[ii + 1] == s[i + 1]); if i == q - 1 { if keep { assert(g[ii] == s[p]); } else { assert(g[ii] == s[p - 1]); } } else { assert(g[ii] == s[i]); }
        }
        lemma_look(h, g, ii, k);
    }
}
pub open spec fn shl_map(h0: Heap, s: Seq<Ptr>, start: int, end: int, init: Val, k: int) -> Val {
    if k < start { look(h0, s, k) } else if k < k_of(h0, s[s.len() - 1]) - (end - start) { look(h0, s, k + (end - start)) } else { init }
}
pub proof fn lemma_shl_fin(h0: Heap, h1: Heap, h: Heap, s: Seq<Ptr>, p: int, q: int, keep: bool, start: int, end: int, g: Seq<Ptr>, k0: int, init: Val)
    requires sorted(h0, s), canon(h0, s), s.len() >= 2, shl(h0, h1, s, p, q, keep, start, end), k0 == k_of(h0, s[s.len() - 1]) - (end - start), app_ok(h1, h, shl_g(s, p, q, keep), g, k0, init)
    ensures forall|k: int| k_of(h0, s[0]) <= k < k_of(h0, s[s.len() - 1]) ==> #[trigger] look(h, g, k) == shl_map(h0, s, start, end, init, k)
{
    lemma_shl_sorted(h0, h1, s, p, q, keep, start, end); reveal(app_ok); let g1 = shl_g(s, p, q, keep);
    assert(start <= k0) by { reveal(shl); }
    assert forall|k: int| k_of(h0, s[0]) <= k < k_of(h0, s[s.len() - 1]) implies #[trigger] look(h, g, k) == shl_map(h0, s, start, end, init, k) by {
        if k < k0 { lemma_shl_look(h0, h1, s, p, q, keep, start, end, k); assert(look(h1, g1, k) == look(h1, g1, k)); }
    }
}
"""

PRELUDE += r"""
pub proof fn lemma_app_frame(h0: Heap, h1: Heap, h: Heap, s: Seq<Ptr>, g: Seq<Ptr>, k0: int, init: Val)
    requires app_ok(h0, h1, s, g, k0, init), g.len() >= 2, h.node_key == h1.node_key, h.node_value_leaf == h1.node_value_leaf, h.node_next == h1.node_next, h.node_prev == h1.node_prev, h.al_node == h1.al_node, h.nbase_is_leaf == h1.nbase_is_leaf
    ensures app_ok(h0, h, s, g, k0, init)
{
    reveal(app_ok); lemma_look_same(h1, h, g);
    assert(sorted(h, g)) by { reveal(sorted); assert forall|i: int, j: int| 0 <= i < j < g.len() implies (#[trigger] h.node_key[g[i]]) < #[trigger] h.node_key[g[j]] by { assert(h1.node_key[g[i]] < h1.node_key[g[j]]); } }
    assert(canon(h, g)) by { reveal(canon); assert forall|i: int, j: int| #![trigger h.node_value_leaf[g[i]], h.node_value_leaf[g[j]]] 0 <= i && j == i + 1 && j + 1 < g.len() implies h.node_value_leaf[g[i]].value != h.node_value_leaf[g[j]].value by { lemma_canon(h1, g, i); } }
}
// nothing removed but key space: leaves from p on moved down
#[verifier::spinoff_prover] #[verifier::rlimit(80)]
pub proof fn lemma_shl_plain(h0: Heap, h: Heap, s: Seq<Ptr>, p: int, start: int, end: int)
    requires linked(h0, s), sorted(h0, s), canon(h0, s), 1 <= p < s.len(), start < end, k_of(h0, s[0]) <= start, end <= k_of(h0, s[s.len() - 1]), k_of(h0, s[p - 1]) < start, p < s.len() - 1 ==> k_of(h0, s[p]) > end,
        forall|m: int| #![trigger s[m]] 0 <= m < s.len() ==> h.node_key[s[m]] == h0.node_key[s[m]] - (if p <= m && m < s.len() - 1 { end - start } else { 0 }),
        h.node_value_leaf == h0.node_value_leaf, h.node_next == h0.node_next, h.node_prev == h0.node_prev, h.al_node == h0.al_node, h.nbase_is_leaf == h0.nbase_is_leaf
    ensures shl(h0, h, s, p, p, false, start, end), shl_g(s, p, p, false) == s, linked(h, s), sorted(h, s), canon(h, s), k_of(h, s[s.len() - 2]) <= k_of(h0, s[s.len() - 1]) - (end - start), k_of(h, s[0]) == k_of(h0, s[0]), k_of(h, s[s.len() - 1]) == k_of(h0, s[s.len() - 1])
{
    assert(shl_g(s, p, p, false) =~= s); assert(shl(h0, h, s, p, p, false, start, end)) by { reveal(shl); } lemma_shl_sorted(h0, h, s, p, p, false, start, end);
}
// the chain right after leaves p..q were unlinked
#[verifier::spinoff_prover] #[verifier::rlimit(80)]
pub proof fn lemma_shl_link(h0: Heap, h: Heap, s: Seq<Ptr>, p: int, q: int, keep: bool, start: int)
    requires linked(h0, s), sorted(h0, s), 0 <= p < q < s.len(), keep || p >= 1, h.al_node == h0.al_node, h.nbase_is_leaf == h0.nbase_is_leaf,
        p > 0 ==> k_of(h0, s[p - 1]) < start, start < k_of(h0, s[q]),
        forall|m: int| #![trigger s[m]] 0 <= m < p || q <= m < s.len() ==> h.node_key[s[m]] == h0.node_key[s[m]], keep ==> h.node_key[s[p]] == start,
        forall|m: int| #![trigger h.node_next[s[m]]] 0 <= m < (if keep { p } else { p - 1 }) || q <= m < s.len() ==> h.node_next[s[m]] == (if m + 1 < s.len() { s[m + 1] } else { 0 }),
        forall|m: int| #![trigger h.node_prev[s[m]]] 0 <= m < (if keep { p + 1 } else { p }) || q < m < s.len() ==> h.node_prev[s[m]] == (if m > 0 { s[m - 1] } else { 0 }),
        h.node_next[s[if keep { p } else { p - 1 }]] == s[q], h.node_prev[s[q]] == s[if keep { p } else { p - 1 }]
    ensures ({ let g = shl_g(s, p, q, keep); let c = if keep { p + 1 } else { p }; linked(h, g) && sorted(h, g) && g.len() == c + s.len() - q && g.len() >= 2 && g[c] == s[q] && g[g.len() - 1] == s[s.len() - 1] && at(g, s[q]) == c && g.contains(s[q])
        && (forall|m: int| #![trigger g[m]] c <= m < g.len() ==> g[m] == s[m - c + q]) && (forall|m: int| #![trigger g[m]] 0 <= m < c ==> g[m] == s[m]) && forall|x: Ptr| #![trigger g.contains(x)] g.contains(x) ==> s.contains(x) })
{
    let n = s.len() as int; let g = shl_g(s, p, q, keep); let c = if keep { p + 1 } else { p };
    assert(g.len() == c + n - q);
    assert(forall|m: int| #![trigger g[m]] 0 <= m < c ==> g[m] == s[m]); assert(forall|m: int| #![trigger g[m]] c <= m < c + n - q ==> g[m] == s[m - c + q]);
    assert(linked(h, g));
    assert(sorted(h, g)) by { reveal(sorted); assert forall|i: int, j: int| 0 <= i < j < g.len() implies (#[trigger] h.node_key[g[i]]) < #[trigger] h.node_key[g[j]] by {
        let ii = if i < c { i } else { i - c + q }; let jj = if j < c { j } else { j - c + q };
        assert(h0.node_key[s[ii]] < h0.node_key[s[jj]]); if ii < p - 1 { assert(h0.node_key[s[ii]] < h0.node_key[s[p - 1]]); } if jj > q { assert(h0.node_key[s[q]] < h0.node_key[s[jj]]); } } }
    lemma_at(g, h, c);
    assert forall|x: Ptr| #![trigger g.contains(x)] g.contains(x) implies s.contains(x) by { let m = choose|m: int| 0 <= m < g.len() && g[m] == x; if m < c { assert(s[m] == x); } else { assert(s[m - c + q] == x); } }
}
#[verifier::spinoff_prover] #[verifier::rlimit(80)]
pub proof fn lemma_shl_make(h0: Heap, h1: Heap, h: Heap, s: Seq<Ptr>, p: int, q: int, keep: bool, start: int, end: int)
    requires linked(h0, s), sorted(h0, s), canon(h0, s), 0 <= p < q < s.len(), keep || p >= 1, start < end, k_of(h0, s[0]) <= start, end <= k_of(h0, s[s.len() - 1]), p > 0 ==> k_of(h0, s[p - 1]) < start, k_of(h0, s[p]) >= start,
        q < s.len() - 1 ==> k_of(h0, s[q]) > end, k_of(h0, s[q - 1]) <= end, keep && p > 0 ==> v_of(h0, s[p - 1]) != v_of(h0, s[q - 1]), !keep ==> v_of(h0, s[p - 1]) == v_of(h0, s[q - 1]),
        forall|m: int| #![trigger s[m]] 0 <= m < p || q <= m < s.len() ==> h1.node_key[s[m]] == h0.node_key[s[m]], keep ==> h1.node_key[s[p]] == start,
        forall|m: int| #![trigger shl_g(s, p, q, keep)[m]] 0 <= m < shl_g(s, p, q, keep).len() ==> h.node_key[shl_g(s, p, q, keep)[m]] == h1.node_key[shl_g(s, p, q, keep)[m]] - (if (if keep { p + 1 } else { p }) <= m && m < shl_g(s, p, q, keep).len() - 1 { end - start } else { 0 }),
        forall|m: int| #![trigger s[m]] 0 <= m < s.len() && m != p ==> h.node_value_leaf[s[m]].value == h0.node_value_leaf[s[m]].value, keep ==> v_of(h, s[p]) == v_of(h0, s[q - 1])
    ensures shl(h0, h, s, p, q, keep, start, end)
{
    let n = s.len() as int; let g = shl_g(s, p, q, keep); let c = if keep { p + 1 } else { p }; reveal(shl);
    assert(g.len() == c + n - q);
    assert forall|m: int| #![trigger s[m]] 0 <= m < p || q <= m < n implies h.node_key[s[m]] == h0.node_key[s[m]] - (if q <= m && m < n - 1 { end - start } else { 0 }) && h.node_value_leaf[s[m]].value == h0.node_value_leaf[s[m]].value by {
        let i = if m < p { m } else { m - q + c }; assert(g[i] == s[m]); }
    if keep { assert(g[p] == s[p]); }
}
"""
CONTRACTS['fst.shift_left']=dict(rlimit=200,requires=['wf(H,this)','kmax(H,this) - kmin(H,this) <= i64::MAX'],ensures=['wf(H,this)','kmin(H,this) == kmin(H0,this)','kmax(H,this) == kmax(H0,this)',
   'start_key < end_key && start_key >= kmin(H0,this) && end_key <= kmax(H0,this) ==> forall|k: int| kmin(H0,this) <= k < kmax(H0,this) ==> #[trigger] look(H,H.g_seq[this],k) == shl_map(H0,H0.g_seq[this],start_key as int,end_key as int,H0.fst_m_init_val[this],k)',
   '!(start_key < end_key && start_key >= kmin(H0,this) && end_key <= kmax(H0,this)) ==> H == H0',
   'node_frame(H0,H,H0.g_seq[this])','forall|t: Ptr| t != this ==> #[trigger] H.g_seq[t] == H0.g_seq[t]'],
  loops=[dict(inv=['gp < gq && gq < n','node_pos == s[gq]','last_seg_value == v_of(h0,s[gq-1])','start_pos == s[gp]','k_of(h0,s[gq-1]) <= end_key',
      'forall|m: int| #![trigger H.node_next[s[m]]] 0 <= m < gp || gq <= m < n ==> H.node_next[s[m]] == (if m + 1 < n { s[m + 1] } else { 0 })',
      'forall|m: int| #![trigger H.node_prev[s[m]]] 0 <= m < gp || gq < m < n ==> H.node_prev[s[m]] == (if m > 0 { s[m - 1] } else { 0 })',
      'gp > 0 ==> H.node_prev[s[gp]] == s[gp-1]','gp == 0 ==> H.node_prev[s[gp]] == 0',
      'forall|x: Ptr| #![trigger H.node_next[x]] #![trigger H.node_prev[x]] !s.contains(x) ==> H.node_next[x] == h0.node_next[x] && H.node_prev[x] == h0.node_prev[x]'],
      ens=['gq < n - 1 ==> k_of(h0,s[gq]) > end_key'],dec='n - gq',begin='proof { lemma_diff(h0,s,gq); if gq < n - 1 { lemma_diff(h0,s,gq+1); lemma_lt(h0,s,gq,n-1); } }',end='proof { gq = gq + 1; }')],
  at={'entry':'let ghost s = H.g_seq[this]; let ghost n = s.len() as int; let ghost mut gp = 0int; let ghost mut gq = 0int; let ghost mut keep = true; let ghost mut g = s; let ghost mut hb = H; let ghost mut ha = H; proof { lemma_lt(H,s,0,n-1); lemma_diff(H,s,0); lemma_diff(H,s,1); lemma_diff(H,s,n-1); lemma_diff(H,s,n-2); if n > 2 { lemma_lt(H,s,0,1); } }',
   'after_if:4':'proof { if node_pos != 0 { lemma_at2(s,node_pos); gp = at(s,node_pos); lemma_diff(H,s,gp); if gp > 0 { assert(k_of(H,s[gp-1]) < start_key); } if gp < n - 1 { lemma_lt(H,s,gp,n-1); lemma_diff(H,s,gp+1); lemma_lt(H,s,gp,gp+1); } } }',
   'before_call:fst.append_new_segment:1':'proof { gp = n-1; lemma_shl_plain(h0,H,s,n-1,start_key as int,end_key as int); }',
   'before_call:fst.append_new_segment:2':'proof { gp = n-1; lemma_shl_plain(h0,H,s,n-1,start_key as int,end_key as int); }',
   'after_call:fst.append_new_segment:1':'proof { lemma_shl_fin(h0,h0,H,s,n-1,n-1,false,start_key as int,end_key as int,H.g_seq[this],start_key as int,h0.fst_m_init_val[this]); }',
   'after_call:fst.append_new_segment:2':'proof { lemma_shl_fin(h0,h0,H,s,n-1,n-1,false,start_key as int,end_key as int,H.g_seq[this],kmax(h0,this) - segment_size,h0.fst_m_init_val[this]); }',
   'before_call:fst.shift_leaf_key_left:1':'gset_g_arg(h, 0, Ghost(this)); proof { assert forall|m: int| #![trigger s[m]] gp <= m < n - 1 implies k_of(H,s[m]) - segment_size >= i64::MIN by { if m > gp { lemma_lt(h0,s,gp,m); } } }',
   'before_call:fst.append_new_segment:3':'proof { hb = H; lemma_shl_plain(h0,H,s,gp,start_key as int,end_key as int); }',
   'after_call:fst.append_new_segment:3':'proof { ha = H; reveal(app_ok); }',
   'after_store:fst.m_valid_tree:1':'proof { lemma_app_frame(hb,ha,H,s,H.g_seq[this],kmax(h0,this) - segment_size,h0.fst_m_init_val[this]); lemma_shl_fin(h0,hb,H,s,gp,gp,false,start_key as int,end_key as int,H.g_seq[this],kmax(h0,this) - segment_size,h0.fst_m_init_val[this]); reveal(app_ok); }',
   'decl:last_seg_value':'proof { gq = gp + 1; }',
   'before_call:fst.shift_leaf_key_left:2':"""proof { lemma_lt(h0,s,gp,gq); if gq < n-1 { lemma_lt(h0,s,gq,n-1); } if gp > 0 { lemma_diff(h0,s,gp-1); } lemma_diff(h0,s,gq); keep = !(gp > 0 && v_of(h0,s[gp-1]) == v_of(h0,s[gq-1])); g = shl_g(s,gp,gq,keep); lemma_shl_link(h0,H,s,gp,gq,keep,start_key as int); }
       gset_g_seq(h, this, Ghost(g)); gset_g_arg(h, 0, Ghost(this)); proof { lemma_shl_link(h0,H,s,gp,gq,keep,start_key as int); hb = H;
       assert forall|m: int| #![trigger g[m]] at(g,node_pos) <= m < g.len() - 1 implies k_of(H,g[m]) - segment_size >= i64::MIN by { let mm = m - at(g,node_pos) + gq; if mm > gq { lemma_lt(h0,s,gq,mm); } } }""",
   'before_call:fst.append_new_segment:4':"""proof { ha = H; lemma_shl_make(h0,hb,H,s,gp,gq,keep,start_key as int,end_key as int); lemma_shl_sorted(h0,H,s,gp,gq,keep,start_key as int,end_key as int); }""",
   'after_call:fst.append_new_segment:4':"""proof { lemma_shl_fin(h0,ha,H,s,gp,gq,keep,start_key as int,end_key as int,H.g_seq[this],kmax(h0,this) - segment_size,h0.fst_m_init_val[this]); reveal(app_ok); }""",
  })
