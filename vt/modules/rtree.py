from base import *
NAME='rtree'
DRIVER="""
#include <cstddef>
#include <string>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <functional>
namespace mdds_drv { struct Val { unsigned long id; }; }
#include <mdds/rtree.hpp>
template class mdds::rtree<long, mdds_drv::Val>;
using rt = mdds::rtree<long, mdds_drv::Val>;
void use(rt& t, const rt& c, const rt::extent_type& e, const rt::point_type& p) { t.search(e, rt::search_type::overlap); t.search(p, rt::search_type::overlap); c.search(e, rt::search_type::overlap); c.search(p, rt::search_type::overlap); }
"""
HEAP={'ns':r'rtree::node_store<','dirn':r'rtree::directory_node<','valn':r'rtree::value_node<','rt':r'^rtree<long,mdds_drv::Val'}
ABSTRACT={'nod':r'rtree::node<'}
RECORDS={'pt':r'rtree::point_type<','ext':r'rtree::extent_type<','srb':r'search_results_base<.*node_store','ent':r'search_results_base::entry<'}
OPAQUE=['Val','Cond']
U=('i','u64')
P=r'^(const )?(typename )?(mdds::)?(rtree<.*>::|node_store::|directory_node::|const_search_results::|search_results::|search_results_base(<.*>)?::)*'
TYPES_RAW=[(r'^(const )?std::_Deque_iterator<.*node_store.*>$|^(const )?(std::)?deque<.*node_store.*>::(const_)?iterator$',('it',('p','ns'))),(r'^(const )?(mdds::rtree<.*>::|rtree<.*>::)?(key_type|long)\[\d+\]$',('vec',('i','i64'))),(r'^(const )?(mdds::rtree<.*>::|rtree<.*>::)?(key_type|long) \*( ?const)?$',('it',('i','i64')))]
TYPES=[(P+r'dir_store_type$|^(const )?std::deque<.*node_store.*>$',('vec',('p','ns'))),(P+r'store_type$|^(const )?std::vector<.*entry.*>$',('vec',('r','ent'))),(P+r'search_condition_type$|^(const )?std::function<.*>$',('v','Cond')),
 (P+r'node_store(_type)?$',('p','ns',1)),(P+r'directory_node$',('p','dirn',1)),(P+r'value_node$',('p','valn',1)),(P+r'node$',('p','nod',1)),(P+r'point_type$',('r','pt')),(P+r'extent_type$',('r','ext')),
 (P+r'(const_)?search_results(_base)?(<.*>)?$',('r','srb')),(P+r'entry$',('r','ent')),(r'^(mdds::)?rtree(<long, mdds_drv::Val.*>)?$',('p','rt',1)),
 (r'^(.*::)?key_type$|^long$',('i','i64')),(P+r'value_type$|^(mdds_drv::)?Val$',('v','Val')),(P+r'size_type$',U)]
FIELD_TYPES={}
ARRAYS={'pt':[('d',2)],'ext':[('start.d',2),('end.d',2)]}
GHOST=[('g_rk','nat'),('g_par','!IMap<Ptr, Ptr>')]
PRELUDE=r"""
// boxes: two dimensions
pub open spec fn okp(p: pt) -> bool { p.d@.len() == 2 }
pub open spec fn oke(e: ext) -> bool { okp(e.start) && okp(e.end) }
pub open spec fn val(e: ext) -> bool { oke(e) && forall|k: int| 0 <= k < 2 ==> #[trigger] e.start.d@[k] <= e.end.d@[k] }
pub open spec fn eqp(a: pt, b: pt) -> bool { a.d@ =~= b.d@ }
pub open spec fn eqe(a: ext, b: ext) -> bool { eqp(a.start, b.start) && eqp(a.end, b.end) }
pub open spec fn inp(e: ext, p: pt) -> bool { forall|k: int| #![trigger p.d@[k]] #![trigger e.start.d@[k]] #![trigger e.end.d@[k]] 0 <= k < 2 ==> e.start.d@[k] <= p.d@[k] <= e.end.d@[k] }
pub open spec fn ine(e: ext, b: ext) -> bool { forall|k: int| #![trigger e.start.d@[k]] #![trigger e.end.d@[k]] #![trigger b.start.d@[k]] #![trigger b.end.d@[k]] 0 <= k < 2 ==> e.start.d@[k] <= b.start.d@[k] && b.end.d@[k] <= e.end.d@[k] }
pub open spec fn meet(a: ext, b: ext) -> bool { forall|k: int| #![trigger a.start.d@[k]] #![trigger a.end.d@[k]] #![trigger b.start.d@[k]] #![trigger b.end.d@[k]] 0 <= k < 2 ==> a.start.d@[k] <= b.end.d@[k] && b.start.d@[k] <= a.end.d@[k] }
pub open spec fn mn(a: i64, b: i64) -> i64 { if b < a { b } else { a } }
pub open spec fn mx(a: i64, b: i64) -> i64 { if a < b { b } else { a } }
// c is the smallest box that holds a and b
pub open spec fn hull(a: ext, b: ext, c: ext) -> bool { oke(c) && forall|k: int| #![trigger c.start.d@[k]] #![trigger c.end.d@[k]] 0 <= k < 2 ==> c.start.d@[k] == mn(a.start.d@[k], b.start.d@[k]) && c.end.d@[k] == mx(a.end.d@[k], b.end.d@[k]) }
// e is the smallest box that holds the boxes of the nodes in s
pub open spec fn bound(h: Heap, s: Seq<Ptr>, e: ext) -> bool { oke(e) && (forall|i: int| 0 <= i < s.len() ==> ine(e, h.ns_extent[#[trigger] s[i]])) && forall|k: int| 0 <= k < 2 ==> exists_at(h, s, e, k) }
pub open spec fn exists_at(h: Heap, s: Seq<Ptr>, e: ext, k: int) -> bool { (exists|i: int| 0 <= i < s.len() && h.ns_extent[#[trigger] s[i]].start.d@[k] == e.start.d@[k]) && (exists|i: int| 0 <= i < s.len() && h.ns_extent[#[trigger] s[i]].end.d@[k] == e.end.d@[k]) }
pub open spec fn kidsok(h: Heap, s: Seq<Ptr>) -> bool { forall|i: int| 0 <= i < s.len() ==> h.al_ns.contains(#[trigger] s[i]) && oke(h.ns_extent[s[i]]) }
// the box a directory with these children has to have: the smallest one that holds them, all zero when there are none
pub open spec fn tight(h: Heap, s: Seq<Ptr>, e: ext) -> bool { oke(e) && (s.len() > 0 ==> bound(h, s, e)) && (s.len() == 0 ==> forall|k: int| #![trigger e.start.d@[k]] #![trigger e.end.d@[k]] 0 <= k < 2 ==> e.start.d@[k] == 0 && e.end.d@[k] == 0) }
pub proof fn tight_frame(h0: Heap, h: Heap, s: Seq<Ptr>, e: ext) requires tight(h0, s, e), forall|i: int| 0 <= i < s.len() ==> h.ns_extent[#[trigger] s[i]] == h0.ns_extent[s[i]] ensures tight(h, s, e) {
    if s.len() > 0 { assert forall|i: int| 0 <= i < s.len() implies ine(e, h.ns_extent[#[trigger] s[i]]) by {}
      assert forall|k: int| 0 <= k < 2 implies exists_at(h, s, e, k) by { assert(exists_at(h0, s, e, k)); let i = choose|i: int| 0 <= i < s.len() && h0.ns_extent[#[trigger] s[i]].start.d@[k] == e.start.d@[k]; let j = choose|j: int| 0 <= j < s.len() && h0.ns_extent[#[trigger] s[j]].end.d@[k] == e.end.d@[k]; assert(h.ns_extent[s[i]].start.d@[k] == e.start.d@[k]); assert(h.ns_extent[s[j]].end.d@[k] == e.end.d@[k]); } }
}
pub proof fn bound_one(h: Heap, s: Seq<Ptr>, e: ext) requires s.len() == 1, oke(e), e == h.ns_extent[s[0]] ensures bound(h, s, e) {
    assert forall|k: int| 0 <= k < 2 implies exists_at(h, s, e, k) by { assert(h.ns_extent[s[0]].start.d@[k] == e.start.d@[k]); }
}
pub proof fn bound_step(h: Heap, s: Seq<Ptr>, e: ext, c: Ptr, e2: ext) requires bound(h, s, e), oke(h.ns_extent[c]), hull(e, h.ns_extent[c], e2) ensures bound(h, s.push(c), e2) {
    let t = s.push(c);
    assert forall|i: int| 0 <= i < t.len() implies ine(e2, h.ns_extent[#[trigger] t[i]]) by {
        let b = h.ns_extent[t[i]];
        if i < s.len() { assert(t[i] == s[i]); assert(ine(e, h.ns_extent[s[i]])); }
        assert forall|k: int| #![trigger b.start.d@[k]] 0 <= k < 2 implies e2.start.d@[k] <= b.start.d@[k] && b.end.d@[k] <= e2.end.d@[k] by { assert(e2.start.d@[k] == mn(e.start.d@[k], h.ns_extent[c].start.d@[k])); assert(e2.end.d@[k] == mx(e.end.d@[k], h.ns_extent[c].end.d@[k])); if i < s.len() { assert(e.start.d@[k] <= b.start.d@[k]); } }
    }
    assert forall|k: int| 0 <= k < 2 implies exists_at(h, t, e2, k) by {
        assert(exists_at(h, s, e, k)); let i = choose|i: int| 0 <= i < s.len() && h.ns_extent[#[trigger] s[i]].start.d@[k] == e.start.d@[k]; let j = choose|j: int| 0 <= j < s.len() && h.ns_extent[#[trigger] s[j]].end.d@[k] == e.end.d@[k];
        assert(t[i] == s[i]); assert(t[j] == s[j]); assert(t[s.len() as int] == c); assert(e2.start.d@[k] == mn(e.start.d@[k], h.ns_extent[c].start.d@[k])); assert(e2.end.d@[k] == mx(e.end.d@[k], h.ns_extent[c].end.d@[k]));
    }
}
pub open spec fn isd(h: Heap, n: Ptr) -> bool { h.al_ns.contains(n) && (h.ns_type[n] == 1 || h.ns_type[n] == 2) && h.ns_node_ptr[n] != 0 }
// the nodes form trees: children know their parent, a parent has the node as a child, ranks grow upwards
#[verifier::opaque]
pub open spec fn tree(h: Heap) -> bool {
    &&& !h.al_ns.contains(0)
    &&& forall|n: Ptr| h.al_ns.contains(n) ==> #[trigger] oke(h.ns_extent[n])
    &&& forall|n: Ptr| h.al_ns.contains(n) && h.ns_parent[n] != 0 ==> isd(h, #[trigger] h.ns_parent[n]) && h.g_rk[n] < h.g_rk[h.ns_parent[n]] && kid(h, h.ns_parent[n]).contains(n)
    &&& forall|n: Ptr| h.al_ns.contains(n) && (h.ns_type[n] == 1 || h.ns_type[n] == 2) ==> #[trigger] isd(h, n)
    &&& forall|d: Ptr| #[trigger] isd(h, d) ==> h.al_dirn.contains(h.ns_node_ptr[d]) && kidsof(h, d)
    &&& exists|m: int| cap(h, m)
}
pub open spec fn kidsof(h: Heap, d: Ptr) -> bool { forall|i: int| 0 <= i < kid(h, d).len() ==> h.al_ns.contains(#[trigger] kid(h, d)[i]) && h.ns_parent[kid(h, d)[i]] == d && h.g_rk[kid(h, d)[i]] < h.g_rk[d] }
pub open spec fn tidy(h: Heap, d: Ptr) -> bool { tight(h, kid(h, d), h.ns_extent[d]) }
pub open spec fn cap(h: Heap, m: int) -> bool { forall|n: Ptr| (#[trigger] h.g_rk[n]) <= m }
pub open spec fn capm(g: Map<Ptr, nat>, m: int) -> bool { forall|n: Ptr| (#[trigger] g[n]) <= m }
pub open spec fn top(g: Map<Ptr, nat>) -> int { choose|m: int| capm(g, m) }
pub proof fn top_ok(h: Heap) requires tree(h) ensures capm(h.g_rk, top(h.g_rk)) { reveal(tree); let m = choose|m: int| cap(h, m); assert(cap(h, m)); assert(capm(h.g_rk, m)); }
// one step up: p has just been packed
#[verifier::spinoff_prover]
pub proof fn up_step(h0: Heap, h: Heap, p: Ptr, changed: bool) requires tree(h0), isd(h0, p), h == (Heap{ns_extent: h.ns_extent, ..h0}), forall|x: Ptr| x != p ==> #[trigger] h.ns_extent[x] == h0.ns_extent[x], tidy(h, p), changed == !eqe(h0.ns_extent[p], h.ns_extent[p]), forall|d: Ptr| d != p && isd(h0, d) ==> #[trigger] tidy(h0, d)
  ensures tree(h), forall|d: Ptr| !(changed && d == h.ns_parent[p]) && isd(h, d) ==> #[trigger] tidy(h, d) {
    reveal(tree);
    assert forall|d: Ptr| #[trigger] isd(h, d) implies h.al_dirn.contains(h.ns_node_ptr[d]) && kidsof(h, d) by { assert(isd(h0, d)); assert(kid(h, d) == kid(h0, d)); assert(kidsof(h0, d)); }
    assert forall|n: Ptr| h.al_ns.contains(n) && h.ns_parent[n] != 0 implies isd(h, #[trigger] h.ns_parent[n]) && h.g_rk[n] < h.g_rk[h.ns_parent[n]] && kid(h, h.ns_parent[n]).contains(n) by { assert(isd(h0, h0.ns_parent[n])); }
    assert forall|n: Ptr| h.al_ns.contains(n) && (h.ns_type[n] == 1 || h.ns_type[n] == 2) implies #[trigger] isd(h, n) by { assert(isd(h0, n)); }
    let m = choose|m: int| cap(h0, m); assert(cap(h, m));
    assert forall|d: Ptr| !(changed && d == h.ns_parent[p]) && isd(h, d) implies #[trigger] tidy(h, d) by {
        assert(isd(h0, d));
        if d != p { assert(tidy(h0, d)); let s = kid(h, d); assert(kidsof(h0, d));
          assert forall|i: int| 0 <= i < s.len() && changed implies h.ns_extent[#[trigger] s[i]] == h0.ns_extent[s[i]] by { if s[i] == p { assert(h0.ns_parent[kid(h0, d)[i]] == d); } }
          if changed { tight_frame(h0, h, s, h.ns_extent[d]); } else { tight_same(h0, h, s, p, h.ns_extent[d]); } }
    }
}
pub proof fn tight_same(h0: Heap, h: Heap, s: Seq<Ptr>, p: Ptr, e: ext) requires tight(h0, s, e), forall|x: Ptr| x != p ==> #[trigger] h.ns_extent[x] == h0.ns_extent[x], eqe(h0.ns_extent[p], h.ns_extent[p]) ensures tight(h, s, e) {
    assert(h0.ns_extent[p].start.d@ == h.ns_extent[p].start.d@); assert(h0.ns_extent[p].end.d@ == h.ns_extent[p].end.d@);
    assert(forall|x: Ptr| (#[trigger] h.ns_extent[x]).start.d@ == h0.ns_extent[x].start.d@ && h.ns_extent[x].end.d@ == h0.ns_extent[x].end.d@);
    if s.len() > 0 { assert forall|i: int| 0 <= i < s.len() implies ine(e, h.ns_extent[#[trigger] s[i]]) by { assert(ine(e, h0.ns_extent[s[i]])); }
      assert forall|k: int| 0 <= k < 2 implies exists_at(h, s, e, k) by { assert(exists_at(h0, s, e, k)); let i = choose|i: int| 0 <= i < s.len() && h0.ns_extent[#[trigger] s[i]].start.d@[k] == e.start.d@[k]; let j = choose|j: int| 0 <= j < s.len() && h0.ns_extent[#[trigger] s[j]].end.d@[k] == e.end.d@[k]; assert(h.ns_extent[s[i]].start.d@[k] == e.start.d@[k]); assert(h.ns_extent[s[j]].end.d@[k] == e.end.d@[k]); } }
}
// the box of d is the smallest one that holds its children and one more box, which is gone by now
pub open spec fn loose(h: Heap, d: Ptr, b: ext) -> bool { let e = h.ns_extent[d]; let s = kid(h, d);
    &&& oke(e) && ine(e, b) && (forall|i: int| 0 <= i < s.len() ==> ine(e, h.ns_extent[#[trigger] s[i]]))
    &&& forall|k: int| 0 <= k < 2 ==> #[trigger] loose_at(h, d, b, k) }
pub open spec fn loose_at(h: Heap, d: Ptr, b: ext, k: int) -> bool { let e = h.ns_extent[d]; let s = kid(h, d);
    &&& (b.start.d@[k] == e.start.d@[k] || exists|i: int| 0 <= i < s.len() && h.ns_extent[#[trigger] s[i]].start.d@[k] == e.start.d@[k])
    &&& (b.end.d@[k] == e.end.d@[k] || exists|i: int| 0 <= i < s.len() && h.ns_extent[#[trigger] s[i]].end.d@[k] == e.end.d@[k]) }
pub open spec fn edge(a: ext, b: ext) -> bool { exists|k: int| 0 <= k < 2 && (#[trigger] a.start.d@[k] == b.start.d@[k] || a.end.d@[k] == b.end.d@[k]) }
// nothing on the edge of the box is gone: the box is still the smallest one
pub proof fn off_edge(h: Heap, d: Ptr, b: ext) requires loose(h, d, b), !edge(h.ns_extent[d], b) ensures tidy(h, d) {
    let e = h.ns_extent[d]; let s = kid(h, d);
    assert forall|k: int| 0 <= k < 2 implies exists_at(h, s, e, k) by { assert(loose_at(h, d, b, k)); assert(e.start.d@[k] != b.start.d@[k]); }
    assert(loose_at(h, d, b, 0)); assert(exists_at(h, s, e, 0)); assert(s.len() > 0);
}
// d, a child, has been packed after its loss: the box of its parent may now be too large by what d used to cover
#[verifier::spinoff_prover]
pub proof fn loose_up(h0: Heap, h: Heap, d: Ptr, b: ext) requires tree(h0), tree(h), isd(h0, d), h == (Heap{ns_extent: h.ns_extent, ..h0}), forall|x: Ptr| x != d ==> #[trigger] h.ns_extent[x] == h0.ns_extent[x], loose(h0, d, b), tidy(h, d), kid(h0, d).len() > 0, h.ns_parent[d] != 0, tidy(h0, h0.ns_parent[d]) ensures loose(h, h.ns_parent[d], h0.ns_extent[d]), isd(h, h.ns_parent[d]), kid(h, h.ns_parent[d]).len() > 0 {
    reveal(tree); let p = h.ns_parent[d]; let s = kid(h, p); let e = h.ns_extent[p]; let o = h0.ns_extent[d]; let c = kid(h, d);
    assert(h.ns_extent[p] == h0.ns_extent[p]); assert(s.contains(d)); let j = choose|j: int| 0 <= j < s.len() && s[j] == d;
    assert(bound(h0, s, e)); assert(ine(e, h0.ns_extent[s[j]]));
    assert(kidsof(h0, d));
    // d shrank
    let q = h.ns_extent[d]; assert(bound(h, c, q));
    assert forall|k: int| #![trigger q.start.d@[k]] #![trigger q.end.d@[k]] 0 <= k < 2 implies o.start.d@[k] <= q.start.d@[k] && q.end.d@[k] <= o.end.d@[k] by {
        assert(exists_at(h, c, q, k)); let i = choose|i: int| 0 <= i < c.len() && h.ns_extent[#[trigger] c[i]].start.d@[k] == q.start.d@[k]; let i2 = choose|i: int| 0 <= i < c.len() && h.ns_extent[#[trigger] c[i]].end.d@[k] == q.end.d@[k];
        assert(kid(h0, d)[i] == c[i]); assert(kid(h0, d)[i2] == c[i2]); assert(c[i] != d); assert(c[i2] != d); assert(ine(o, h0.ns_extent[kid(h0, d)[i]])); assert(ine(o, h0.ns_extent[kid(h0, d)[i2]]));
        assert(o.start.d@[k] <= h0.ns_extent[c[i]].start.d@[k]); assert(h0.ns_extent[c[i2]].end.d@[k] <= o.end.d@[k]);
    }
    assert forall|i: int| 0 <= i < s.len() implies ine(e, h.ns_extent[#[trigger] s[i]]) by { assert(ine(e, h0.ns_extent[s[i]])); if s[i] == d {
        assert forall|k: int| #![trigger q.start.d@[k]] #![trigger q.end.d@[k]] #![trigger e.start.d@[k]] #![trigger e.end.d@[k]] 0 <= k < 2 implies e.start.d@[k] <= q.start.d@[k] && q.end.d@[k] <= e.end.d@[k] by { assert(e.start.d@[k] <= o.start.d@[k]); assert(o.start.d@[k] <= q.start.d@[k]); } } }
    assert forall|k: int| 0 <= k < 2 implies #[trigger] loose_at(h, p, o, k) by {
        assert(exists_at(h0, s, e, k)); let i = choose|i: int| 0 <= i < s.len() && h0.ns_extent[#[trigger] s[i]].start.d@[k] == e.start.d@[k]; let i2 = choose|i: int| 0 <= i < s.len() && h0.ns_extent[#[trigger] s[i]].end.d@[k] == e.end.d@[k];
        if s[i] != d { assert(h.ns_extent[s[i]].start.d@[k] == e.start.d@[k]); } if s[i2] != d { assert(h.ns_extent[s[i2]].end.d@[k] == e.end.d@[k]); }
    }
}
// parent pointers: g_par is the node a node is really stored under
#[verifier::opaque]
pub open spec fn shape(h: Heap) -> bool { &&& !h.al_ns.contains(0)
    &&& forall|n: Ptr| h.al_ns.contains(n) && (h.ns_type[n] == 1 || h.ns_type[n] == 2) ==> #[trigger] isd(h, n)
    &&& forall|d: Ptr| #[trigger] isd(h, d) ==> h.al_dirn.contains(h.ns_node_ptr[d]) && shapek(h, d) }
pub open spec fn shapek(h: Heap, d: Ptr) -> bool { forall|i: int| 0 <= i < kid(h, d).len() ==> h.al_ns.contains(#[trigger] kid(h, d)[i]) && h.g_par[kid(h, d)[i]] == d && h.g_rk[kid(h, d)[i]] < h.g_rk[d] }
pub open spec fn right(h: Heap, c: Ptr) -> bool { h.ns_parent[c] == h.g_par[c] }
// every parent pointer below n is right
pub open spec fn deep(h: Heap, n: Ptr) -> bool decreases h.g_rk[n] { isd(h, n) ==> forall|i: int| 0 <= i < kid(h, n).len() ==> { let c = #[trigger] kid(h, n)[i]; right(h, c) && (h.g_rk[c] < h.g_rk[n] ==> deep(h, c)) } }
pub open spec fn skel(h0: Heap, h: Heap) -> bool { h == (Heap{ns_parent: h.ns_parent, ns_valid_pointer: h.ns_valid_pointer, ..h0}) }
pub proof fn keeps_trans(a: Heap, b: Heap, c: Heap) requires skel(a, b), skel(b, c), keeps(a, b), keeps(b, c) ensures keeps(a, c) {
    assert forall|x: Ptr| #[trigger] right(a, x) || c.ns_parent[x] != a.ns_parent[x] implies right(c, x) by { if right(a, x) { assert(right(b, x)); } else if b.ns_parent[x] != a.ns_parent[x] { assert(right(a, x) || b.ns_parent[x] != a.ns_parent[x]); assert(right(b, x)); } else { assert(right(b, x) || c.ns_parent[x] != b.ns_parent[x]); } assert(right(b, x) || !right(b, x)); }
}
#[verifier::spinoff_prover]
pub proof fn deep_mono(h0: Heap, h: Heap, n: Ptr) requires skel(h0, h), keeps(h0, h), deep(h0, n) ensures deep(h, n) decreases h0.g_rk[n] {
    if isd(h, n) { assert(isd(h0, n)); assert forall|i: int| 0 <= i < kid(h, n).len() implies { let c = #[trigger] kid(h, n)[i]; right(h, c) && (h.g_rk[c] < h.g_rk[n] ==> deep(h, c)) } by { let c = kid(h0, n)[i]; assert(right(h0, c)); if h.g_rk[c] < h.g_rk[n] { deep_mono(h0, h, c); } } }
}
#[verifier::spinoff_prover]
pub proof fn honest_step(h0: Heap, h: Heap) requires skel(h0, h), keeps(h0, h), honest(h0), shape(h0), forall|x: Ptr| #[trigger] h.ns_valid_pointer[x] ==> h0.ns_valid_pointer[x] || (isd(h, x) ==> deep(h, x)) ensures honest(h), shape(h) {
    reveal(shape); reveal(honest);
    assert forall|n: Ptr| isd(h, n) && h.g_par[n] != 0 && #[trigger] h.ns_valid_pointer[n] implies deep(h, n) by { assert(isd(h0, n)); if h0.ns_valid_pointer[n] { assert(deep(h0, n)); deep_mono(h0, h, n); } }
    assert forall|n: Ptr| h.al_ns.contains(n) && (h.ns_type[n] == 1 || h.ns_type[n] == 2) implies #[trigger] isd(h, n) by { assert(isd(h0, n)); }
    assert forall|d: Ptr| #[trigger] isd(h, d) implies h.al_dirn.contains(h.ns_node_ptr[d]) && shapek(h, d) by { assert(isd(h0, d)); assert(shapek(h0, d)); assert(kid(h, d) == kid(h0, d)); }
}
#[verifier::opaque]
pub open spec fn honest(h: Heap) -> bool { forall|n: Ptr| isd(h, n) && h.g_par[n] != 0 && #[trigger] h.ns_valid_pointer[n] ==> deep(h, n) }
// right pointers stay right
pub open spec fn keeps(h0: Heap, h: Heap) -> bool { forall|x: Ptr| #[trigger] right(h0, x) || h.ns_parent[x] != h0.ns_parent[x] ==> right(h, x) }
pub open spec fn forest(h: Heap, r: Ptr) -> bool { isd(h, r) && h.g_par[r] == 0 && h.ns_parent[r] == 0 }
pub open spec fn handed(h0: Heap, h: Heap, a: Ptr, b: Ptr) -> bool { h.ns_type[a] == h0.ns_type[b] && h.ns_extent[a] == h0.ns_extent[b] && h.ns_node_ptr[a] == h0.ns_node_ptr[b] && h.ns_count[a] == h0.ns_count[b] }
pub open spec fn swapf<T>(m: Map<Ptr, T>, a: Ptr, b: Ptr) -> Map<Ptr, T> { m.insert(a, m[b]).insert(b, m[a]) }
#[verifier::spinoff_prover]
pub proof fn deep_swapped(h0: Heap, h: Heap, a: Ptr, b: Ptr, n: Ptr) requires shape(h0), exch(h0, h, a, b), n != a, n != b, deep(h0, n) ensures deep(h, n) decreases h0.g_rk[n] {
    reveal(shape);
    if isd(h, n) { assert(isd(h0, n)); assert(shapek(h0, n)); assert forall|i: int| 0 <= i < kid(h, n).len() implies { let c = #[trigger] kid(h, n)[i]; right(h, c) && (h.g_rk[c] < h.g_rk[n] ==> deep(h, c)) } by {
        let c = kid(h0, n)[i]; assert(h0.g_par[c] == n); assert(c != a && c != b); assert(right(h0, c)); deep_swapped(h0, h, a, b, c); } }
}
pub open spec fn exch(h0: Heap, h: Heap, a: Ptr, b: Ptr) -> bool {
    &&& forest(h0, a) && forest(h0, b)
    &&& h == (Heap{ns_type: swapf(h0.ns_type, a, b), ns_extent: swapf(h0.ns_extent, a, b), ns_parent: swapf(h0.ns_parent, a, b), ns_node_ptr: swapf(h0.ns_node_ptr, a, b), ns_count: swapf(h0.ns_count, a, b), ns_valid_pointer: swapf(h0.ns_valid_pointer, a, b), g_rk: swapf(h0.g_rk, a, b), g_par: h.g_par, ..h0})
    &&& forall|x: Ptr| #[trigger] h.g_par[x] == (if h0.g_par[x] == a { b } else if h0.g_par[x] == b { a } else { h0.g_par[x] })
}
#[verifier::spinoff_prover]
pub proof fn swapped(h0: Heap, h: Heap, a: Ptr, b: Ptr) requires shape(h0), honest(h0), exch(h0, h, a, b) ensures shape(h), honest(h), forest(h, a), forest(h, b) {
    reveal(shape); reveal(honest);
    assert(forall|x: Ptr| isd(h, x) <==> isd(h0, x));
    assert forall|d: Ptr| #[trigger] isd(h, d) implies h.al_dirn.contains(h.ns_node_ptr[d]) && shapek(h, d) by { let e = if d == a { b } else if d == b { a } else { d }; assert(isd(h0, e)); assert(shapek(h0, e)); assert(kid(h, d) == kid(h0, e));
        assert forall|i: int| 0 <= i < kid(h, d).len() implies h.al_ns.contains(#[trigger] kid(h, d)[i]) && h.g_par[kid(h, d)[i]] == d && h.g_rk[kid(h, d)[i]] < h.g_rk[d] by { let c = kid(h0, e)[i]; assert(h0.g_par[c] == e); assert(c != a && c != b); } }
    assert forall|n: Ptr| isd(h, n) && h.g_par[n] != 0 && #[trigger] h.ns_valid_pointer[n] implies deep(h, n) by { assert(n != a && n != b); assert(isd(h0, n)); assert(h0.ns_valid_pointer[n]); assert(deep(h0, n)); deep_swapped(h0, h, a, b, n); }
}
// std::function conditions on a node (the tree does not change while one is in use)
pub uninterp spec fn holds(c: Cond, n: Ptr) -> bool;
// what a condition may be asked about
pub open spec fn cond_dom(h: Heap, n: Ptr) -> bool { h.al_ns.contains(n) && val(h.ns_extent[n]) }
// a node, with g_rk falling on every path down (so the structure is a finite tree): valid boxes, directories hold the boxes of their children
pub open spec fn wfn(h: Heap, n: Ptr) -> bool decreases h.g_rk[n] {
    cond_dom(h, n) && (h.ns_type[n] == 3 || ((h.ns_type[n] == 1 || h.ns_type[n] == 2) && h.al_dirn.contains(h.ns_node_ptr[n]) && forall|i: int| 0 <= i < h.dirn_children[h.ns_node_ptr[n]]@.len() ==> {
        let c = #[trigger] h.dirn_children[h.ns_node_ptr[n]]@[i]; &&& h.g_rk[c] < h.g_rk[n] &&& ine(h.ns_extent[n], h.ns_extent[c]) &&& (h.g_rk[c] < h.g_rk[n] ==> wfn(h, c)) }))
}
pub open spec fn kid(h: Heap, n: Ptr) -> Seq<Ptr> { h.dirn_children[h.ns_node_ptr[n]]@ }
pub open spec fn mk(n: Ptr, dp: int) -> ent { ent{ns: n, depth: dp as u64} }
// every stored value below n, left to right, with its depth
pub open spec fn allv(h: Heap, n: Ptr, dp: int) -> Seq<ent> decreases h.g_rk[n], 1int, 0int {
    if h.ns_type[n] == 3 { seq![mk(n, dp)] } else { allc(h, n, kid(h, n).len() as int, dp + 1) }
}
pub open spec fn allc(h: Heap, n: Ptr, i: int, dp: int) -> Seq<ent> decreases h.g_rk[n], 0int, i {
    if i <= 0 { seq![] } else { allc(h, n, i - 1, dp) + (if h.g_rk[kid(h, n)[i - 1]] < h.g_rk[n] { allv(h, kid(h, n)[i - 1], dp) } else { seq![] }) }
}
// what the descent adds
pub open spec fn fndv(h: Heap, n: Ptr, dp: int, dc: Cond, vc: Cond) -> Seq<ent> decreases h.g_rk[n], 1int, 0int {
    if h.ns_type[n] == 3 { if holds(vc, n) { seq![mk(n, dp)] } else { seq![] } } else if holds(dc, n) { fndc(h, n, kid(h, n).len() as int, dp + 1, dc, vc) } else { seq![] }
}
pub open spec fn fndc(h: Heap, n: Ptr, i: int, dp: int, dc: Cond, vc: Cond) -> Seq<ent> decreases h.g_rk[n], 0int, i {
    if i <= 0 { seq![] } else { fndc(h, n, i - 1, dp, dc, vc) + (if h.g_rk[kid(h, n)[i - 1]] < h.g_rk[n] { fndv(h, kid(h, n)[i - 1], dp, dc, vc) } else { seq![] }) }
}
// k: 0 the boxes share a point (boundary included), 1 e holds q, 2 they are equal
pub open spec fn hit(e: ext, q: ext, k: int) -> bool { if k == 0 { meet(e, q) } else if k == 1 { ine(e, q) } else { eqe(e, q) } }
pub open spec fn filt(h: Heap, s: Seq<ent>, q: ext, k: int) -> Seq<ent> decreases s.len() {
    if s.len() == 0 { s } else { let t = filt(h, s.drop_last(), q, k); if hit(h.ns_extent[s.last().ns], q, k) { t.push(s.last()) } else { t } }
}
pub proof fn filt_add(h: Heap, a: Seq<ent>, b: Seq<ent>, q: ext, k: int) ensures filt(h, a + b, q, k) =~= filt(h, a, q, k) + filt(h, b, q, k) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); filt_add(h, a, b.drop_last(), q, k); }
}
pub open spec fn pt2(p: pt) -> ext { ext{start: p, end: p} }
pub open spec fn means(h: Heap, c: Cond, q: ext, k: int) -> bool { forall|x: Ptr| cond_dom(h, x) ==> (#[trigger] holds(c, x)) == hit(h.ns_extent[x], q, k) }
pub open spec fn kinds(dk: int, vk: int) -> bool { (dk == 0 || dk == 1) && (vk == dk || vk == 2) }
pub proof fn hit_up(e: ext, c: ext, q: ext, dk: int, vk: int) requires kinds(dk, vk), val(e), val(c), val(q), ine(e, c), hit(c, q, vk) || hit(c, q, dk) ensures hit(e, q, dk), hit(c, q, dk) {
    assert forall|k: int| #![trigger e.start.d@[k]] #![trigger e.end.d@[k]] 0 <= k < 2 implies e.start.d@[k] <= c.start.d@[k] && c.end.d@[k] <= e.end.d@[k] by {}
    assert forall|k: int| 0 <= k < 2 implies q.start.d@[k] <= q.end.d@[k] by {}
    if !hit(c, q, dk) { assert(eqe(c, q)); assert(c.start.d@ == q.start.d@); assert(c.end.d@ == q.end.d@); }
}
#[verifier::spinoff_prover]
pub proof fn none(h: Heap, n: Ptr, dp: int, q: ext, dk: int, vk: int) requires kinds(dk, vk), wfn(h, n), val(q), !hit(h.ns_extent[n], q, dk) ensures filt(h, allv(h, n, dp), q, vk) =~= Seq::<ent>::empty() decreases h.g_rk[n], 1int, 0int {
    if h.ns_type[n] == 3 { let e = h.ns_extent[n]; if hit(e, q, vk) { hit_up(e, e, q, dk, vk); } let s = seq![mk(n, dp)]; assert(s.drop_last() =~= Seq::<ent>::empty()); assert(filt(h, s.drop_last(), q, vk) =~= Seq::<ent>::empty()); }
    else { nonec(h, n, kid(h, n).len() as int, dp + 1, q, dk, vk); }
}
#[verifier::spinoff_prover]
pub proof fn nonec(h: Heap, n: Ptr, i: int, dp: int, q: ext, dk: int, vk: int) requires kinds(dk, vk), wfn(h, n), h.ns_type[n] != 3, 0 <= i <= kid(h, n).len(), val(q), !hit(h.ns_extent[n], q, dk) ensures filt(h, allc(h, n, i, dp), q, vk) =~= Seq::<ent>::empty() decreases h.g_rk[n], 0int, i {
    if i > 0 { nonec(h, n, i - 1, dp, q, dk, vk); let c = kid(h, n)[i - 1]; assert(wfn(h, c)); if hit(h.ns_extent[c], q, dk) { hit_up(h.ns_extent[n], h.ns_extent[c], q, dk, vk); } none(h, c, dp, q, dk, vk); filt_add(h, allc(h, n, i - 1, dp), allv(h, c, dp), q, vk); }
}
// the descent finds exactly the stored values the value condition accepts, in order
#[verifier::spinoff_prover]
pub proof fn found(h: Heap, n: Ptr, dp: int, dc: Cond, vc: Cond, q: ext, dk: int, vk: int) requires kinds(dk, vk), wfn(h, n), val(q), means(h, dc, q, dk), means(h, vc, q, vk) ensures fndv(h, n, dp, dc, vc) =~= filt(h, allv(h, n, dp), q, vk) decreases h.g_rk[n], 1int, 0int {
    if h.ns_type[n] == 3 { let s = seq![mk(n, dp)]; assert(s.drop_last() =~= Seq::<ent>::empty()); assert(filt(h, s.drop_last(), q, vk) =~= Seq::<ent>::empty()); assert(holds(vc, n) == hit(h.ns_extent[n], q, vk)); }
    else if holds(dc, n) { foundc(h, n, kid(h, n).len() as int, dp + 1, dc, vc, q, dk, vk); }
    else { none(h, n, dp, q, dk, vk); }
}
#[verifier::spinoff_prover]
pub proof fn foundc(h: Heap, n: Ptr, i: int, dp: int, dc: Cond, vc: Cond, q: ext, dk: int, vk: int) requires kinds(dk, vk), wfn(h, n), h.ns_type[n] != 3, 0 <= i <= kid(h, n).len(), val(q), means(h, dc, q, dk), means(h, vc, q, vk) ensures fndc(h, n, i, dp, dc, vc) =~= filt(h, allc(h, n, i, dp), q, vk) decreases h.g_rk[n], 0int, i {
    if i > 0 { let c = kid(h, n)[i - 1]; assert(wfn(h, c)); foundc(h, n, i - 1, dp, dc, vc, q, dk, vk); found(h, c, dp, dc, vc, q, dk, vk); filt_add(h, allc(h, n, i - 1, dp), allv(h, c, dp), q, vk); }
}
// a condition made from a lambda means what the lambda computes: its body is checked against the stated meaning for an arbitrary node (cond_arg .. cond_checked)
#[verifier::external_body] pub fn cond_of(h: &Ghost<Heap>, q: Ghost<spec_fn(Ptr) -> bool>) -> (c: Cond) ensures forall|x: Ptr| cond_dom(h@, x) ==> (#[trigger] holds(c, x)) == (q@)(x) { unimplemented!() }
#[verifier::external_body] pub fn cond_arg(h: &Ghost<Heap>) -> (p: Ptr) ensures cond_dom(h@, p) { unimplemented!() }
#[verifier::external_body] pub fn cond_checked() -> ! { unimplemented!() }
#[verifier::external_body] pub fn cond_call(c: Cond, n: Ptr) -> (r: bool) ensures r == holds(c, n) { unimplemented!() }
"""
PT='okp(%s)'
def arr(v,n): return []
CONTRACTS={
 'pt.operator==':dict(requires=['okp(this)','okp(other)'],ensures=['r == eqp(this, other)'],
   loops=[dict(inv=['left.v == this.d','right.v == other.d','left_end.v == this.d','left_end.i == 2','left.i <= 2','right.i == left.i','forall|j: int| 0 <= j < left.i ==> this.d@[j] == other.d@[j]'],dec='2 - left.i')]),
 'pt.ctor/0':dict(record_ctor=True,requires=['okp(*old(this))'],ensures=['okp(*final(this))','forall|k: int| 0 <= k < 2 ==> (#[trigger] (*final(this)).d@[k]) == 0'],loops=[dict(inv=['okp(*this)','p.v@.len() == 2','p.v == p_end.v','p_end.i == 2','p.i <= 2','forall|k: int| 0 <= k < p.i ==> (#[trigger] (*this).d@[k]) == 0'],dec='2 - p.i')]),
 'ext.ctor/0':dict(record_ctor=True,requires=['oke(*old(this))'],ensures=['val(*final(this))','forall|k: int| #![trigger (*final(this)).start.d@[k]] #![trigger (*final(this)).end.d@[k]] 0 <= k < 2 ==> (*final(this)).start.d@[k] == 0 && (*final(this)).end.d@[k] == 0']),
 'ext.operator==':dict(requires=['oke(this)','oke(other)'],ensures=['r == eqe(this, other)']),
 'ext.is_point':dict(requires=['oke(this)'],ensures=['r == eqp(this.start, this.end)']),
 'ext.contains/1#p':dict(bind='ext.contains/1',where='point_type',requires=['oke(this)','okp(pt)'],ensures=['r == inp(this, pt)'],
   loops=[dict(inv=['dim <= 2','forall|j: int| #![trigger pt.d@[j]] 0 <= j < dim ==> this.start.d@[j] <= pt.d@[j] <= this.end.d@[j]'],dec='2 - dim')]),
 'ext.contains/1#e':dict(bind='ext.contains/1',where='extent_type',requires=['oke(this)','oke(bb)'],ensures=['r == ine(this, bb)'],
   loops=[dict(inv=['dim <= 2','forall|j: int| #![trigger bb.start.d@[j]] 0 <= j < dim ==> this.start.d@[j] <= bb.start.d@[j] && bb.end.d@[j] <= this.end.d@[j]'],dec='2 - dim')]),
 'intersects':dict(where=r'mdds::rtree',requires=['val(bb1)','val(bb2)'],ensures=['r == meet(bb1, bb2)'],
   loops=[dict(inv=['dim <= 2','dim_size == 2','forall|j: int| #![trigger bb1.start.d@[j]] 0 <= j < dim ==> bb1.start.d@[j] <= bb2.end.d@[j] && bb2.start.d@[j] <= bb1.end.d@[j]'],dec='2 - dim',begin='proof { if dim < 2 { let k = dim as int; assert(bb1.start.d@[k] <= bb1.end.d@[k]); assert(bb2.start.d@[k] <= bb2.end.d@[k]); } }')]),
 'ext.intersects':dict(requires=['val(this)','val(bb)'],ensures=['r == meet(this, bb)']),
 'ext.contains_at_boundary':dict(requires=['oke(this)','oke(bb)'],ensures=['r == edge(this, bb)'],
   loops=[dict(inv=['dim <= 2','forall|j: int| 0 <= j < dim ==> #[trigger] this.start.d@[j] != bb.start.d@[j] && this.end.d@[j] != bb.end.d@[j]'],dec='2 - dim')]),
 'enlarge_extent_to_fit':dict(requires=['oke(*old(parent))','oke(child)'],ensures=['hull(*old(parent), child, *final(parent))','r == !eqe(*old(parent), *final(parent))'],
   loops=[dict(before='let ghost p0 = *parent;',inv=['dim <= 2','dim_size == 2','oke(*parent)','forall|k: int| #![trigger (*parent).start.d@[k]] #![trigger (*parent).end.d@[k]] 0 <= k < 2 ==> if k < dim { (*parent).start.d@[k] == mn(p0.start.d@[k], child.start.d@[k]) && (*parent).end.d@[k] == mx(p0.end.d@[k], child.end.d@[k]) } else { (*parent).start.d@[k] == p0.start.d@[k] && (*parent).end.d@[k] == p0.end.d@[k] }',
      'enlarged == exists|k: int| 0 <= k < dim && ((#[trigger] p0.start.d@[k]) != (*parent).start.d@[k] || p0.end.d@[k] != (*parent).end.d@[k])'],dec='2 - dim')]),
 'calc_extent':dict(where=r'const mdds::rtree<[^&]*node_store &',requires=['it.v == it_end.v','it.i < it_end.i','it_end.i == it.v@.len()','forall|i: int| 0 <= i < it.v@.len() ==> H.al_ns.contains(#[trigger] it.v@[i]) && oke(H.ns_extent[it.v@[i]])'],
   ensures=['bound(H, it.v@.skip(it.i as int), r)'],
   loops=[dict(before='proof { bound_one(h@, it.v@.subrange(it__0.i as int, it__0.i + 1), bb); }',inv=['h@ == hl1','it.v == it_end.v','it__0.v == it.v','it__0.i < it.i <= it_end.i','it_end.i == it.v@.len()','forall|i: int| 0 <= i < it.v@.len() ==> H.al_ns.contains(#[trigger] it.v@[i]) && oke(H.ns_extent[it.v@[i]])','bound(H, it.v@.subrange(it__0.i as int, it.i as int), bb)'],dec='it_end.i - it.i',
     begin='let ghost b0 = bb; let ghost i0 = it.i;',end='proof { bound_step(h@, it.v@.subrange(it__0.i as int, i0 as int), b0, it.v@[i0 as int], bb); assert(it.v@.subrange(it__0.i as int, i0 as int).push(it.v@[i0 as int]) =~= it.v@.subrange(it__0.i as int, it.i as int)); }')],
   at={'exit':'proof { assert(it.v@.subrange(it__0.i as int, it.i as int) =~= it__0.v@.skip(it__0.i as int)); }'}),
 'dirn.calc_extent':dict(requires=['H.al_dirn.contains(this)','kidsok(H, H.dirn_children[this]@)'],
   ensures=['tight(H, H.dirn_children[this]@, r)'],at={'exit':'proof { assert(h@.dirn_children[this__0]@.skip(0) =~= h@.dirn_children[this__0]@); }'}),
 'ns.pack':dict(requires=['H.al_ns.contains(this)','oke(H.ns_extent[this])','H.ns_type[this] == 1 || H.ns_type[this] == 2 ==> H.ns_node_ptr[this] != 0 && H.al_dirn.contains(H.ns_node_ptr[this]) && kidsok(H, kid(H, this)) && !kid(H, this).contains(this)'],
   ensures=['H == (Heap{ns_extent: H.ns_extent, ..H0})','forall|x: Ptr| x != this ==> #[trigger] H.ns_extent[x] == H0.ns_extent[x]',
     'H0.ns_type[this] == 1 || H0.ns_type[this] == 2 ==> tight(H, kid(H, this), H.ns_extent[this]) && r == !eqe(H0.ns_extent[this], H.ns_extent[this])',
     'H0.ns_type[this] != 1 && H0.ns_type[this] != 2 ==> !r && H == H0'],at={'exit':'proof { if isd(h0, this__0) { tight_frame(h0, h@, kid(h@, this__0), h@.ns_extent[this__0]); } else { assert(h@ == h0); } }'}),
 'ns.ctor/1#m':dict(bind='ns.ctor/1',where='&&',requires=['H.al_ns.contains(this)','H.al_ns.contains(r)','this != r'],ensures=['handed(H0, H, this, r)','H.ns_parent[this] == H0.ns_parent[r]','H.ns_valid_pointer[this] == H0.ns_valid_pointer[r]','H.ns_type[r] == 0 && H.ns_node_ptr[r] == 0 && H.ns_parent[r] == 0 && H.ns_count[r] == 0','forall|x: Ptr| x != this && x != r ==> #[trigger] H.ns_node_ptr[x] == H0.ns_node_ptr[x] && H.ns_parent[x] == H0.ns_parent[x]']),
 'ns.exceeds_capacity':dict(requires=['H.al_ns.contains(this)'],ensures=['r == ((H.ns_type[this] == 1 || H.ns_type[this] == 2) && H.ns_count[this] > 100)']),
 'rt.empty':dict(requires=['H.al_rt.contains(this)','H.al_ns.contains(H.rt_m_root[this])'],ensures=['r == (H.ns_count[H.rt_m_root[this]] == 0)']),
 'ns.swap':dict(requires=['H.al_ns.contains(this)','H.al_ns.contains(other)'],ensures=['H == (Heap{'+', '.join('ns_%s: H0.ns_%s.insert(this, H0.ns_%s[other]).insert(other, H0.ns_%s[this])'%(f,f,f,f) for f in 'type extent parent node_ptr count valid_pointer'.split())+', ..H0})']),
 'ns.reset_parent_pointers_of_children':dict(requires=['shape(H)','honest(H)','H.al_ns.contains(this)','isd(H, this) && H.ns_valid_pointer[this] ==> deep(H, this)'],ensures=['skel(H0, H)','keeps(H0, H)','shape(H)','honest(H)','deep(H, this)'],
   decreases='h@.g_rk[this]',at={'entry':'proof { reveal(shape); reveal(honest); assert(isd(h@, this) || !(h@.ns_type[this] == 1 || h@.ns_type[this] == 2)); assert(isd(h@, this) ==> shapek(h@, this)); } let ghost mut hc = h@; let ghost mut hs = h@;',
     'before_store:ns.parent':'proof { hc = h@; }','after_store:ns.parent':'proof { reveal(shape); let c = kid(h0, this)[range_i - 1]; assert(right(h@, c)); assert(keeps(hc, h@)); honest_step(hc, h@); hs = h@; keeps_trans(h0, hc, h@); }',
     'after_call:ns.reset_parent_pointers_of_children':'proof { let c = kid(h0, this)[range_i - 1]; assert(right(hs, c)); assert(right(h@, c)); keeps_trans(h0, hs, h@); keeps_trans(hc, hs, h@); }',
     'before_store:ns.valid_pointer':'proof { hc = h@; }','after_store:ns.valid_pointer':'proof { assert(deep(hc, this)); deep_mono(hc, h@, this); honest_step(hc, h@); }'},
   loops=[dict(inv=['skel(h0, H)','keeps(h0, H)','shape(H)','honest(H)','isd(H, this)','t8 == H.ns_node_ptr[this]','H.al_dirn.contains(t8)','range_n == kid(H, this).len()','range_i <= range_n','shapek(H, this)','forall|i: int| 0 <= i < range_i ==> { let c = #[trigger] kid(H, this)[i]; right(H, c) && deep(H, c) }'],dec='range_n - range_i',
      begin='let ghost hb = h@;',end='proof { assert(keeps(hb, h@)) by { assert(hc == hb); } let cc = kid(h0, this)[range_i - 1]; assert forall|i: int| 0 <= i < range_i implies { let c = #[trigger] kid(h@, this)[i]; right(h@, c) && deep(h@, c) } by { let c = kid(hb, this)[i]; if i < range_i - 1 { assert(right(hb, c)); deep_mono(hb, h@, c); } } }')]),
 'ns.reset_parent_pointers':dict(requires=['shape(H)','honest(H)','isd(H, this)'],ensures=['skel(H0, H)','keeps(H0, H)','shape(H)','honest(H)','deep(H, this)'],at={'after_store:ns.valid_pointer':'proof { honest_step(h0, h@); }'}),
 'rt.swap':dict(requires=['H.al_rt.contains(this)','H.al_rt.contains(other)','forest(H, H.rt_m_root[this])','forest(H, H.rt_m_root[other])','shape(H)','honest(H)'],
   ensures=['forest(H, H.rt_m_root[this])','forest(H, H.rt_m_root[other])','shape(H)','honest(H)','H.rt_m_root == H0.rt_m_root','deep(H, H.rt_m_root[this])','deep(H, H.rt_m_root[other])','H.dirn_children == H0.dirn_children','H.valn_value == H0.valn_value','H.al_ns == H0.al_ns','H.al_dirn == H0.al_dirn','H.al_valn == H0.al_valn',
     'handed(H0, H, H.rt_m_root[this], H.rt_m_root[other])','handed(H0, H, H.rt_m_root[other], H.rt_m_root[this])','forall|x: Ptr| #![trigger H.ns_type[x]] #![trigger H.ns_extent[x]] #![trigger H.ns_node_ptr[x]] #![trigger H.ns_count[x]] x != H.rt_m_root[this] && x != H.rt_m_root[other] ==> H.ns_type[x] == H0.ns_type[x] && H.ns_extent[x] == H0.ns_extent[x] && H.ns_node_ptr[x] == H0.ns_node_ptr[x] && H.ns_count[x] == H0.ns_count[x]'],
   at={'entry':'let ra: Ptr = ld_rt_m_root(h, this); let rb: Ptr = ld_rt_m_root(h, other); let ghost mut hs = h@; let ghost mut hr = h@; let ghost mut hm = h@;',
     'after_call:ns.swap':'proof { hs = h@; } let ghost ka = h@.g_rk[ra]; let ghost kb = h@.g_rk[rb]; gset_g_rk(h, ra, Ghost(kb)); gset_g_rk(h, rb, Ghost(ka)); let ghost np = h@.g_par; gset_g_par(h, Ghost(IMap::new(|x: Ptr| true, |x: Ptr| if np[x] == ra { rb } else if np[x] == rb { ra } else { np[x] }))); proof { swapped(h0, h@, ra, rb); hm = h@; }',
     'after_call:ns.reset_parent_pointers:1':'proof { assert(right(hm, ra)); assert(right(h@, ra)); assert(right(hm, rb)); assert(right(h@, rb)); hr = h@; }',
     'exit':'proof { deep_mono(hr, h@, ra); assert(right(h@, ra)); assert(right(h@, rb)); reveal(shape); assert(isd(h@, ra)); assert(isd(h@, rb)); }'}),
 'ns.pack_upward':dict(requires=['H.al_ns.contains(this)','tree(H)','forall|d: Ptr| d != H.ns_parent[this] && isd(H, d) ==> #[trigger] tidy(H, d)'],
   ensures=['H == (Heap{ns_extent: H.ns_extent, ..H0})','forall|x: Ptr| !isd(H0, x) ==> #[trigger] H.ns_extent[x] == H0.ns_extent[x]','tree(H)','forall|d: Ptr| isd(H, d) ==> #[trigger] tidy(H, d)'],
   loops=[dict(before='proof { reveal(tree); } let ghost lim = choose|m: int| cap(h@, m);',inv=['H == (Heap{ns_extent: H.ns_extent, ..H0})','forall|x: Ptr| !isd(H0, x) ==> #[trigger] H.ns_extent[x] == H0.ns_extent[x]','tree(H)','p == 0 || isd(H, p)','forall|d: Ptr| !(propagate && d == p) && isd(H, d) ==> #[trigger] tidy(H, d)','forall|n: Ptr| (#[trigger] H.g_rk[n]) <= lim'],
     dec='if p == 0 { 0 } else { lim + 1 - H.g_rk[p] }',begin='let ghost hb = h@; let ghost pb = p; proof { reveal(tree); if propagate && p != 0 { assert(kidsof(h@, p)); } }',end='proof { up_step(hb, h@, pb, propagate); }')]),
 'rt.shrink_tree_upward':dict(requires=['H.al_rt.contains(this)','tree(H)','ns == 0 || isd(H, ns) && oke(bb_affected) && loose(H, ns, bb_affected) && (kid(H, ns).len() > 0 || H.ns_parent[ns] == 0)','forall|d: Ptr| d != ns && isd(H, d) ==> #[trigger] tidy(H, d)'],
   ensures=['H == (Heap{ns_extent: H.ns_extent, ..H0})','forall|x: Ptr| !isd(H0, x) ==> #[trigger] H.ns_extent[x] == H0.ns_extent[x]','tree(H)','forall|d: Ptr| isd(H, d) ==> #[trigger] tidy(H, d)'],
   decreases="if ns == 0 { 0 } else { top(h@.g_rk) + 1 - h@.g_rk[ns] }",at={'entry':'proof { top_ok(h@); reveal(tree); if ns != 0 { assert(kidsof(h@, ns)); if !edge(h@.ns_extent[ns], bb_affected) { off_edge(h@, ns, bb_affected); } } }',
    'decl:updated':'proof { up_step(h0, h@, ns, updated); top_ok(h@); assert(h@.g_rk == h0.g_rk); reveal(tree); if updated && h@.ns_parent[ns] != 0 { loose_up(h0, h@, ns, bb_affected); } }'}),

}
def srch(tag,cls,par,q,kinds):
    lams=['hit(h@.ns_extent[$], %s, %d)'%(q,k) for k in kinds]
    # kinds: directory / match-value conditions of the two cases, in the order they are written
    okq='okp(pt)' if par=='point_type' else 'val(extent)'
    dk0=kinds[0]; dk1=kinds[1]
    CONTRACTS['rt.search_descend#'+tag[0]]=dict(bind='rt.search_descend',where=r'mdds::rtree<[^&]*::%s &'%cls,requires=['wfn(H, ns)','depth + H.g_rk[ns] <= u64::MAX'],ensures=['(*final(results)).m_store@ == (*old(results)).m_store@ + fndv(H, ns, depth as int, dir_cond, value_cond)'],
      decreases='h@.g_rk[ns]',
      loops=[dict(before='let ghost r0 = (*results).m_store@;',inv=['h@ == hl1','range_n == kid(H, ns).len()','range_i <= range_n','t11 == H.ns_node_ptr[ns]','H.ns_type[ns] == 1 || H.ns_type[ns] == 2','(*results).m_store@ == r0 + fndc(H, ns, range_i as int, depth + 1, dir_cond, value_cond)'],dec='range_n - range_i',
        begin='proof { if range_i < range_n { let c = kid(h@, ns)[range_i as int]; assert(h@.dirn_children[h@.ns_node_ptr[ns]]@[range_i as int] == c); assert(wfn(h@, c)); } }',end='proof { assert((*results).m_store@ =~= r0 + fndc(h@, ns, range_i as int, depth + 1, dir_cond, value_cond)); }')],
      at={'exit':'proof { assert((*results).m_store@ =~= (*old(results)).m_store@ + fndv(h@, ns__0, depth__0 as int, dir_cond__0, value_cond__0)); }'})
    CONTRACTS['rt.search#'+tag]=dict(bind='rt.search',where=r'(^|::)%s \(const (mdds::.*::)?%s &'%(cls,par),lams=lams,
      requires=['H.al_rt.contains(this)','wfn(H, H.rt_m_root[this])','H.g_rk[H.rt_m_root[this]] <= u64::MAX',okq],throws='st != 0 && st != 1',throw_unchanged='true',
      ensures=['r.m_store@ == filt(H, allv(H, H.rt_m_root[this], 0), %s, if st == 0 { %d } else { 2int })'%(q,dk0)],
      at={'exit':'proof { let dk = if st == 0 { %dint } else { %dint }; let vk = if st == 0 { %dint } else { 2int }; found(h@, h@.rt_m_root[this__0], 0, dir_cond, value_cond, %s, dk, vk); }'%(dk0,dk1,dk0,q)})
for _c,_n in (('const_search_results','c'),('search_results','m')):
    srch(_n+'p',_c,'point_type','pt2(pt)',[1,1,2])
    srch(_n+'e',_c,'extent_type','extent',[0,1,2])
def libop(tr,e,name,args,want_lv):
    from cxx2verus import qt,kids,Unsupported
    if name=='operator()' and len(args)==2:
        try: c=tr.ev(args[0])
        except Unsupported: return None
        if c[1]==('v','Cond'):
            n=tr.lv(args[1]); return (tr.let('cond_call(%s, %s)'%(c[0],tr.load(n)),('b',)),('b',))
    if name=='operator=' and len(args)==2:
        l=tr.lv(args[0])
        if l.ty==('v','Cond'): return lam(tr,l,args[1])
    return None
def lam(tr,l,a):
    from cxx2verus import qt,kids,Unsupported
    x=tr.skip(a)
    while x['kind'] in('CXXConstructExpr','MaterializeTemporaryExpr','ExprWithCleanups','CXXBindTemporaryExpr') and len(kids(x))==1: x=tr.skip(kids(x)[0])
    if x['kind']!='LambdaExpr':
        v=tr.ev(x); tr.store(l,v[0]); return l
    # the condition is given the meaning stated in the contract; its body is checked against that meaning for any node
    key=tr.key; specs=CONTRACTS[key]['lams']; n=tr.x.__dict__.setdefault('nlam',0); tr.x.nlam=n+1
    if n>=len(specs): raise Unsupported('more conditions than the contract describes')
    f=tr.lambda_of(x); p=tr.tmp()
    tr.emit('if nondet_bool() {'); tr.emit('let %s: Ptr = cond_arg(h);'%p)
    from cxx2verus import LV
    r=tr.truth(tr.inline(f,[LV(('var',p,('p','ns')))],None,tr.this_tag))
    tr.emit('assert(%s == (%s));'%(r,specs[n].replace('$',p))); tr.emit('cond_checked();'); tr.emit('}')
    c=tr.let('cond_of(h, Ghost(|x: Ptr| %s))'%specs[n].replace('$','x'),('v','Cond'))
    tr.store(l,c); return l
