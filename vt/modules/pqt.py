from base import *
NAME='pqt'
DRIVER="""
#include <cstddef>
#include <fstream>
#include <algorithm>
#include <string>
struct Val { unsigned long id; int operator*() const; };
bool operator==(const Val&, const Val&);
bool operator!=(const Val&, const Val&);
bool operator<(const Val&, const Val&);
#include <mdds/point_quad_tree.hpp>
template class mdds::point_quad_tree<long, Val>;
"""
HEAP={'node':r'point_quad_tree::node<','qt':r'point_quad_tree<long,Val>$'}
ABSTRACT={}
RECORDS={'ndata':r'point_quad_tree::node_data<','dins':r'point_quad_tree::data_inserter<','sorter':r'node_data::sorter<','ains':r'point_quad_tree::array_inserter<','ndist':r'point_quad_tree::node_distance<'}
OPAQUE=['Val']
SKIP_FIELDS={'refcount'}
TYPES_RAW=[]
TYPES=[(r'^(.*::)?node$',('p','node',1)),(r'^(.*::)?intrusive_ptr<.*>$|^(.*::)?node_ptr$',('p','node')),(r'^(mdds::)?point_quad_tree(<long, Val>)?$',('p','qt',1)),
 (r'^(.*::)?data_inserter$',('r','dins')),(r'^(.*::)?sorter$',('r','sorter')),(r'^(.*::)?array_inserter$',('r','ains')),(r'^(.*::)?node_data$',('r','ndata')),(r'^(.*::)?node_distance$',('r','ndist')),
 (r'^(.*::)?data_array_type$',('vec',('v','Val'))),(r'^(.*::)?key_range_type$',None),
 (r'^Val$|^(.*::)?value_type$',('v','Val')),(r'^(.*::)?key_type$',('i','i64')),(r'^(.*::)?size_type$',('i','u64'))]
TYPES=[t for t in TYPES if t[1]]
FIELD_TYPES={}
GHOST=[('g_desc','!IMap<Ptr, Set<Ptr>>')]
PRELUDE=r"""
pub open spec fn sub(h: Heap, p: Ptr) -> Set<Ptr> { if p == 0 { Set::empty() } else { h.g_desc[p] } }
pub open spec fn ne(h: Heap, q: Ptr, d: Ptr) -> bool { h.node_x[d] >= h.node_x[q] && h.node_y[d] < h.node_y[q] }
pub open spec fn nw(h: Heap, q: Ptr, d: Ptr) -> bool { h.node_x[d] < h.node_x[q] && h.node_y[d] < h.node_y[q] }
pub open spec fn se(h: Heap, q: Ptr, d: Ptr) -> bool { h.node_x[d] >= h.node_x[q] && h.node_y[d] >= h.node_y[q] }
pub open spec fn sw(h: Heap, q: Ptr, d: Ptr) -> bool { h.node_x[d] < h.node_x[q] && h.node_y[d] >= h.node_y[q] }
// the nodes below q are q itself and, disjointly, the nodes below its four children, each in its quadrant
pub open spec fn node_ok(h: Heap, q: Ptr) -> bool {
    let (a, b, c, d) = (sub(h, h.node_northeast[q]), sub(h, h.node_northwest[q]), sub(h, h.node_southeast[q]), sub(h, h.node_southwest[q]));
    &&& q != 0 && h.al_node.contains(q)  && h.g_desc[q].contains(q)
    &&& forall|e: Ptr| #[trigger] h.g_desc[q].contains(e) <==> e == q || a.contains(e) || b.contains(e) || c.contains(e) || d.contains(e)
    &&& !a.contains(q) && !b.contains(q) && !c.contains(q) && !d.contains(q)
    &&& (h.node_northeast[q] != 0 ==> a.contains(h.node_northeast[q])) && (h.node_northwest[q] != 0 ==> b.contains(h.node_northwest[q]))
    &&& (h.node_southeast[q] != 0 ==> c.contains(h.node_southeast[q])) && (h.node_southwest[q] != 0 ==> d.contains(h.node_southwest[q]))
    &&& (h.node_northeast[q] != 0 ==> h.node_parent[h.node_northeast[q]] == q) && (h.node_northwest[q] != 0 ==> h.node_parent[h.node_northwest[q]] == q)
    &&& (h.node_southeast[q] != 0 ==> h.node_parent[h.node_southeast[q]] == q) && (h.node_southwest[q] != 0 ==> h.node_parent[h.node_southwest[q]] == q)
    &&& forall|e: Ptr| #[trigger] a.contains(e) ==> ne(h, q, e)
    &&& forall|e: Ptr| #[trigger] b.contains(e) ==> nw(h, q, e)
    &&& forall|e: Ptr| #[trigger] c.contains(e) ==> se(h, q, e)
    &&& forall|e: Ptr| #[trigger] d.contains(e) ==> sw(h, q, e)
}
pub open spec fn same_at(h: Heap, d: Ptr, e: Ptr) -> bool { h.node_x[d] == h.node_x[e] && h.node_y[d] == h.node_y[e] }
pub open spec fn wfs(h: Heap, dd: Set<Ptr>) -> bool {
    &&& forall|q: Ptr| #[trigger] dd.contains(q) ==> node_ok(h, q)
    &&& forall|q: Ptr, d: Ptr| dd.contains(q) && #[trigger] h.g_desc[q].contains(d) ==> dd.contains(d)
    &&& forall|q: Ptr, d: Ptr, e: Ptr| dd.contains(q) && #[trigger] h.g_desc[q].contains(d) && #[trigger] h.g_desc[d].contains(e) ==> h.g_desc[q].contains(e)
    &&& forall|d: Ptr, e: Ptr| #[trigger] dd.contains(d) && #[trigger] dd.contains(e) && same_at(h, d, e) ==> d == e
}
pub open spec fn all(h: Heap, t: Ptr) -> Set<Ptr> { sub(h, h.qt_m_root[t]) }
pub open spec fn wf(h: Heap, t: Ptr) -> bool { h.al_qt.contains(t) && wfs(h, all(h, t)) && (h.qt_m_root[t] != 0 ==> all(h, t).contains(h.qt_m_root[t])) }
pub open spec fn is_at(h: Heap, d: Ptr, x: i64, y: i64) -> bool { h.node_x[d] == x && h.node_y[d] == y }
pub open spec fn found(h: Heap, t: Ptr, d: Ptr, x: i64, y: i64) -> bool { all(h, t).contains(d) && is_at(h, d, x, y) }
pub open spec fn occ(h: Heap, t: Ptr, x: i64, y: i64) -> bool { exists|d: Ptr| found(h, t, d, x, y) }
pub open spec fn val(h: Heap, t: Ptr, x: i64, y: i64) -> Val { h.node_data[choose|d: Ptr| found(h, t, d, x, y)] }

// every stored point at (x, y) is below cur
#[verifier::opaque] pub open spec fn narrowed(h: Heap, dd: Set<Ptr>, cur: Ptr, x: i64, y: i64) -> bool { forall|e: Ptr| #[trigger] dd.contains(e) && is_at(h, e, x, y) ==> sub(h, cur).contains(e) }
pub open spec fn child_ok(h: Heap, dd: Set<Ptr>, q: Ptr, c: Ptr) -> bool { c != 0 ==> dd.contains(c) && c != q && sub(h, c).len() < sub(h, q).len() && sub(h, c).subset_of(sub(h, q)) && sub(h, c).contains(c) && !sub(h, c).contains(q) }
pub proof fn lem_child(h: Heap, dd: Set<Ptr>, q: Ptr, c: Ptr)
    requires wfs(h, dd), dd.contains(q), c == h.node_northeast[q] || c == h.node_northwest[q] || c == h.node_southeast[q] || c == h.node_southwest[q]
    ensures child_ok(h, dd, q, c)
{
    if c != 0 {
        assert(node_ok(h, q)); assert(h.g_desc[q].contains(c)); assert(dd.contains(c)); assert(node_ok(h, c));
        assert(sub(h, c).subset_of(sub(h, q)));
        assert(!sub(h, c).contains(q));
        assert(sub(h, c).subset_of(sub(h, q).remove(q)));
        vstd::set_lib::lemma_len_subset(sub(h, c), sub(h, q).remove(q));
    }
}
pub proof fn lem_desc(h: Heap, dd: Set<Ptr>, q: Ptr)
    requires wfs(h, dd), dd.contains(q)
    ensures q != 0, h.al_node.contains(q), sub(h, q) == h.g_desc[q], sub(h, q).contains(q), sub(h, q).subset_of(dd), child_ok(h, dd, q, h.node_northeast[q]), child_ok(h, dd, q, h.node_northwest[q]), child_ok(h, dd, q, h.node_southeast[q]), child_ok(h, dd, q, h.node_southwest[q])
{
    assert(node_ok(h, q));
    lem_child(h, dd, q, h.node_northeast[q]); lem_child(h, dd, q, h.node_northwest[q]); lem_child(h, dd, q, h.node_southeast[q]); lem_child(h, dd, q, h.node_southwest[q]);
}
pub proof fn lem_pick(h: Heap, dd: Set<Ptr>, q: Ptr, x: i64, y: i64)
    requires wfs(h, dd), dd.contains(q), !is_at(h, q, x, y), narrowed(h, dd, q, x, y)
    ensures x >= h.node_x[q] && y < h.node_y[q] ==> narrowed(h, dd, h.node_northeast[q], x, y), x < h.node_x[q] && y < h.node_y[q] ==> narrowed(h, dd, h.node_northwest[q], x, y),
        x >= h.node_x[q] && y >= h.node_y[q] ==> narrowed(h, dd, h.node_southeast[q], x, y), x < h.node_x[q] && y >= h.node_y[q] ==> narrowed(h, dd, h.node_southwest[q], x, y)
{ reveal(narrowed); assert(node_ok(h, q)); }
pub proof fn lem_start(h: Heap, t: Ptr, x: i64, y: i64) requires wf(h, t) ensures narrowed(h, all(h, t), h.qt_m_root[t], x, y) { reveal(narrowed); }
pub proof fn lem_none(h: Heap, t: Ptr, x: i64, y: i64) requires narrowed(h, all(h, t), 0, x, y) ensures !occ(h, t, x, y) { reveal(narrowed); }
pub proof fn lem_one(h: Heap, t: Ptr, d: Ptr, x: i64, y: i64) requires wf(h, t), found(h, t, d, x, y) ensures occ(h, t, x, y), val(h, t, x, y) == h.node_data[d] { let e = choose|e: Ptr| found(h, t, e, x, y); assert(same_at(h, d, e)); }

pub open spec fn kid(h: Heap, q: Ptr, c: Ptr) -> bool { c != 0 && (c == h.node_northeast[q] || c == h.node_northwest[q] || c == h.node_southeast[q] || c == h.node_southwest[q]) }
pub proof fn lem_up(h: Heap, dd: Set<Ptr>, q: Ptr, c: Ptr, cur: Ptr)
    requires wfs(h, dd), dd.contains(q), dd.contains(cur), kid(h, cur, c), h.g_desc[q].contains(c), q != c
    ensures h.g_desc[q].contains(cur)
    decreases h.g_desc[q].len()
{
    assert(node_ok(h, q)); assert(node_ok(h, cur)); lem_desc(h, dd, q);
    let (k1, k2, k3, k4) = (h.node_northeast[q], h.node_northwest[q], h.node_southeast[q], h.node_southwest[q]);
    let k = if sub(h, k1).contains(c) { k1 } else if sub(h, k2).contains(c) { k2 } else if sub(h, k3).contains(c) { k3 } else { k4 };
    assert(sub(h, k).contains(c));
    if k == c { assert(h.node_parent[c] == q); assert(h.node_parent[c] == cur); } else { lem_up(h, dd, k, c, cur); }
}
// every node above cur has (x, y) in the same quadrant as cur
#[verifier::opaque] pub open spec fn path(h: Heap, dd: Set<Ptr>, cur: Ptr, x: i64, y: i64) -> bool {
    forall|q: Ptr| dd.contains(q) && q != cur && #[trigger] h.g_desc[q].contains(cur) ==> (x >= h.node_x[q]) == (h.node_x[cur] >= h.node_x[q]) && (y < h.node_y[q]) == (h.node_y[cur] < h.node_y[q])
}
pub proof fn lem_path0(h: Heap, t: Ptr, x: i64, y: i64) requires wf(h, t), h.qt_m_root[t] != 0 ensures path(h, all(h, t), h.qt_m_root[t], x, y)
{
    reveal(path); let r = h.qt_m_root[t]; let dd = all(h, t);
    assert forall|q: Ptr| dd.contains(q) && q != r && #[trigger] h.g_desc[q].contains(r) implies false by {
        assert(node_ok(h, r)); assert(node_ok(h, q)); assert(h.g_desc[r].contains(q));
        // q is strictly below r, r is below q: r is in a set that excludes it
        let (k1, k2, k3, k4) = (h.node_northeast[r], h.node_northwest[r], h.node_southeast[r], h.node_southwest[r]);
        let k = if sub(h, k1).contains(q) { k1 } else if sub(h, k2).contains(q) { k2 } else if sub(h, k3).contains(q) { k3 } else { k4 };
        lem_desc(h, dd, r); assert(h.g_desc[k].contains(q)); assert(h.g_desc[k].contains(r));
    }
}
pub open spec fn quad_of(h: Heap, cur: Ptr, c: Ptr, x: i64, y: i64) -> bool {
    &&& c != 0
    &&& (c == h.node_northeast[cur] && x >= h.node_x[cur] && y < h.node_y[cur]) || (c == h.node_northwest[cur] && x < h.node_x[cur] && y < h.node_y[cur])
      || (c == h.node_southeast[cur] && x >= h.node_x[cur] && y >= h.node_y[cur]) || (c == h.node_southwest[cur] && x < h.node_x[cur] && y >= h.node_y[cur])
}
pub open spec fn kidof(h: Heap, cur: Ptr, x: i64, y: i64) -> Ptr {
    if x >= h.node_x[cur] && y < h.node_y[cur] { h.node_northeast[cur] } else if x < h.node_x[cur] && y < h.node_y[cur] { h.node_northwest[cur] } else if x >= h.node_x[cur] { h.node_southeast[cur] } else { h.node_southwest[cur] }
}
pub proof fn lem_path(h: Heap, dd: Set<Ptr>, cur: Ptr, c: Ptr, x: i64, y: i64)
    requires wfs(h, dd), dd.contains(cur), path(h, dd, cur, x, y), quad_of(h, cur, c, x, y)
    ensures path(h, dd, c, x, y)
{
    reveal(path); lem_desc(h, dd, cur);
    assert forall|q: Ptr| dd.contains(q) && q != c && #[trigger] h.g_desc[q].contains(c) implies (x >= h.node_x[q]) == (h.node_x[c] >= h.node_x[q]) && (y < h.node_y[q]) == (h.node_y[c] < h.node_y[q]) by {
        assert(node_ok(h, q)); assert(node_ok(h, cur));
        if q != cur {
            lem_up(h, dd, q, c, cur); lem_desc(h, dd, q);
            let (k1, k2, k3, k4) = (h.node_northeast[q], h.node_northwest[q], h.node_southeast[q], h.node_southwest[q]);
            let k = if sub(h, k1).contains(cur) { k1 } else if sub(h, k2).contains(cur) { k2 } else if sub(h, k3).contains(cur) { k3 } else { k4 };
            assert(sub(h, k).contains(cur)); assert(h.g_desc[cur].contains(c)); assert(h.g_desc[k].contains(c));
        }
    }
}
pub open spec fn grow(h: Heap, dd: Set<Ptr>, cur: Ptr, nn: Ptr) -> IMap<Ptr, Set<Ptr>> {
    IMap::new(|q: Ptr| true, |q: Ptr| if q == nn { Set::empty().insert(nn) } else if dd.contains(q) && h.g_desc[q].contains(cur) { h.g_desc[q].insert(nn) } else { h.g_desc[q] })
}
pub open spec fn same_node(h: Heap, g: Heap, q: Ptr) -> bool {
    h.node_x[q] == g.node_x[q] && h.node_y[q] == g.node_y[q] && h.node_data[q] == g.node_data[q] && h.node_parent[q] == g.node_parent[q] && same_kids(h, g, q)
}
pub open spec fn same_kids(h: Heap, g: Heap, q: Ptr) -> bool {
    h.node_northeast[q] == g.node_northeast[q] && h.node_northwest[q] == g.node_northwest[q] && h.node_southeast[q] == g.node_southeast[q] && h.node_southwest[q] == g.node_southwest[q]
}
pub open spec fn fresh_node(g: Heap, nn: Ptr, x: i64, y: i64, v: Val) -> bool {
    g.node_x[nn] == x && g.node_y[nn] == y && g.node_data[nn] == v && g.node_northeast[nn] == 0 && g.node_northwest[nn] == 0 && g.node_southeast[nn] == 0 && g.node_southwest[nn] == 0
}
// cur got the child nn in the quadrant of (x, y), and nothing else changed
pub open spec fn linked(h: Heap, g: Heap, cur: Ptr, nn: Ptr, x: i64, y: i64) -> bool {
    let (cx, cy) = (h.node_x[cur], h.node_y[cur]);
    &&& g.node_x[cur] == cx && g.node_y[cur] == cy && g.node_data[cur] == h.node_data[cur] && g.node_parent[cur] == h.node_parent[cur] && g.node_parent[nn] == cur
    &&& if x >= cx && y < cy { h.node_northeast[cur] == 0 && g.node_northeast[cur] == nn } else { g.node_northeast[cur] == h.node_northeast[cur] }
    &&& if x < cx && y < cy { h.node_northwest[cur] == 0 && g.node_northwest[cur] == nn } else { g.node_northwest[cur] == h.node_northwest[cur] }
    &&& if x >= cx && y >= cy { h.node_southeast[cur] == 0 && g.node_southeast[cur] == nn } else { g.node_southeast[cur] == h.node_southeast[cur] }
    &&& if x < cx && y >= cy { h.node_southwest[cur] == 0 && g.node_southwest[cur] == nn } else { g.node_southwest[cur] == h.node_southwest[cur] }
}
#[verifier::opaque] pub open spec fn framed(h: Heap, g: Heap, t: Ptr) -> bool {
    &&& g.al_qt == h.al_qt && (forall|u: Ptr| u != t ==> #[trigger] g.qt_m_root[u] == h.qt_m_root[u])
    &&& forall|q: Ptr| #[trigger] h.al_node.contains(q) ==> g.al_node.contains(q)
    &&& forall|q: Ptr| h.al_node.contains(q) && !all(h, t).contains(q) ==> #[trigger] same_node(h, g, q) && g.g_desc[q] == h.g_desc[q]
    &&& forall|q: Ptr| #[trigger] all(g, t).contains(q) ==> all(h, t).contains(q) || !h.al_node.contains(q)
}
// the stored points of g are those of h with (x, y) mapped to v
#[verifier::opaque] pub open spec fn put(h: Heap, g: Heap, t: Ptr, x: i64, y: i64, v: Val) -> bool {
    &&& occ(g, t, x, y) && val(g, t, x, y) == v
    &&& forall|a: i64, b: i64| (a != x || b != y) ==> #[trigger] occ(g, t, a, b) == occ(h, t, a, b)
    &&& forall|a: i64, b: i64| (a != x || b != y) && #[trigger] occ(h, t, a, b) ==> val(g, t, a, b) == val(h, t, a, b)
    &&& all(g, t).len() == all(h, t).len() + if occ(h, t, x, y) { 0int } else { 1 }
}
pub proof fn lem_put_same(h: Heap, g: Heap, t: Ptr, cur: Ptr, x: i64, y: i64, v: Val)
    requires wf(h, t), wf(g, t), all(h, t).contains(cur), is_at(h, cur, x, y), all(g, t) == all(h, t), g.node_x == h.node_x, g.node_y == h.node_y, g.node_data == h.node_data.insert(cur, v)
    ensures put(h, g, t, x, y, v)
{
    reveal(put); assert(found(h, t, cur, x, y)); assert(found(g, t, cur, x, y)); lem_one(g, t, cur, x, y);
    assert forall|a: i64, b: i64| (a != x || b != y) implies #[trigger] occ(g, t, a, b) == occ(h, t, a, b) && (occ(h, t, a, b) ==> val(g, t, a, b) == val(h, t, a, b)) by {
        if occ(h, t, a, b) { let d = choose|d: Ptr| found(h, t, d, a, b); assert(found(g, t, d, a, b)); lem_one(g, t, d, a, b); lem_one(h, t, d, a, b); }
        if occ(g, t, a, b) { let d = choose|d: Ptr| found(g, t, d, a, b); assert(found(h, t, d, a, b)); }
    }
    assert forall|a: i64, b: i64| (a != x || b != y) && #[trigger] occ(h, t, a, b) implies val(g, t, a, b) == val(h, t, a, b) by { assert(occ(g, t, a, b)); }
}
pub proof fn lem_grow(h: Heap, g: Heap, t: Ptr, cur: Ptr, nn: Ptr, x: i64, y: i64, v: Val)
    requires wf(h, t), all(h, t).contains(cur), path(h, all(h, t), cur, x, y), !occ(h, t, x, y), nn != 0, !h.al_node.contains(nn), g.al_node == h.al_node.insert(nn), g.al_qt == h.al_qt, g.qt_m_root == h.qt_m_root,
        fresh_node(g, nn, x, y, v), linked(h, g, cur, nn, x, y), forall|q: Ptr| q != cur && q != nn ==> #[trigger] same_node(h, g, q), g.g_desc == grow(h, all(h, t), cur, nn)
    ensures wf(g, t), all(g, t) == all(h, t).insert(nn), put(h, g, t, x, y, v), framed(h, g, t)
{
    let dd = all(h, t); let ee = dd.insert(nn); let r = h.qt_m_root[t];
    assert(node_ok(h, r)); assert(!dd.contains(nn)); assert(dd.contains(r)); assert(g.g_desc[r] =~= ee);
    assert(node_ok(h, cur)); lem_desc(h, dd, cur);
    assert forall|q: Ptr| #[trigger] ee.contains(q) implies node_ok(g, q) by { lem_grow_node(h, g, dd, cur, nn, x, y, v, q); }
    assert forall|q: Ptr, d: Ptr, e: Ptr| ee.contains(q) && #[trigger] g.g_desc[q].contains(d) && #[trigger] g.g_desc[d].contains(e) implies g.g_desc[q].contains(e) by {
        if q != nn { if d != nn { assert(h.g_desc[q].contains(d)); assert(dd.contains(d)); if e == nn { assert(h.g_desc[d].contains(cur)); assert(h.g_desc[q].contains(cur)); } else { assert(h.g_desc[d].contains(e)); } } }
    }
    assert forall|q: Ptr, d: Ptr| ee.contains(q) && #[trigger] g.g_desc[q].contains(d) implies ee.contains(d) by { if q != nn && d != nn { assert(h.g_desc[q].contains(d)); } }
    assert forall|d: Ptr, e: Ptr| #[trigger] ee.contains(d) && #[trigger] ee.contains(e) && same_at(g, d, e) implies d == e by {
        assert(d == cur || d == nn || same_node(h, g, d)); assert(e == cur || e == nn || same_node(h, g, e)); if d != nn && e != nn { assert(same_at(h, d, e)); } else if d == nn && e != nn { assert(!found(h, t, e, x, y)); } else if e == nn && d != nn { assert(!found(h, t, d, x, y)); }
    }
    assert(wfs(g, ee)); assert(all(g, t) == ee);
    reveal(framed);
    reveal(put); assert(found(g, t, nn, x, y)); lem_one(g, t, nn, x, y);
    assert forall|a: i64, b: i64| (a != x || b != y) implies #[trigger] occ(g, t, a, b) == occ(h, t, a, b) && (occ(h, t, a, b) ==> val(g, t, a, b) == val(h, t, a, b)) by {
        if occ(h, t, a, b) { let d = choose|d: Ptr| found(h, t, d, a, b); assert(same_node(h, g, d) || d == cur); assert(found(g, t, d, a, b)); lem_one(g, t, d, a, b); lem_one(h, t, d, a, b); }
        if occ(g, t, a, b) { let d = choose|d: Ptr| found(g, t, d, a, b); assert(d != nn); assert(same_node(h, g, d) || d == cur); assert(found(h, t, d, a, b)); }
    }
    assert forall|a: i64, b: i64| (a != x || b != y) && #[trigger] occ(h, t, a, b) implies val(g, t, a, b) == val(h, t, a, b) by { assert(occ(g, t, a, b)); }
    assert(ee.len() == dd.len() + 1);
}
pub proof fn lem_grow_node(h: Heap, g: Heap, dd: Set<Ptr>, cur: Ptr, nn: Ptr, x: i64, y: i64, v: Val, q: Ptr)
    requires wfs(h, dd), dd.contains(cur), path(h, dd, cur, x, y), nn != 0, !h.al_node.contains(nn), g.al_node == h.al_node.insert(nn), !dd.contains(nn),
        fresh_node(g, nn, x, y, v), linked(h, g, cur, nn, x, y), forall|q: Ptr| q != cur && q != nn ==> #[trigger] same_node(h, g, q), g.g_desc == grow(h, dd, cur, nn), dd.insert(nn).contains(q)
    ensures node_ok(g, q)
{
    if q == nn { assert(sub(g, 0) =~= Set::<Ptr>::empty()); }
    else {
        reveal(path); assert(node_ok(h, q)); assert(node_ok(h, cur)); lem_desc(h, dd, q); lem_desc(h, dd, cur);
        assert forall|c: Ptr| kid(h, q, c) implies #[trigger] sub(g, c) == (if sub(h, c).contains(cur) { sub(h, c).insert(nn) } else { sub(h, c) }) && (sub(h, c).contains(cur) ==> h.g_desc[q].contains(cur)) by { assert(dd.contains(c)); }
        assert(sub(g, 0) =~= Set::<Ptr>::empty()); assert(sub(g, nn) == Set::<Ptr>::empty().insert(nn));
        assert(!h.g_desc[q].contains(nn));
        assert forall|e: Ptr| e != nn implies #[trigger] g.node_x[e] == h.node_x[e] by { assert(e == cur || same_node(h, g, e)); }
        assert forall|e: Ptr| e != nn implies #[trigger] g.node_y[e] == h.node_y[e] by { assert(e == cur || same_node(h, g, e)); }
        assert forall|e: Ptr| e != nn implies #[trigger] g.node_parent[e] == h.node_parent[e] by { assert(e == cur || same_node(h, g, e)); }
        if q == cur { assert(g.g_desc[q] == h.g_desc[q].insert(nn)); }
        else { assert(same_node(h, g, q)); if h.g_desc[q].contains(cur) { assert(g.g_desc[q] == h.g_desc[q].insert(nn)); } else { assert(g.g_desc[q] == h.g_desc[q]); } }
    }
}
pub proof fn lem_first(h: Heap, g: Heap, t: Ptr, nn: Ptr, x: i64, y: i64, v: Val)
    requires wf(h, t), h.qt_m_root[t] == 0, nn != 0, !h.al_node.contains(nn), g.al_node == h.al_node.insert(nn), g.al_qt == h.al_qt, g.qt_m_root == h.qt_m_root.insert(t, nn), fresh_node(g, nn, x, y, v),
        forall|q: Ptr| q != nn ==> #[trigger] same_node(h, g, q), g.g_desc == h.g_desc.insert(nn, Set::empty().insert(nn))
    ensures wf(g, t), put(h, g, t, x, y, v), framed(h, g, t)
{
    assert(all(g, t) == Set::<Ptr>::empty().insert(nn)); assert(all(h, t) =~= Set::<Ptr>::empty()); assert(sub(g, 0) =~= Set::<Ptr>::empty());
    assert(node_ok(g, nn)); assert(wf(g, t)); reveal(framed); reveal(put); assert(found(g, t, nn, x, y)); lem_one(g, t, nn, x, y);
    assert forall|a: i64, b: i64| (a != x || b != y) implies #[trigger] occ(g, t, a, b) == occ(h, t, a, b) by {
        if occ(h, t, a, b) { let d = choose|d: Ptr| found(h, t, d, a, b); assert(false); }
        if occ(g, t, a, b) { let d = choose|d: Ptr| found(g, t, d, a, b); assert(d == nn); assert(false); }
    }
    if occ(h, t, x, y) { let d = choose|d: Ptr| found(h, t, d, x, y); assert(false); }
}

// the tree below p
pub open spec fn wft(h: Heap, p: Ptr) -> bool { wfs(h, sub(h, p)) && (p != 0 ==> sub(h, p).contains(p)) }
pub proof fn lem_kids(h: Heap, p: Ptr)
    requires wft(h, p), p != 0
    ensures ({ let (a, b, c, d) = (h.node_northeast[p], h.node_northwest[p], h.node_southeast[p], h.node_southwest[p]);
        wft(h, a) && wft(h, b) && wft(h, c) && wft(h, d) && h.al_node.contains(p) && sub(h, p) =~= sub(h, a).union(sub(h, b)).union(sub(h, c)).union(sub(h, d)).insert(p)
        && sub(h, p).len() == 1 + sub(h, a).len() + sub(h, b).len() + sub(h, c).len() + sub(h, d).len()
        && sub(h, a).disjoint(sub(h, b)) && sub(h, a).disjoint(sub(h, c)) && sub(h, a).disjoint(sub(h, d)) && sub(h, b).disjoint(sub(h, c)) && sub(h, b).disjoint(sub(h, d)) && sub(h, c).disjoint(sub(h, d))
        && !sub(h, a).contains(p) && !sub(h, b).contains(p) && !sub(h, c).contains(p) && !sub(h, d).contains(p) && sub(h, a).union(sub(h, b)).disjoint(sub(h, c)) && sub(h, a).union(sub(h, b)).union(sub(h, c)).disjoint(sub(h, d)) && !sub(h, a).union(sub(h, b)).union(sub(h, c)).union(sub(h, d)).contains(p) })
{
    let dd = sub(h, p); let (a, b, c, d) = (h.node_northeast[p], h.node_northwest[p], h.node_southeast[p], h.node_southwest[p]);
    lem_desc(h, dd, p); assert(node_ok(h, p)); lem_wft(h, dd, a); lem_wft(h, dd, b); lem_wft(h, dd, c); lem_wft(h, dd, d);
    let s1 = sub(h, a).union(sub(h, b)); let s2 = s1.union(sub(h, c)); let s3 = s2.union(sub(h, d));
    assert(sub(h, a).disjoint(sub(h, b))); assert(s1.disjoint(sub(h, c))); assert(s2.disjoint(sub(h, d)));
    vstd::set_lib::lemma_set_disjoint_lens(sub(h, a), sub(h, b)); vstd::set_lib::lemma_set_disjoint_lens(s1, sub(h, c)); vstd::set_lib::lemma_set_disjoint_lens(s2, sub(h, d));
    assert(dd =~= s3.insert(p));
}
pub proof fn lem_wft(h: Heap, dd: Set<Ptr>, c: Ptr) requires wfs(h, dd), c != 0 ==> dd.contains(c) ensures wft(h, c) { if c != 0 { assert(node_ok(h, c)); } }
pub open spec fn lists(o: Seq<Ptr>, s: Set<Ptr>) -> bool { o.no_duplicates() && forall|p: Ptr| s.contains(p) <==> #[trigger] o.contains(p) }
pub open spec fn img<T>(f: spec_fn(Ptr) -> T, o: Seq<Ptr>) -> Seq<T> { Seq::new(o.len(), |i: int| f(o[i])) }
// b is a followed by the image of the elements of s, each once
#[verifier::opaque] pub open spec fn appended<T>(f: spec_fn(Ptr) -> T, a: Seq<T>, b: Seq<T>, s: Set<Ptr>) -> bool { exists|o: Seq<Ptr>| #[trigger] lists(o, s) && b == a + img(f, o) }
pub proof fn lem_app0<T>(f: spec_fn(Ptr) -> T, a: Seq<T>, s: Set<Ptr>) requires forall|p: Ptr| !s.contains(p) ensures appended(f, a, a, s) { reveal(appended); assert(lists(Seq::empty(), s)); assert(a =~= a + img(f, Seq::empty())); }
pub proof fn lem_app1<T>(f: spec_fn(Ptr) -> T, a: Seq<T>, p: Ptr) ensures appended(f, a, a.push(f(p)), Set::empty().insert(p)) { reveal(appended); let o = seq![p]; assert(o[0] == p); assert forall|q: Ptr| Set::<Ptr>::empty().insert(p).contains(q) <==> #[trigger] o.contains(q) by { if q == p { assert(o[0] == q); } } assert(lists(o, Set::empty().insert(p))); assert(a.push(f(p)) =~= a + img(f, o)); }
pub proof fn lem_app<T>(f: spec_fn(Ptr) -> T, a: Seq<T>, b: Seq<T>, c: Seq<T>, s: Set<Ptr>, t: Set<Ptr>, u: Set<Ptr>)
    requires appended(f, a, b, s), appended(f, b, c, t), forall|p: Ptr| !(#[trigger] s.contains(p) && t.contains(p)), forall|p: Ptr| #[trigger] u.contains(p) <==> s.contains(p) || t.contains(p)
    ensures appended(f, a, c, u)
{
    reveal(appended);
    let o = choose|o: Seq<Ptr>| #[trigger] lists(o, s) && b == a + img(f, o); let w = choose|w: Seq<Ptr>| #[trigger] lists(w, t) && c == b + img(f, w);
    let z = o + w;
    assert forall|p: Ptr| u.contains(p) <==> #[trigger] z.contains(p) by {
        if z.contains(p) { let i = choose|i: int| 0 <= i < z.len() && z[i] == p; if i < o.len() { assert(o[i] == p); assert(o.contains(p)); } else { assert(w[i - o.len()] == p); assert(w.contains(p)); } }
        if o.contains(p) { let i = choose|i: int| 0 <= i < o.len() && o[i] == p; assert(z[i] == p); }
        if w.contains(p) { let i = choose|i: int| 0 <= i < w.len() && w[i] == p; assert(z[i + o.len()] == p); }
        assert(s.contains(p) == o.contains(p)); assert(t.contains(p) == w.contains(p));
    }
    assert forall|i: int, j: int| 0 <= i < j < z.len() implies z[i] != z[j] by {
        if j < o.len() { } else if i >= o.len() { assert(w[i - o.len()] != w[j - o.len()]); } else { assert(o.contains(o[i])); assert(w.contains(w[j - o.len()])); assert(s.contains(o[i])); assert(t.contains(w[j - o.len()])); }
    }
    assert(lists(z, u)); assert(c =~= a + img(f, z));
}
pub open spec fn fnd(h: Heap) -> spec_fn(Ptr) -> ndata { |p: Ptr| ndata { x: h.node_x[p], y: h.node_y[p], data: h.node_data[p] } }
pub open spec fn fval(h: Heap) -> spec_fn(Ptr) -> Val { |p: Ptr| h.node_data[p] }
pub open spec fn inside(h: Heap, p: Ptr, x1: i64, y1: i64, x2: i64, y2: i64) -> bool { x1 <= h.node_x[p] <= x2 && y1 <= h.node_y[p] <= y2 }
pub open spec fn reg(h: Heap, s: Set<Ptr>, x1: i64, y1: i64, x2: i64, y2: i64) -> Set<Ptr> { s.filter(|p: Ptr| inside(h, p, x1, y1, x2, y2)) }

// region_* values in the order of the enumeration: nw n ne e se s sw w c
pub open spec fn region(x: i64, y: i64, x1: i64, y1: i64, x2: i64, y2: i64) -> i32 {
    if x < x1 { if y < y1 { 0 } else if y <= y2 { 7 } else { 6 } } else if x <= x2 { if y < y1 { 1 } else if y <= y2 { 8 } else { 5 } } else { if y < y1 { 2 } else if y <= y2 { 3 } else { 4 } }
}
pub proof fn lem_reg(h: Heap, p: Ptr, x1: i64, y1: i64, x2: i64, y2: i64)
    requires wft(h, p), p != 0
    ensures ({ let r = region(h.node_x[p], h.node_y[p], x1, y1, x2, y2);
        let (a, b, c, d) = (reg(h, sub(h, h.node_northeast[p]), x1, y1, x2, y2), reg(h, sub(h, h.node_northwest[p]), x1, y1, x2, y2), reg(h, sub(h, h.node_southeast[p]), x1, y1, x2, y2), reg(h, sub(h, h.node_southwest[p]), x1, y1, x2, y2));
        let s = reg(h, sub(h, p), x1, y1, x2, y2); let e = Set::<Ptr>::empty();
        &&& s =~= (if r == 8 { e.insert(p) } else { e }).union(a).union(b).union(c).union(d)
        &&& (r <= 4 ==> a =~= e) && (r <= 2 || r == 6 || r == 7 ==> b =~= e) && (2 <= r <= 6 ==> c =~= e) && (r == 0 || 4 <= r <= 7 ==> d =~= e) })
{ assert(node_ok(h, p)); }

// ---- frames
pub open spec fn same_on(h: Heap, g: Heap, s: Set<Ptr>) -> bool { forall|q: Ptr| #[trigger] s.contains(q) ==> same_node(h, g, q) && g.g_desc[q] == h.g_desc[q] && (h.al_node.contains(q) ==> g.al_node.contains(q)) }
// what happened between h and g concerns the nodes of s only (and no structure but links)
#[verifier::opaque] pub open spec fn untouched(h: Heap, g: Heap, s: Set<Ptr>) -> bool { g.al_node == h.al_node && g.g_desc == h.g_desc && g.node_x == h.node_x && g.node_y == h.node_y && g.node_data == h.node_data && forall|q: Ptr| !s.contains(q) ==> #[trigger] same_node(h, g, q) }
pub proof fn lem_unt0(h: Heap, s: Set<Ptr>) ensures untouched(h, h, s) { reveal(untouched); }
pub proof fn lem_unt1(h: Heap, g: Heap, f: Heap, s: Set<Ptr>, t: Set<Ptr>) requires untouched(h, g, s), untouched(g, f, t) ensures untouched(h, f, s.union(t)) { reveal(untouched); assert forall|q: Ptr| !s.union(t).contains(q) implies #[trigger] same_node(h, f, q) by { assert(same_node(h, g, q)); assert(same_node(g, f, q)); } }
pub proof fn lem_unt2(h: Heap, g: Heap, s: Set<Ptr>, t: Set<Ptr>) requires untouched(h, g, s), s.disjoint(t) ensures same_on(h, g, t) { reveal(untouched); }
pub proof fn lem_unt3(h: Heap, g: Heap, s: Set<Ptr>, q: Ptr) requires untouched(h, g, s), !s.contains(q) ensures same_node(h, g, q) { reveal(untouched); }
pub proof fn lem_unt4(h: Heap, g: Heap, f: Heap, s: Set<Ptr>, p: Ptr) requires untouched(h, g, s), s.contains(p), f.al_node == g.al_node, f.g_desc == g.g_desc, f.node_x == g.node_x, f.node_y == g.node_y, f.node_data == g.node_data, forall|q: Ptr| q != p ==> #[trigger] same_node(g, f, q) ensures untouched(h, f, s) { reveal(untouched); assert forall|q: Ptr| !s.contains(q) implies #[trigger] same_node(h, f, q) by { assert(same_node(h, g, q)); assert(same_node(g, f, q)); } }
pub proof fn lem_unt5(h: Heap, g: Heap, s: Set<Ptr>, t: Set<Ptr>) requires untouched(h, g, s), s.subset_of(t) ensures untouched(h, g, t) { reveal(untouched); }
pub proof fn lem_frame(h: Heap, g: Heap, p: Ptr) requires wft(h, p), same_on(h, g, sub(h, p)) ensures wft(g, p), sub(g, p) == sub(h, p)
{
    let s = sub(h, p);
    if p != 0 {
        assert(s.contains(p)); assert(same_node(h, g, p)); assert(sub(g, p) == s);
        assert forall|q: Ptr| #[trigger] s.contains(q) implies node_ok(g, q) by {
            assert(node_ok(h, q)); assert(same_node(h, g, q)); lem_desc(h, s, q);
            assert forall|c: Ptr| #[trigger] kid(h, q, c) implies s.contains(c) && g.g_desc[c] == h.g_desc[c] && g.node_parent[c] == h.node_parent[c] by { assert(s.contains(c)); assert(same_node(h, g, c)); }
            assert(kid(h, q, h.node_northeast[q]) || h.node_northeast[q] == 0); assert(kid(h, q, h.node_northwest[q]) || h.node_northwest[q] == 0); assert(kid(h, q, h.node_southeast[q]) || h.node_southeast[q] == 0); assert(kid(h, q, h.node_southwest[q]) || h.node_southwest[q] == 0);
            assert forall|e: Ptr| #[trigger] h.g_desc[q].contains(e) implies g.node_x[e] == h.node_x[e] && g.node_y[e] == h.node_y[e] by { assert(s.contains(e)); assert(same_node(h, g, e)); }
        }
        assert forall|d: Ptr, e: Ptr| #[trigger] s.contains(d) && #[trigger] s.contains(e) && same_at(g, d, e) implies d == e by { assert(same_node(h, g, d)); assert(same_node(h, g, e)); assert(same_at(h, d, e)); }
        assert forall|q: Ptr, d: Ptr, e: Ptr| s.contains(q) && #[trigger] g.g_desc[q].contains(d) && #[trigger] g.g_desc[d].contains(e) implies g.g_desc[q].contains(e) by { assert(h.g_desc[q].contains(d)); assert(s.contains(d)); assert(h.g_desc[d].contains(e)); }
    }
}
pub open spec fn same_points(h: Heap, t: Ptr, g: Heap, u: Ptr) -> bool {
    &&& forall|a: i64, b: i64| #![trigger occ(h, t, a, b)] #![trigger occ(g, u, a, b)] occ(h, t, a, b) == occ(g, u, a, b) && (occ(h, t, a, b) ==> val(h, t, a, b) == val(g, u, a, b))
}
pub proof fn lem_frame_points(h: Heap, g: Heap, t: Ptr) requires wf(h, t), same_on(h, g, all(h, t)), g.qt_m_root[t] == h.qt_m_root[t], g.al_qt.contains(t) ensures wf(g, t), same_points(h, t, g, t), all(g, t) == all(h, t)
{ lem_frame_points2(h, g, t, t); }
pub proof fn lem_frame_points2(h: Heap, g: Heap, t: Ptr, u: Ptr) requires wf(h, t), same_on(h, g, all(h, t)), g.qt_m_root[u] == h.qt_m_root[t], g.al_qt.contains(u) ensures wf(g, u), same_points(h, t, g, u), all(g, u) == all(h, t)
{
    lem_frame(h, g, h.qt_m_root[t]);
    assert forall|a: i64, b: i64| #![trigger occ(h, t, a, b)] #![trigger occ(g, u, a, b)] occ(h, t, a, b) == occ(g, u, a, b) && (occ(h, t, a, b) ==> val(h, t, a, b) == val(g, u, a, b)) by {
        if occ(h, t, a, b) { let d = choose|d: Ptr| found(h, t, d, a, b); assert(same_node(h, g, d)); assert(found(g, u, d, a, b)); lem_one(g, u, d, a, b); lem_one(h, t, d, a, b); }
        if occ(g, u, a, b) { let d = choose|d: Ptr| found(g, u, d, a, b); assert(all(h, t).contains(d)); assert(same_node(h, g, d)); assert(found(h, t, d, a, b)); }
    }
}
pub proof fn lem_empty(h: Heap, t: Ptr) requires h.al_qt.contains(t), h.qt_m_root[t] == 0 ensures wf(h, t), all(h, t) =~= Set::<Ptr>::empty(), forall|a: i64, b: i64| !#[trigger] occ(h, t, a, b)
{ assert(all(h, t) =~= Set::<Ptr>::empty()); assert forall|a: i64, b: i64| !#[trigger] occ(h, t, a, b) by { if occ(h, t, a, b) { let d = choose|d: Ptr| found(h, t, d, a, b); assert(all(h, t).contains(d)); } } }
pub open spec fn apart(h: Heap, t: Ptr, u: Ptr) -> bool { t != u && forall|q: Ptr| !(#[trigger] all(h, t).contains(q) && all(h, u).contains(q)) }
pub proof fn lem_framed(h: Heap, g: Heap, t: Ptr, u: Ptr) requires wf(h, t), wf(h, u), apart(h, t, u), framed(h, g, t) ensures wf(g, u), same_points(h, u, g, u), all(g, u) == all(h, u), apart(g, t, u)
{
    reveal(framed);
    assert forall|q: Ptr| #[trigger] all(h, u).contains(q) implies same_node(h, g, q) && g.g_desc[q] == h.g_desc[q] && g.al_node.contains(q) by { assert(node_ok(h, q)); assert(!all(h, t).contains(q)); }
    lem_frame_points(h, g, u);
    assert forall|q: Ptr| !(#[trigger] all(g, t).contains(q) && all(g, u).contains(q)) by { if all(g, u).contains(q) { assert(node_ok(h, q)); } }
}
pub proof fn lem_reframe(h: Heap, k: Heap, g: Heap, t: Ptr) requires framed(k, g, t), k == (Heap { qt_m_xrange: k.qt_m_xrange, qt_m_yrange: k.qt_m_yrange, ..h }) ensures framed(h, g, t)
{ reveal(framed); assert(k.al_node == h.al_node && k.g_desc == h.g_desc && k.qt_m_root == h.qt_m_root && k.al_qt == h.al_qt); assert(all(k, t) == all(h, t)); assert(forall|u: Ptr| u != t ==> #[trigger] g.qt_m_root[u] == k.qt_m_root[u]); assert forall|q: Ptr| #[trigger] all(g, t).contains(q) implies all(h, t).contains(q) || !h.al_node.contains(q) by { assert(all(k, t).contains(q) || !k.al_node.contains(q)); } assert forall|q: Ptr| #[trigger] h.al_node.contains(q) implies g.al_node.contains(q) by { assert(k.al_node.contains(q)); } assert forall|q: Ptr| h.al_node.contains(q) && !all(h, t).contains(q) implies #[trigger] same_node(h, g, q) && g.g_desc[q] == h.g_desc[q] by { assert(same_node(k, g, q)); } }
pub proof fn lem_framed2(h: Heap, g: Heap, f: Heap, t: Ptr) requires framed(h, g, t), framed(g, f, t) ensures framed(h, f, t)
{
    reveal(framed);
    assert forall|q: Ptr| h.al_node.contains(q) && !all(h, t).contains(q) implies #[trigger] same_node(h, f, q) && f.g_desc[q] == h.g_desc[q] by { assert(same_node(h, g, q)); assert(same_node(g, f, q)); }
    assert forall|q: Ptr| #[trigger] all(f, t).contains(q) implies all(h, t).contains(q) || !h.al_node.contains(q) by { if all(g, t).contains(q) {} }
}
pub proof fn lem_same2(h: Heap, g: Heap, f: Heap, u: Ptr) requires same_points(h, u, g, u), same_points(g, u, f, u) ensures same_points(h, u, f, u)
{ assert forall|a: i64, b: i64| #![trigger occ(h, u, a, b)] #![trigger occ(f, u, a, b)] occ(h, u, a, b) == occ(f, u, a, b) && (occ(h, u, a, b) ==> val(h, u, a, b) == val(f, u, a, b)) by { assert(occ(h, u, a, b) == occ(g, u, a, b)); } }
pub open spec fn union_of(h: Heap, t: Ptr, u: Ptr, g: Heap) -> bool {
    &&& forall|a: i64, b: i64| #[trigger] occ(g, t, a, b) == (occ(h, t, a, b) || occ(h, u, a, b))
    &&& forall|a: i64, b: i64| #[trigger] occ(g, t, a, b) ==> val(g, t, a, b) == if occ(h, u, a, b) { val(h, u, a, b) } else { val(h, t, a, b) }
}
pub proof fn lem_copied(h0: Heap, h1: Heap, g: Heap, t: Ptr, u: Ptr) requires h1.qt_m_root[t] == 0, h1.al_qt.contains(t), same_points(h0, u, h1, u), union_of(h1, t, u, g) ensures same_points(h0, u, g, t)
{
    lem_empty(h1, t);
    assert forall|a: i64, b: i64| #![trigger occ(h0, u, a, b)] #![trigger occ(g, t, a, b)] occ(h0, u, a, b) == occ(g, t, a, b) && (occ(h0, u, a, b) ==> val(h0, u, a, b) == val(g, t, a, b)) by { assert(occ(h1, u, a, b) == occ(h0, u, a, b)); assert(!occ(h1, t, a, b)); }
}
// s lists the points of the tree
pub open spec fn pts(h: Heap, t: Ptr, s: Seq<ndata>) -> bool { appended(fnd(h), Seq::empty(), s, all(h, t)) }
pub open spec fn listed(s: Seq<ndata>, n: int, a: i64, b: i64) -> bool { exists|k: int| 0 <= k < n && (#[trigger] s[k]).x == a && s[k].y == b }
pub proof fn lem_pts(h: Heap, t: Ptr, s: Seq<ndata>) requires wf(h, t), pts(h, t, s)
    ensures forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> occ(h, t, s[k].x, s[k].y) && val(h, t, s[k].x, s[k].y) == s[k].data, forall|a: i64, b: i64| #[trigger] occ(h, t, a, b) ==> listed(s, s.len() as int, a, b),
        forall|j: int, k: int| 0 <= j < k < s.len() ==> (#[trigger] s[j]).x != (#[trigger] s[k]).x || s[j].y != s[k].y, s.len() == all(h, t).len()
{
    reveal(appended); let f = fnd(h); let o = choose|o: Seq<Ptr>| #[trigger] lists(o, all(h, t)) && s == Seq::<ndata>::empty() + img(f, o);
    assert(s =~= img(f, o));
    assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() implies occ(h, t, s[k].x, s[k].y) && val(h, t, s[k].x, s[k].y) == s[k].data by { let d = o[k]; assert(s[k] == f(d)); assert(o.contains(d)); assert(found(h, t, d, s[k].x, s[k].y)); lem_one(h, t, d, s[k].x, s[k].y); }
    assert forall|a: i64, b: i64| #[trigger] occ(h, t, a, b) implies listed(s, s.len() as int, a, b) by { let d = choose|d: Ptr| found(h, t, d, a, b); assert(o.contains(d)); let k = choose|k: int| 0 <= k < o.len() && o[k] == d; assert(s[k] == f(d)); }
    assert forall|j: int, k: int| 0 <= j < k < s.len() implies (#[trigger] s[j]).x != (#[trigger] s[k]).x || s[j].y != s[k].y by { assert(o[j] != o[k]); assert(s[j] == f(o[j])); assert(s[k] == f(o[k])); assert(o.contains(o[j])); assert(o.contains(o[k])); if s[j].x == s[k].x && s[j].y == s[k].y { assert(same_at(h, o[j], o[k])); } }
    assert(o.to_set() =~= all(h, t)); o.unique_seq_to_set();
}
// the first n points of s were put into the tree, on top of what it held in h
#[verifier::opaque] pub open spec fn merged(h: Heap, g: Heap, t: Ptr, s: Seq<ndata>, n: int) -> bool {
    &&& forall|k: int| #![trigger s[k]] 0 <= k < n ==> occ(g, t, s[k].x, s[k].y) && val(g, t, s[k].x, s[k].y) == s[k].data
    &&& forall|a: i64, b: i64| #[trigger] occ(g, t, a, b) ==> occ(h, t, a, b) || listed(s, n, a, b)
    &&& forall|a: i64, b: i64| !listed(s, n, a, b) ==> (#[trigger] occ(h, t, a, b) ==> occ(g, t, a, b) && val(g, t, a, b) == val(h, t, a, b))
}
pub proof fn lem_merge(h: Heap, g: Heap, f: Heap, t: Ptr, s: Seq<ndata>, n: int)
    requires merged(h, g, t, s, n), 0 <= n < s.len(), put(g, f, t, s[n].x, s[n].y, s[n].data), forall|j: int, k: int| 0 <= j < k < s.len() ==> (#[trigger] s[j]).x != (#[trigger] s[k]).x || s[j].y != s[k].y
    ensures merged(h, f, t, s, n + 1)
{
    reveal(merged); reveal(put);
    assert forall|k: int| #![trigger s[k]] 0 <= k < n + 1 implies occ(f, t, s[k].x, s[k].y) && val(f, t, s[k].x, s[k].y) == s[k].data by { if k < n { assert(s[k].x != s[n].x || s[k].y != s[n].y); assert(occ(g, t, s[k].x, s[k].y)); } }
    assert forall|a: i64, b: i64| #[trigger] occ(f, t, a, b) implies occ(h, t, a, b) || listed(s, n + 1, a, b) by { if a == s[n].x && b == s[n].y { assert(s[n].x == a); } else { assert(occ(g, t, a, b)); if listed(s, n, a, b) { let k = choose|k: int| 0 <= k < n && (#[trigger] s[k]).x == a && s[k].y == b; assert(s[k].x == a); } } }
    assert forall|a: i64, b: i64| !listed(s, n + 1, a, b) implies (#[trigger] occ(h, t, a, b) ==> occ(f, t, a, b) && val(f, t, a, b) == val(h, t, a, b)) by {
        assert(s[n].x != a || s[n].y != b); if listed(s, n, a, b) { let k = choose|k: int| 0 <= k < n && (#[trigger] s[k]).x == a && s[k].y == b; assert(s[k].x == a); }
        if occ(h, t, a, b) { assert(occ(g, t, a, b)); }
    }
}
pub proof fn lem_merged(h: Heap, g: Heap, t: Ptr, u: Ptr, s: Seq<ndata>) requires wf(h, u), pts(h, u, s), merged(h, g, t, s, s.len() as int) ensures union_of(h, t, u, g)
{
    reveal(merged); lem_pts(h, u, s);
    assert forall|a: i64, b: i64| #[trigger] occ(g, t, a, b) == (occ(h, t, a, b) || occ(h, u, a, b)) && (occ(g, t, a, b) ==> val(g, t, a, b) == if occ(h, u, a, b) { val(h, u, a, b) } else { val(h, t, a, b) }) by {
        if listed(s, s.len() as int, a, b) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).x == a && s[k].y == b; assert(occ(h, u, s[k].x, s[k].y)); } else { assert(!occ(h, u, a, b)); }
    }
}
// ---- order of node_data (the sorter): lexicographic, the data with an order of their own
pub uninterp spec fn val_lt(a: Val, b: Val) -> bool;
#[verifier::external_body] pub broadcast proof fn val_lt_total(a: Val, b: Val) ensures (#[trigger] val_lt(a, b)) ==> !val_lt(b, a) && a != b, !val_lt(a, b) && a != b ==> val_lt(b, a) {}
#[verifier::external_body] pub broadcast proof fn val_lt_trans(a: Val, b: Val, c: Val) requires #[trigger] val_lt(a, b), #[trigger] val_lt(b, c) ensures val_lt(a, c) {}
#[verifier::external_body] pub fn lt_Val(a: Val, b: Val) -> (r: bool) ensures r == val_lt(a, b) { unimplemented!() }
pub open spec fn nd_lt(a: ndata, b: ndata) -> bool { if a.x != b.x { a.x < b.x } else if a.y != b.y { a.y < b.y } else { val_lt(a.data, b.data) } }
pub open spec fn nd_le() -> spec_fn(ndata, ndata) -> bool { |a: ndata, b: ndata| !nd_lt(b, a) }
// std::sort with the sorter (its call operator is proved to be nd_lt, a strict total order): a sorted rearrangement
#[verifier::external_body] pub fn sort_ndata(v: CVec<ndata>) -> (r: CVec<ndata>) ensures r@.to_multiset() == v@.to_multiset(), r@.len() == v@.len(), vstd::relations::sorted_by(r@, nd_le()) { unimplemented!() }
pub proof fn lem_nd_total() ensures vstd::relations::total_ordering(nd_le()) { broadcast use val_lt_total, val_lt_trans; 
    assert forall|a: ndata, b: ndata, c: ndata| #[trigger] nd_le()(a, b) && #[trigger] nd_le()(b, c) implies nd_le()(a, c) by { val_lt_total(a.data, b.data); val_lt_total(b.data, c.data); val_lt_total(a.data, c.data); if val_lt(c.data, a.data) { if val_lt(a.data, b.data) { val_lt_trans(c.data, a.data, b.data); } } }
    assert forall|a: ndata, b: ndata| #[trigger] nd_le()(a, b) || #[trigger] nd_le()(b, a) by { val_lt_total(a.data, b.data); }
    assert forall|a: ndata, b: ndata| #[trigger] nd_le()(a, b) && #[trigger] nd_le()(b, a) implies a == b by { val_lt_total(a.data, b.data); }
}
pub proof fn lem_same_points(h: Heap, t: Ptr, u: Ptr, s: Seq<ndata>, w: Seq<ndata>) requires wf(h, t), wf(h, u), pts(h, t, s), pts(h, u, w) ensures (s.to_multiset() == w.to_multiset()) == same_points(h, t, h, u)
{
    lem_pts(h, t, s); lem_pts(h, u, w);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.to_multiset() == w.to_multiset() {
        assert forall|a: i64, b: i64| #![trigger occ(h, t, a, b)] #![trigger occ(h, u, a, b)] occ(h, t, a, b) == occ(h, u, a, b) && (occ(h, t, a, b) ==> val(h, t, a, b) == val(h, u, a, b)) by {
            if occ(h, t, a, b) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).x == a && s[k].y == b; assert(s.contains(s[k])); assert(s.to_multiset().contains(s[k])); assert(w.contains(s[k])); let j = choose|j: int| 0 <= j < w.len() && w[j] == s[k]; assert(occ(h, u, w[j].x, w[j].y)); }
            if occ(h, u, a, b) { let k = choose|k: int| 0 <= k < w.len() && (#[trigger] w[k]).x == a && w[k].y == b; assert(w.contains(w[k])); assert(w.to_multiset().contains(w[k])); assert(s.contains(w[k])); let j = choose|j: int| 0 <= j < s.len() && s[j] == w[k]; assert(occ(h, t, s[j].x, s[j].y)); }
        }
    } else if same_points(h, t, h, u) {
        assert(s.no_duplicates()); assert(w.no_duplicates()); s.lemma_multiset_has_no_duplicates(); w.lemma_multiset_has_no_duplicates();
        assert forall|e: ndata| #[trigger] s.to_multiset().count(e) == w.to_multiset().count(e) by {
            if s.contains(e) { let k = choose|k: int| 0 <= k < s.len() && s[k] == e; assert(occ(h, t, s[k].x, s[k].y)); assert(occ(h, u, e.x, e.y)); let j = choose|j: int| 0 <= j < w.len() && (#[trigger] w[j]).x == e.x && w[j].y == e.y; assert(w[j] == e); assert(w.contains(e)); }
            if w.contains(e) { let k = choose|k: int| 0 <= k < w.len() && w[k] == e; assert(occ(h, u, w[k].x, w[k].y)); assert(occ(h, t, e.x, e.y)); let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).x == e.x && s[j].y == e.y; assert(s[j] == e); assert(s.contains(e)); }
            assert(s.to_multiset().contains(e) == s.contains(e)); assert(w.to_multiset().contains(e) == w.contains(e));
        }
        assert(s.to_multiset() =~= w.to_multiset());
    }
}
"""
FINV=['wf(h@, this__0)','h@ == h0','x == x__0','y == y__0','cur_node != 0 ==> all(h@, this__0).contains(cur_node)','narrowed(h@, all(h@, this__0), cur_node, x, y)']
FIND=dict(requires=['wf(H, this)'],ensures=['r != 0 ==> found(H, this, r, x, y)','r == 0 ==> !occ(H, this, x, y)'],
  at={'entry':'proof { lem_start(h@, this, x, y); }','exit':'proof { if ret == 0 { lem_none(h@, this__0, x, y); } }'},
  loops=[dict(inv=FINV,dec='sub(h@, cur_node).len()',begin='proof { if cur_node != 0 { let d = all(h@, this__0); lem_desc(h@, d, cur_node); if !is_at(h@, cur_node, x, y) { lem_pick(h@, d, cur_node, x, y); } } }')])
IINV=['wf(h0, this__0)','x == x__0','y == y__0','data == data__0','cur_node != 0','all(h0, this__0).contains(cur_node)','narrowed(h0, all(h0, this__0), cur_node, x, y)','path(h0, all(h0, this__0), cur_node, x, y)',
  'h@ == (Heap { qt_m_xrange: h@.qt_m_xrange, qt_m_yrange: h@.qt_m_yrange, ..h0 })']
def ACC(key,f,out,whole,part,own):
    # the elements collected so far are those of acc; each recursive call adds those below its argument
    return {'entry':'let ghost o0 = %s; let ghost mut acc = Set::<Ptr>::empty(); let ghost mut first = true; let ghost p1 = Set::<Ptr>::empty().insert(p); proof { if p != 0 { lem_kids(h@, p); lem_app0(%s, o0, acc); lem_app1(%s, o0, p); } else { lem_app0(%s, o0, %s); } }'%(out,f,f,f,whole.replace('__0','')),
     'before_call:'+key:'let ghost c0 = %s; proof { if first { if c0 =~= o0.push(%s(p)) { acc = p1; } first = false; } }'%(out,f),
     'after_call:'+key:'proof { lem_app(%s, o0, c0, %s, acc, %s, acc.union(%s)); acc = acc.union(%s); }'%(f,out,part,part,part),
     'exit':'proof { if p__0 != 0 { %s assert(%s =~= acc); } }'%(own,whole)}
CONTRACTS={
 'qt.insert':dict(requires=['wf(H, this)'],ensures=['wf(H, this)','put(H0, H, this, x, y, data)','framed(H0, H, this)'],
  at={'exit':'''let ghost nn: Ptr = if h@.al_node == h0.al_node { 0 } else { choose|p: Ptr| h@.al_node.contains(p) && !h0.al_node.contains(p) };
    let ghost cur: Ptr = h@.node_parent[nn];
    gset_g_desc(h, Ghost(if nn == 0 { h0.g_desc } else if h0.qt_m_root[this__0] == 0 { h0.g_desc.insert(nn, Set::empty().insert(nn)) } else { grow(h0, all(h0, this__0), cur, nn) }));
    proof {
      if nn == 0 { let d = choose|d: Ptr| found(h0, this__0, d, x__0, y__0); assert(wf(h@, this__0)); lem_put_same(h0, h@, this__0, d, x__0, y__0, data__0); reveal(framed); }
      else if h0.qt_m_root[this__0] == 0 { lem_first(h0, h@, this__0, nn, x__0, y__0, data__0); }
      else { lem_grow(h0, h@, this__0, cur, nn, x__0, y__0, data__0); }
    }''',
   'decl:cur_node':'proof { lem_start(h0, this, x, y); lem_path0(h0, this, x, y); }'},
  loops=[dict(inv=IINV,dec='sub(h@, cur_node).len()',begin='proof { let d = all(h0, this__0); lem_desc(h0, d, cur_node); if !is_at(h0, cur_node, x, y) { lem_pick(h0, d, cur_node, x, y); let c = kidof(h0, cur_node, x, y); if c == 0 { lem_none(h0, this__0, x, y); } else { lem_path(h0, d, cur_node, c, x, y); } } else { assert(found(h0, this__0, cur_node, x, y)); assert(occ(h0, this__0, x, y)); assert(occ(h0, this__0, x, y)); } }')]),
 'qt.find_node_ptr':FIND,'qt.find_node':FIND,
 'qt.find':dict(requires=['wf(H, this)'],throws='!occ(H, this, x, y)',ensures=['occ(H, this, x, y)','r == val(H, this, x, y)'],at={'decl:p':'proof { if p != 0 { lem_one(h@, this, p, x, y); let d = all(h@, this); lem_desc(h@, d, p); } }'}),
 'qt.empty':dict(requires=['wf(H, this)'],ensures=['r == (all(H, this).len() == 0)'],at={'exit':'proof { if h@.qt_m_root[this] == 0 { assert(all(h@, this) =~= Set::<Ptr>::empty()); } else { if all(h@, this).len() == 0 { assert(!all(h@, this).contains(h@.qt_m_root[this])); } } }'}),
 'qt.count_all_nodes':dict(requires=['wft(H, p)','*old(node_count) + sub(H, p).len() <= u64::MAX'],ensures=['*final(node_count) == *old(node_count) + sub(H, p).len()'],decreases='sub(H, p).len()',
   at={'entry':'proof { if p != 0 { lem_kids(h@, p); } }'}),
 'qt.size':dict(requires=['wf(H, this)','all(H, this).len() <= u64::MAX'],ensures=['r == all(H, this).len()']),
 'qt.get_all_stored_data/2':dict(requires=['wft(H, p)'],ensures=['appended(fnd(H), old(stored_data)@, final(stored_data)@, sub(H, p))'],decreases='sub(H, p).len()',
   at=ACC('qt.get_all_stored_data/2','fnd(h@)','stored_data@','sub(h@, p__0)','sub(h@, ARG1)','')),
 'qt.get_all_stored_data/1':dict(requires=['wf(H, this)'],ensures=['appended(fnd(H), Seq::empty(), final(stored_data)@, all(H, this))'],at={'entry':'proof { lem_app0(fnd(h@), Seq::<ndata>::empty(), Set::empty()); }','exit':'proof { if h@.qt_m_root[this] == 0 { assert(all(h@, this) == Set::<Ptr>::empty()); assert(stored_data@ =~= Seq::empty()); } }'}),
 'get_search_region_space':dict(requires=['H.al_node.contains(p)'],ensures=['r == region(H.node_x[p], H.node_y[p], x1, y1, x2, y2)']),
 'search_region_node':dict(where='array_inserter',requires=['wft(H, p)'],ensures=['appended(fval(H), old(result).m_result@, final(result).m_result@, reg(H, sub(H, p), x1, y1, x2, y2))'],decreases='sub(H, p).len()',
   at=ACC('search_region_node','fval(h@)','result.m_result@','reg(h@, sub(h@, p__0), x1, y1, x2, y2)','reg(h@, sub(h@, ARG0), x1, y1, x2, y2)',' lem_reg(h@, p__0, x1, y1, x2, y2);')),
 'qt.search_region/5':dict(requires=['wf(H, this)'],ensures=['appended(fval(H), old(result)@, final(result)@, reg(H, all(H, this), x1, y1, x2, y2))']),
 'sorter.operator()':dict(ensures=['r == nd_lt(left, right)']),
 'qt.equals':dict(ensures=['r == (old(v1)@.to_multiset() == old(v2)@.to_multiset())'],
   at={'entry':'let ghost a1 = v1@; let ghost a2 = v2@; proof { lem_nd_total(); broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(a1.to_multiset().len() == a1.len()); assert(a2.to_multiset().len() == a2.len()); }',
    'exit':'proof { if ret { assert(v1@ =~= v2@); } else if a1.to_multiset() == a2.to_multiset() { assert(a1.len() == a2.len()); vstd::seq_lib::lemma_sorted_unique(v1@, v2@, nd_le()); } }'},
   loops=[dict(inv=['itr1.v == *v1','itr2.v == *v2','itr1_end.v == *v1','itr2_end.v == *v2','itr1_end.i == v1@.len()','itr2_end.i == v2@.len()','itr1.i == itr2.i','itr1.i <= v1@.len()','v1@.len() == v2@.len()','0 <= itr1.i','forall|k: int| 0 <= k < itr1.i ==> (#[trigger] v1@[k]) == v2@[k]',
      'v1@.to_multiset() == a1.to_multiset()','v2@.to_multiset() == a2.to_multiset()'],dec='itr1_end.i - itr1.i')]),
 'qt.operator==':dict(requires=['wf(H, this)','wf(H, r)'],ensures=['RES == same_points(H, this, H, r)'],at={'exit':'proof { lem_same_points(h@, this, r__0, w1, w2); }','before_call:qt.equals':'let ghost w1 = v1@; let ghost w2 = v2@;'}),
 'qt.insert_data_from':dict(requires=['wf(H, this)','wf(H, r)','apart(H, this, r)'],
   ensures=['wf(H, this)','union_of(H0, this, r, H)','wf(H, r)','same_points(H0, r, H, r)','apart(H, this, r)','framed(H0, H, this)'],
   at={'exit':'proof { lem_merged(h0, h@, this__0, r__0, all_data@); }'},
   loops=[dict(before='proof { lem_pts(h0, r__0, all_data@); reveal(merged); reveal(framed); assert(merged(h0, h@, this__0, all_data@, 0)); }',
     inv=['lib_it.v == all_data','0 <= lib_it.i <= all_data@.len()','wf(h@, this__0)','wf(h@, r__0)','same_points(h0, r__0, h@, r__0)','apart(h@, this__0, r__0)','merged(h0, h@, this__0, all_data@, lib_it.i as int)','framed(h0, h@, this__0)','pts(h0, r__0, all_data@)'],
     dec='all_data@.len() - lib_it.i',begin='let ghost g1 = h@; let ghost n = lib_it.i as int;',
     end='proof { lem_framed(g1, h@, this__0, r__0); lem_pts(h0, r__0, all_data@); lem_merge(h0, g1, h@, this__0, all_data@, n); lem_framed2(h0, g1, h@, this__0); lem_same2(h0, g1, h@, r__0); }')]),
 'disconnect_all_nodes':dict(requires=['wft(H, p)'],ensures=['untouched(H0, H, sub(H0, p))','H.al_node == H0.al_node'],decreases='sub(H, p).len()',
   at={'entry':'let ghost mut acc = Set::<Ptr>::empty(); proof { if p != 0 { lem_kids(h@, p); acc = acc.insert(p); } lem_unt0(h@, acc); }',
    'before_call:disconnect_all_nodes':'let ghost c0 = h@; proof { assert(ARG0 == h0.node_northeast[p__0] || ARG0 == h0.node_northwest[p__0] || ARG0 == h0.node_southeast[p__0] || ARG0 == h0.node_southwest[p__0]); lem_unt2(h0, h@, acc, sub(h0, ARG0)); lem_frame(h0, h@, ARG0); }',
    'after_call:disconnect_all_nodes':'proof { lem_unt1(h0, c0, h@, acc, sub(h0, ARG0)); lem_unt3(c0, h@, sub(h0, ARG0), p__0); acc = acc.union(sub(h0, ARG0)); }',
    'before_store:node.northeast':'let ghost s0 = h@;','after_store:node.northeast':'proof { lem_unt4(h0, s0, h@, acc, p__0); }',
    'before_store:node.northwest':'let ghost s0 = h@;','after_store:node.northwest':'proof { lem_unt4(h0, s0, h@, acc, p__0); }',
    'before_store:node.southeast':'let ghost s0 = h@;','after_store:node.southeast':'proof { lem_unt4(h0, s0, h@, acc, p__0); }',
    'before_store:node.southwest':'let ghost s0 = h@;','after_store:node.southwest':'proof { lem_unt4(h0, s0, h@, acc, p__0); }',
    'before_store:node.parent':'let ghost s0 = h@;','after_store:node.parent':'proof { lem_unt4(h0, s0, h@, acc, p__0); }',
    'exit':'proof { assert(acc.subset_of(sub(h0, p__0))); lem_unt5(h0, h@, acc, sub(h0, p__0)); }'}),
 'qt.clear_all_nodes':dict(requires=['wf(H, this)'],ensures=['wf(H, this)','all(H, this).len() == 0','H.qt_m_root[this] == 0','framed(H0, H, this)'],at={'exit':'proof { lem_empty(h@, this__0); reveal(framed); reveal(untouched); assert forall|q: Ptr| h0.al_node.contains(q) && !all(h0, this__0).contains(q) implies #[trigger] same_node(h0, h@, q) by { assert(same_node(h0, c1, q)); } }','after_call:disconnect_all_nodes':'let ghost c1 = h@;'}),
 'qt.clear':dict(requires=['wf(H, this)'],ensures=['wf(H, this)','all(H, this).len() == 0','H.qt_m_root[this] == 0','framed(H0, H, this)']),
 'qt.operator=':dict(requires=['wf(H, this)','wf(H, r)','this == r || apart(H, this, r)'],
   ensures=['RES == this','wf(H, this)','wf(H, r)','same_points(H0, r, H, this)','same_points(H0, r, H, r)','this != r ==> apart(H, this, r)','framed(H0, H, this)'],
   at={'before_call:qt.clear_all_nodes':'let ghost k0 = h@;','after_call:qt.clear_all_nodes':'let ghost h1 = h@; proof { lem_reframe(h0, k0, h1, this__0); lem_framed(h0, h1, this__0, r__0); lem_empty(h1, this__0); }','after_call:qt.insert_data_from':'proof { lem_framed2(h0, h1, h@, this__0); lem_same2(h0, h1, h@, r__0); lem_copied(h0, h1, h@, this__0, r__0); }','exit':'proof { reveal(framed); }'}),
 'qt.ctor/1':dict(requires=['H.al_qt.contains(this)','wf(H, r)','this != r'],ensures=['wf(H, this)','wf(H, r)','same_points(H0, r, H, this)','same_points(H0, r, H, r)','apart(H, this, r)'],
   at={'before_call:qt.insert_data_from':'let ghost h1 = h@; proof { lem_empty(h1, this__0); assert(same_on(h0, h1, all(h0, r__0))); lem_frame_points(h0, h1, r__0); }','exit':'proof { lem_same2(h0, h1, h@, r__0); lem_copied(h0, h1, h@, this__0, r__0); }'}),
 'qt.swap':dict(requires=['wf(H, this)','wf(H, r)'],ensures=['wf(H, this)','wf(H, r)','same_points(H0, this, H, r)','same_points(H0, r, H, this)'],
   at={'exit':'proof { assert(same_on(h0, h@, all(h0, this__0))); assert(same_on(h0, h@, all(h0, r__0))); lem_frame_points2(h0, h@, this__0, r__0); lem_frame_points2(h0, h@, r__0, this__0); }'}),
}
def libcall(tr,e,name,args,want_lv):
    if name=='sort' and len(args)==3:
        from cxx2verus import qt,Unsupported,kids,LV
        import re
        def cont(a,which):
            x=tr.skip(a)
            while x['kind'] in('CXXConstructExpr','MaterializeTemporaryExpr','ExprWithCleanups') and len(kids(x))==1: x=tr.skip(kids(x)[0])
            if x['kind']!='CXXMemberCallExpr' or tr.skip(kids(x)[0]).get('name')!=which: raise Unsupported('sort over a part')
            return tr.lv(kids(tr.skip(kids(x)[0]))[0])
        if not re.search(r'node_data::sorter',qt(args[2])): raise Unsupported('sort with another comparator')
        b=cont(args[0],'begin'); n=cont(args[1],'end')
        if b.root!=n.root or b.path!=n.path: raise Unsupported('sort over two containers')
        tr.callrec('sorter.operator()')
        t=('vec',('r','ndata')); tr.store(b,tr.let('sort_ndata(%s)'%tr.load(b),t)); return ('()',('void',))
