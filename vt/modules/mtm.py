from base import *
import re
NAME='mtm'
DRIVER="""
#include <mdds/multi_type_matrix.hpp>
#include <vector>
struct tr { typedef mdds::mtv::int32_element_block integer_element_block; typedef mdds::mtv::string_element_block string_element_block; };
template class mdds::multi_type_matrix<tr>;
using mat = mdds::multi_type_matrix<tr>;
void use(mat& m, const std::vector<double>& v) { mat a(1, 2, 3.0); m.resize(1, 2, 3.0); m.set_column(0, v.begin(), v.end()); m.set(0, 0, v.begin(), v.end()); m.set(m.position(0, 0), v.begin(), v.end()); m.copy(1, 1, v.begin(), v.end()); (void)m.get<double>(0, 0); }
"""
HEAP={'mtm':r'multi_type_matrix<tr>$'}
RECORDS={'szp':r'multi_type_matrix::size_pair_type<','node':r'multi_type_matrix::element_block_node_type<'}
OPAQUE=['Store','Dbl','Str']
EIT=('r','eit'); SIT=('r','SIt'); U=('i','u64'); POS=('r','Pair_SIt_u64'); PAIRS=[(SIT,U)]
EXTRA_RECS={'SIt':[('type',('i','i32')),('position',U),('size',U),('data',('p','eb')),('index',U)],'eit':[('data',('p','eb')),('i',U)]}
NS=r'^(const )?(typename )?(mdds::)?(multi_type_matrix<.*>::|store_type::|multi_type_vector<.*>::|mtv::soa::|mtv::|soa::)*'
TYPES_RAW=[(r'^(const )?(mdds::)?(multi_type_matrix<.*>::)?(mtv::)?(element_block_type|base_element_block) \*( ?const)?$',('p','eb')),
 (r'^(const )?__gnu_cxx::__normal_iterator<const (double|int|std::.*string.*) \*|^(const )?(typename )?.*element_block<.*::const_iterator|^(const )?std::_Bit_const_iterator|^(const )?typename _Blk::const_iterator|^(const )?(typename )?mdds::mtv::\w+_element_block::const_iterator',EIT)]
TYPES=[(NS+r'store_type$|^(const )?(mdds::)?(mtv::)?(soa::)?multi_type_vector<[^()]*>$',('v','Store')),(r'^(mdds::)?multi_type_matrix(<tr>)?$',('p','mtm',1)),(NS+r'size_pair_type$',('r','szp')),(NS+r'element_block_node_type$',('r','node')),
 (NS+r'(const_)?iterator$|^(const )?(mdds::)?(mtv::)?(soa::)?(detail::)?(const_)?iterator_base<.*>$|^(const )?(.*::)?iterator_updater<[^<>]*>$',SIT),(NS+r'(const_)?position_type$|^(std::)?pair<(mdds::)?(mtv::)?(soa::)?detail::(const_)?iterator_base<.*',POS),
 (NS+r'size_type$|^(std::)?size_t$',('i','u64')),(r'^(.*::)?element_t$',('i','i32')),(r'^double$',('v','Dbl')),(NS+r'integer_type$',('i','i32')),(NS+r'string_type$|^(std::)?(__cxx11::)?(basic_)?string(<.*>)?$',('v','Str'))]
FIELD_TYPES={'mtm.m_store':('v','Store')}
PRELUDE=r"""
pub enum MC { Empty, Num(Dbl), Bool(bool), Int(i32), Str(Str) }
pub open spec fn tcode(c: MC) -> i32 { match c { MC::Empty => -1i32, MC::Bool(_) => 0i32, MC::Int(_) => 5i32, MC::Num(_) => 10i32, MC::Str(_) => 11i32 } }
// ---- the vector the matrix keeps its cells in: the plain array it stands for, and its blocks
pub uninterp spec fn sv(s: Store) -> Seq<MC>;
pub uninterp spec fn nblk(s: Store) -> nat;
pub uninterp spec fn bnode(s: Store, i: int) -> SIt;
pub uninterp spec fn bdata(p: Ptr) -> Seq<MC>;
pub open spec fn is_it(s: Store, it: SIt) -> bool { it.index <= nblk(s) && it == bnode(s, it.index as int) }
pub open spec fn is_pos(s: Store, p: Pair_SIt_u64, k: int) -> bool { is_it(s, p.first) && p.first.index < nblk(s) && p.second < p.first.size && p.first.position + p.second == k }
pub open spec fn okp(s: Store, p: Pair_SIt_u64) -> bool { is_it(s, p.first) && p.first.index < nblk(s) && p.second < p.first.size }
// the blocks are not empty, lie side by side, cover the array and each holds one type
pub axiom fn store_shape(s: Store) ensures sv(s).len() <= 0x7fff_ffff_ffff_ffff, nblk(s) <= sv(s).len(), nblk(s) > 0 ==> bnode(s, 0).position == 0, nblk(s) == 0 <==> sv(s).len() == 0, forall|i: int| 0 <= i <= nblk(s) ==> (#[trigger] bnode(s, i)).index == i,
    forall|i: int| 0 <= i < nblk(s) ==> (#[trigger] bnode(s, i)).size > 0 && bnode(s, i).position + bnode(s, i).size <= sv(s).len() && (i + 1 == nblk(s) ==> bnode(s, i).position + bnode(s, i).size == sv(s).len()) && (i + 1 < nblk(s) ==> bnode(s, i + 1).position == bnode(s, i).position + bnode(s, i).size);
pub axiom fn store_cells(s: Store, i: int) requires 0 <= i < nblk(s) ensures ({ let b = bnode(s, i); &&& forall|k: int| b.position <= k < b.position + b.size ==> tcode(#[trigger] sv(s)[k]) == b.type_
    &&& b.type_ != -1 ==> bdata(b.data).len() == b.size && forall|k: int| b.position <= k < b.position + b.size ==> (#[trigger] sv(s)[k]) == bdata(b.data)[k - b.position] });
pub proof fn store_blk(s: Store, i: int) requires 0 <= i < nblk(s) ensures sv(s).len() <= 0x7fff_ffff_ffff_ffff, bnode(s, i).index == i, bnode(s, i).size > 0, bnode(s, i).position + bnode(s, i).size <= sv(s).len(), i + 1 == nblk(s) ==> bnode(s, i).position + bnode(s, i).size == sv(s).len(), i + 1 < nblk(s) ==> bnode(s, i + 1).position == bnode(s, i).position + bnode(s, i).size && bnode(s, i + 1).index == i + 1 && bnode(s, i + 1).size > 0
{ store_shape(s); }
pub open spec fn emp(n: int) -> Seq<MC> { Seq::new(n as nat, |k: int| MC::Empty) }
pub open spec fn ovw(s: Seq<MC>, p: int, m: Seq<MC>) -> Seq<MC> { Seq::new(s.len(), |k: int| if p <= k < p + m.len() { m[k - p] } else { s[k] }) }
#[verifier::ext_equal] pub struct SetR { pub s: Store, pub it: SIt }
impl Clone for SetR { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Copy for SetR {}
pub open spec fn at_blk(s: Store, it: SIt, k: int) -> bool { is_it(s, it) && it.index < nblk(s) && it.position <= k < it.position + it.size }
pub axiom fn store_default() ensures sv(spec_default_Store()).len() == 0;
#[verifier::external_body] pub fn store_new(n: u64) -> (r: Store) ensures sv(r) == emp(n as int) { unimplemented!() }
#[verifier::external_body] pub fn store_fill(n: u64, Ghost(c): Ghost<MC>) -> (r: Store) ensures sv(r) == Seq::new(n as nat, |k: int| c) { unimplemented!() }
#[verifier::external_body] pub fn store_position(s: Store, k: u64) -> (r: Pair_SIt_u64) requires k < sv(s).len() ensures is_pos(s, r, k as int) { unimplemented!() }
#[verifier::external_body] pub fn store_position_h(s: Store, it: SIt, k: u64) -> (r: Pair_SIt_u64) requires k < sv(s).len(), is_it(s, it) ensures is_pos(s, r, k as int) { unimplemented!() }
#[verifier::external_body] pub fn store_set(s: Store, k: u64, Ghost(c): Ghost<MC>) -> (r: SetR) requires k < sv(s).len() ensures sv(r.s) == sv(s).update(k as int, c), at_blk(r.s, r.it, k as int) { unimplemented!() }
#[verifier::external_body] pub fn store_set_h(s: Store, it: SIt, k: u64, Ghost(c): Ghost<MC>) -> (r: SetR) requires k < sv(s).len(), is_it(s, it) ensures sv(r.s) == sv(s).update(k as int, c), at_blk(r.s, r.it, k as int) { unimplemented!() }
#[verifier::external_body] pub fn store_setr(s: Store, k: u64, a: eit, b: eit) -> (r: SetR) requires k + (b.i - a.i) <= sv(s).len(), k < sv(s).len(), a.data == b.data, a.i <= b.i <= bdata(a.data).len() ensures sv(r.s) == ovw(sv(s), k as int, bdata(a.data).subrange(a.i as int, b.i as int)), a.i < b.i ==> at_blk(r.s, r.it, k as int) { unimplemented!() }
#[verifier::external_body] pub fn store_setr_h(s: Store, it: SIt, k: u64, a: eit, b: eit) -> (r: SetR) requires k + (b.i - a.i) <= sv(s).len(), k < sv(s).len(), is_it(s, it), a.data == b.data, a.i <= b.i <= bdata(a.data).len() ensures sv(r.s) == ovw(sv(s), k as int, bdata(a.data).subrange(a.i as int, b.i as int)), a.i < b.i ==> at_blk(r.s, r.it, k as int) { unimplemented!() }
#[verifier::external_body] pub fn store_empty_range(s: Store, i: u64, j: u64) -> (r: SetR) requires i <= j < sv(s).len() ensures sv(r.s) == ovw(sv(s), i as int, emp(j - i + 1)), at_blk(r.s, r.it, i as int) { unimplemented!() }
#[verifier::external_body] pub fn store_empty_range_h(s: Store, it: SIt, i: u64, j: u64) -> (r: SetR) requires i <= j < sv(s).len(), is_it(s, it) ensures sv(r.s) == ovw(sv(s), i as int, emp(j - i + 1)), at_blk(r.s, r.it, i as int) { unimplemented!() }
#[verifier::external_body] pub fn store_get_type(s: Store, k: u64) -> (r: i32) requires k < sv(s).len() ensures r == tcode(sv(s)[k as int]) { unimplemented!() }
#[verifier::external_body] pub fn store_get_Dbl(s: Store, k: u64) -> (r: Dbl) requires k < sv(s).len(), tcode(sv(s)[k as int]) == 10 || tcode(sv(s)[k as int]) == -1 ensures sv(s)[k as int] == (if tcode(sv(s)[k as int]) == 10 { MC::Num(r) } else { MC::Empty }), tcode(sv(s)[k as int]) == -1 ==> r == dzero() { unimplemented!() }
#[verifier::external_body] pub fn store_get_bool(s: Store, k: u64) -> (r: bool) requires k < sv(s).len(), tcode(sv(s)[k as int]) == 0 ensures sv(s)[k as int] == MC::Bool(r) { unimplemented!() }
#[verifier::external_body] pub fn store_get_i32(s: Store, k: u64) -> (r: i32) requires k < sv(s).len(), tcode(sv(s)[k as int]) == 5 ensures sv(s)[k as int] == MC::Int(r) { unimplemented!() }
#[verifier::external_body] pub fn store_get_Str(s: Store, k: u64) -> (r: Str) requires k < sv(s).len(), tcode(sv(s)[k as int]) == 11 ensures sv(s)[k as int] == MC::Str(r) { unimplemented!() }
#[verifier::external_body] pub fn store_size(s: Store) -> (r: u64) ensures r == sv(s).len() { unimplemented!() }
#[verifier::external_body] pub fn store_empty(s: Store) -> (r: bool) ensures r == (sv(s).len() == 0) { unimplemented!() }
#[verifier::external_body] pub fn store_clear() -> (r: Store) ensures sv(r).len() == 0 { unimplemented!() }
#[verifier::external_body] pub fn store_eq(s: Store, t: Store) -> (r: bool) ensures r == (sv(s) =~= sv(t)) { unimplemented!() }
#[verifier::external_body] pub fn store_begin(s: Store) -> (r: SIt) ensures is_it(s, r), r.index == 0 { unimplemented!() }
#[verifier::external_body] pub fn store_end(s: Store) -> (r: SIt) ensures is_it(s, r), r.index == nblk(s) { unimplemented!() }
#[verifier::external_body] pub fn sit_next(Ghost(s): Ghost<Store>, it: SIt) -> (r: SIt) requires is_it(s, it), it.index < nblk(s) ensures is_it(s, r), r.index == it.index + 1 { unimplemented!() }
#[verifier::external_body] pub fn sit_same(a: SIt, b: SIt) -> (r: bool) ensures r == (a.index == b.index) { unimplemented!() }
// ---- element data of a block
#[verifier::external_body] pub fn eb_at_Dbl(p: Ptr, i: u64) -> (r: Dbl) requires i < bdata(p).len(), tcode(bdata(p)[i as int]) == 10 ensures bdata(p)[i as int] == MC::Num(r) { unimplemented!() }
#[verifier::external_body] pub fn eb_at_i32(p: Ptr, i: u64) -> (r: i32) requires i < bdata(p).len(), tcode(bdata(p)[i as int]) == 5 ensures bdata(p)[i as int] == MC::Int(r) { unimplemented!() }
#[verifier::external_body] pub fn eb_at_Str(p: Ptr, i: u64) -> (r: Str) requires i < bdata(p).len(), tcode(bdata(p)[i as int]) == 11 ensures bdata(p)[i as int] == MC::Str(r) { unimplemented!() }
#[verifier::external_body] pub fn eb_at_bool(p: Ptr, i: u64) -> (r: bool) requires i < bdata(p).len(), tcode(bdata(p)[i as int]) == 0 ensures bdata(p)[i as int] == MC::Bool(r) { unimplemented!() }
#[verifier::external_body] pub fn eb_begin(p: Ptr) -> (r: eit) ensures r.data == p, r.i == 0 { unimplemented!() }
#[verifier::external_body] pub fn eit_add(a: eit, n: i64) -> (r: eit) requires 0 <= a.i + n <= u64::MAX ensures r.data == a.data, r.i == a.i + n { unimplemented!() }
#[verifier::external_body] pub fn eit_diff(b: eit, a: eit) -> (r: i64) requires a.data == b.data, -0x8000_0000_0000_0000 <= b.i - a.i <= 0x7fff_ffff_ffff_ffff ensures r == b.i - a.i { unimplemented!() }
// ---- floating point is left uninterpreted
pub uninterp spec fn dzero() -> Dbl;
pub uninterp spec fn d_of_i(x: i32) -> Dbl;
pub uninterp spec fn d_of_b(x: bool) -> Dbl;
pub uninterp spec fn i_of_d(x: Dbl) -> i32;
pub uninterp spec fn b_of_d(x: Dbl) -> bool;
#[verifier::external_body] pub fn zero_Dbl() -> (r: Dbl) ensures r == dzero() { unimplemented!() }
#[verifier::external_body] pub fn cvt_i32_Dbl(x: i32) -> (r: Dbl) ensures r == d_of_i(x) { unimplemented!() }
#[verifier::external_body] pub fn cvt_bool_Dbl(x: bool) -> (r: Dbl) ensures r == d_of_b(x) { unimplemented!() }
#[verifier::external_body] pub fn cvt_Dbl_i32(x: Dbl) -> (r: i32) ensures r == i_of_d(x) { unimplemented!() }
#[verifier::external_body] pub fn cvt_Dbl_bool(x: Dbl) -> (r: bool) ensures r == b_of_d(x) { unimplemented!() }
// ---- the matrix: rows x columns cells, cell (r, c) in column order
pub open spec fn nrow(h: Heap, m: Ptr) -> int { h.mtm_m_size[m].row as int }
pub open spec fn ncol(h: Heap, m: Ptr) -> int { h.mtm_m_size[m].column as int }
pub open spec fn cells(h: Heap, m: Ptr) -> Seq<MC> { sv(h.mtm_m_store[m]) }
pub open spec fn wf(h: Heap, m: Ptr) -> bool { h.al_mtm.contains(m) && cells(h, m).len() == nrow(h, m) * ncol(h, m) && cells(h, m).len() <= 0x7fff_ffff_ffff_ffff }
pub open spec fn inb(h: Heap, m: Ptr, r: int, c: int) -> bool { 0 <= r < nrow(h, m) && 0 <= c < ncol(h, m) }
pub open spec fn cell(h: Heap, m: Ptr, r: int, c: int) -> MC { cells(h, m)[nrow(h, m) * c + r] }
pub open spec fn frm(h: Heap, g: Heap, m: Ptr) -> bool { forall|t: Ptr| #![trigger g.mtm_m_store[t]] #![trigger g.mtm_m_size[t]] #![trigger g.al_mtm.contains(t)] t != m && h.al_mtm.contains(t) ==> g.mtm_m_store[t] == h.mtm_m_store[t] && g.mtm_m_size[t] == h.mtm_m_size[t] && g.al_mtm.contains(t) }
pub open spec fn same_size(h: Heap, g: Heap, m: Ptr) -> bool { h.mtm_m_size[m] == g.mtm_m_size[m] }
// exactly the cells chosen by w have become v, all others are as before
pub open spec fn num_of(c: MC) -> Dbl { match c { MC::Num(d) => d, MC::Int(i) => d_of_i(i), MC::Bool(b) => d_of_b(b), _ => dzero() } }
pub proof fn lem_idx(R: int, C: int, r: int, c: int) requires 0 <= r < R, 0 <= c < C ensures 0 <= R * c, 0 <= R * c + r < R * C, R * c + R <= R * C, R * (c + 1) == R * c + R
{ assert(R * (c + 1) == R * c + R) by(nonlinear_arith); assert(R * (c + 1) <= R * C) by(nonlinear_arith) requires c + 1 <= C, R > 0; assert(0 <= R * c) by(nonlinear_arith) requires R > 0, c >= 0; }
pub proof fn lem_inj(R: int, r: int, c: int, p: int, q: int) requires 0 <= r < R, 0 <= p < R, 0 <= c, 0 <= q ensures (R * c + r == R * q + p) == (r == p && c == q), R * c + r < R * q ==> c < q, c < q ==> R * c + r < R * q
{ if c < q { assert(R * c + R <= R * q) by(nonlinear_arith) requires c + 1 <= q, R > 0; } if q < c { assert(R * q + R <= R * c) by(nonlinear_arith) requires q + 1 <= c, R > 0; } }
pub proof fn lem_div(R: int, C: int, k: int) requires 0 <= k < R * C, R >= 0, C >= 0 ensures R > 0, 0 <= k / R < C, 0 <= k - R * (k / R) < R, R * (k / R) >= 0
{ lem_zero(R, C); assert(R > 0); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, R); assert(0 <= k % R < R); assert(k / R >= 0) by(nonlinear_arith) requires k >= 0, R > 0; assert(k / R < C) by(nonlinear_arith) requires k < R * C, k == R * (k / R) + k % R, k % R >= 0, R > 0; assert(R * (k / R) >= 0) by(nonlinear_arith) requires k / R >= 0, R > 0; }
pub proof fn lem_zero(R: int, C: int) ensures R * C == 0 <==> (R == 0 || C == 0) { assert(R * C == 0 <==> (R == 0 || C == 0)) by(nonlinear_arith); }
// the cells after the array has been overwritten from index p with m
pub open spec fn ow(h: Heap, g: Heap, m: Ptr, p: int, v: Seq<MC>) -> bool { same_size(h, g, m) && cells(g, m) =~= ovw(cells(h, m), p, v) }
pub open spec fn put(h: Heap, g: Heap, m: Ptr, r: int, c: int, v: MC) -> bool { forall|p: int, q: int| inb(h, m, p, q) ==> (#[trigger] cell(g, m, p, q)) == if p == r && q == c { v } else { cell(h, m, p, q) } }
pub proof fn lem_put(h: Heap, g: Heap, m: Ptr, r: int, c: int, v: MC) requires wf(h, m), same_size(h, g, m), inb(h, m, r, c), cells(g, m) == cells(h, m).update(nrow(h, m) * c + r, v) ensures put(h, g, m, r, c, v)
{ assert forall|p: int, q: int| inb(h, m, p, q) implies (#[trigger] cell(g, m, p, q)) == if p == r && q == c { v } else { cell(h, m, p, q) } by { lem_idx(nrow(h, m), ncol(h, m), p, q); lem_idx(nrow(h, m), ncol(h, m), r, c); lem_inj(nrow(h, m), p, q, r, c); } }
"""
IDX='proof { lem_idx(nrow(h@, this), ncol(h@, this), row as int, col as int); }'
def LI(r,c): return 'proof { lem_idx(nrow(h@, this), ncol(h@, this), %s as int, %s as int); }'%(r,c)
INB='inb(H, this, row as int, col as int)'
PUT=lambda v,e=0: dict(requires=['wf(H, this)',INB],ensures=['wf(H, this)','same_size(H0, H, this)','frm(H0, H, this)','put(H0, H, this, row as int, col as int, %s)'%v],at={'entry':IDX,'exit':'proof { %slem_put(h0, h@, this, row as int, col as int, %s); }'%('assert(cells(h@, this) =~= cells(h0, this).update(nrow(h0, this) * col + row, MC::Empty)); ' if e else '',v)})
PUTH=lambda v: dict(requires=['wf(H, this)','okp(H.mtm_m_store[this], pos)'],ensures=['wf(H, this)','same_size(H0, H, this)','frm(H0, H, this)','cells(H, this) == cells(H0, this).update(pos.first.position + pos.second, %s)'%v,'is_pos(H.mtm_m_store[this], r, pos.first.position + pos.second)'],at={'entry':'proof { store_shape(h@.mtm_m_store[this]); }'})
GETP=lambda e: dict(requires=['wf(H, this)','okp(H.mtm_m_store[this], pos)'],ensures=[e%'cells(H, this)[pos.first.position + pos.second]'],at={'entry':'proof { store_shape(h@.mtm_m_store[this]); store_cells(h@.mtm_m_store[this], pos.first.index as int); let k = pos.first.position + pos.second; assert(cells(h@, this)[k] == sv(h@.mtm_m_store[this])[k]); }'})
GETC=lambda e: dict(requires=['wf(H, this)',INB],ensures=[e%'cell(H, this, row as int, col as int)'],at={'entry':IDX})
CONTRACTS={
 'mtm.ctor/0':dict(requires=['H.al_mtm.contains(this)'],ensures=['wf(H, this)','nrow(H, this) == 0 && ncol(H, this) == 0','frm(H0, H, this)'],at={'entry':'proof { store_default(); }'}),
 'mtm.ctor/2':dict(requires=['H.al_mtm.contains(this)','rows * cols <= 0x7fff_ffff_ffff_ffff'],ensures=['wf(H, this)','nrow(H, this) == rows && ncol(H, this) == cols','cells(H, this) == emp(rows * cols)','frm(H0, H, this)']),
 'mtm.ctor/3':dict(requires=['H.al_mtm.contains(this)','rows * cols <= 0x7fff_ffff_ffff_ffff'],ensures=['wf(H, this)','nrow(H, this) == rows && ncol(H, this) == cols','cells(H, this) == Seq::new((rows * cols) as nat, |k: int| MC::Num(value))','frm(H0, H, this)']),
 'mtm.ctor/1':dict(where=r'\(const ',requires=['H.al_mtm.contains(this)','wf(H, other)','this != other'],ensures=['wf(H, this)','H.mtm_m_size[this] == H0.mtm_m_size[other]','cells(H, this) == cells(H0, other)','frm(H0, H, this)']),
 'mtm.operator==':dict(requires=['wf(H, this)','wf(H, r)'],ensures=['RES == (H.mtm_m_size[this] == H.mtm_m_size[r] && cells(H, this) =~= cells(H, r))']),
 'mtm.position/2':dict(bind='mtm.position/2',where=r'\)$',requires=['wf(H, this)',INB],ensures=['is_pos(H.mtm_m_store[this], r, nrow(H, this) * col + row)'],at={'entry':IDX}),
 'mtm.position/2#c':dict(bind='mtm.position/2',where=r' const',requires=['wf(H, this)',INB],ensures=['is_pos(H.mtm_m_store[this], r, nrow(H, this) * col + row)'],at={'entry':IDX}),
 'mtm.position/3':dict(bind='mtm.position/3',where=r'\)$',requires=['wf(H, this)',INB,'is_it(H.mtm_m_store[this], pos_hint.first)'],ensures=['is_pos(H.mtm_m_store[this], r, nrow(H, this) * col + row)'],at={'entry':IDX}),
 'mtm.position/3#c':dict(bind='mtm.position/3',where=r' const$',requires=['wf(H, this)',INB,'is_it(H.mtm_m_store[this], pos_hint.first)'],ensures=['is_pos(H.mtm_m_store[this], r, nrow(H, this) * col + row)'],at={'entry':IDX}),
 'mtm.matrix_position':dict(requires=['wf(H, this)','okp(H.mtm_m_store[this], pos)'],ensures=['inb(H, this, r.row as int, r.column as int)','nrow(H, this) * r.column + r.row == pos.first.position + pos.second'],at={'entry':'proof { store_shape(h@.mtm_m_store[this]); lem_div(nrow(h@, this), ncol(h@, this), pos.first.position + pos.second); }'}),
 'mtm.get_type/1':GETP('r == tcode(%s)'),'mtm.get_type/2':GETC('r == tcode(%s)'),
 'mtm.get_numeric/1':GETP('r == num_of(%s)'),'mtm.get_numeric/2':GETC('r == num_of(%s)'),
 'mtm.get_integer/1':GETP('r == i_of_d(num_of(%s))'),'mtm.get_integer/2':GETC('r == i_of_d(num_of(%s))'),
 'mtm.get_boolean/1':GETP('r == b_of_d(num_of(%s))'),'mtm.get_boolean/2':GETC('r == b_of_d(num_of(%s))'),
 'mtm.get_string/1':dict(GETP('%s == MC::Str(r)'),throws='tcode(cells(h@, this)[pos.first.position + pos.second]) != 11',throw_unchanged='true'),'mtm.get_string/2':dict(GETC('%s == MC::Str(r)'),throws='tcode(cell(h@, this, row as int, col as int)) != 11',throw_unchanged='true'),
 'mtm.set_empty/2':PUT('MC::Empty',1),
 'mtm.set_empty/1':PUTH('MC::Empty'),
}
for t,v in(('double','MC::Num(val)'),('bool','MC::Bool(val)'),('integer_type','MC::Int(val)'),('const string_type &','MC::Str(str)')):
    CONTRACTS['mtm.set/3#'+t[:3]]=dict(PUT(v),bind='mtm.set/3',where=r', %s\)'%t); CONTRACTS['mtm.set/2#'+t[:3]]=dict(PUTH(v),bind='mtm.set/2',where=r', %s\)'%t)
CONTRACTS.update({
 'mtm.set_empty/3':dict(requires=['wf(H, this)',INB,'length > 0 ==> nrow(H, this) * col + row + length <= cells(H, this).len()'],throws='length == 0',throw_unchanged='h@ == h0',ensures=['wf(H, this)','frm(H0, H, this)','ow(H0, H, this, nrow(H0, this) * col + row, emp(length as int))'],at={'entry':IDX}),
 'mtm.set_column_empty':dict(requires=['wf(H, this)','0 < nrow(H, this)','col < ncol(H, this)'],ensures=['wf(H, this)','frm(H0, H, this)','same_size(H0, H, this)','forall|p: int, q: int| inb(H, this, p, q) ==> (#[trigger] cell(H, this, p, q)) == if q == col { MC::Empty } else { cell(H0, this, p, q) }'],
   at={'entry':LI('0','col')+' '+LI('nrow(h@, this) - 1','col'),'exit':"""proof { let (R, C) = (nrow(h0, this), ncol(h0, this)); assert forall|p: int, q: int| inb(h@, this, p, q) implies (#[trigger] cell(h@, this, p, q)) == if q == col { MC::Empty } else { cell(h0, this, p, q) } by { lem_idx(R, C, p, q); lem_idx(R, C, 0, col as int); lem_inj(R, p, q, 0, col as int); lem_inj(R, p, q, R - 1, col as int); if q != col { if q < col { } else { lem_inj(R, 0, col as int, p, q); assert(R * q >= R * (col + 1)) by(nonlinear_arith) requires q >= col + 1, R >= 0; assert(R * (col + 1) == R * col + R) by(nonlinear_arith); } } } }"""}),
 'mtm.set_row_empty':dict(requires=['wf(H, this)','row < nrow(H, this)'],ensures=['wf(H, this)','frm(H0, H, this)','same_size(H0, H, this)','forall|p: int, q: int| inb(H, this, p, q) ==> (#[trigger] cell(H, this, p, q)) == if p == row { MC::Empty } else { cell(H0, this, p, q) }'],
   loops=[dict(inv=['wf(H, this)','frm(H0, H, this)','same_size(H0, H, this)','row < nrow(H, this)','col <= ncol(H, this)','forall|p: int, q: int| inb(H, this, p, q) ==> (#[trigger] cell(H, this, p, q)) == if p == row && q < col { MC::Empty } else { cell(H0, this, p, q) }'],dec='ncol(H, this) - col',
     begin='let ghost hb = h@; '+'proof { if col < ncol(h@, this) { lem_idx(nrow(h@, this), ncol(h@, this), row as int, col as int); } }',end='proof { let hl = h@; assert(cells(hl, this) =~= cells(hb, this).update(nrow(hb, this) * (col - 1) + row, MC::Empty)); lem_put(hb, hl, this, row as int, col - 1, MC::Empty); assert(wf(hl, this)); }')]),
 'mtm.size':dict(requires=['wf(H, this)'],ensures=['r.row == nrow(H, this) && r.column == ncol(H, this)']),
 'mtm.clear':dict(requires=['wf(H, this)'],ensures=['wf(H, this)','frm(H0, H, this)','nrow(H, this) == 0 && ncol(H, this) == 0']),
 'mtm.empty':dict(requires=['wf(H, this)'],ensures=['r == (nrow(H, this) == 0 || ncol(H, this) == 0)'],at={'entry':'proof { lem_zero(nrow(h@, this), ncol(h@, this)); }'}),
 'mtm.swap':dict(requires=['wf(H, this)','wf(H, r)'],ensures=['wf(H, this)','wf(H, r)','H.mtm_m_size[this] == H0.mtm_m_size[r] && H.mtm_m_size[r] == H0.mtm_m_size[this]','cells(H, this) == cells(H0, r) && cells(H, r) == cells(H0, this)','forall|t: Ptr| #![trigger H.mtm_m_store[t]] #![trigger H.mtm_m_size[t]] t != this && t != r && H0.al_mtm.contains(t) ==> H.mtm_m_store[t] == H0.mtm_m_store[t] && H.mtm_m_size[t] == H0.mtm_m_size[t]','H.al_mtm == H0.al_mtm']),
 'mtm.numeric':dict(requires=['wf(H, this)'],ensures=['r == (cells(H, this).len() > 0 && forall|k: int| 0 <= k < cells(H, this).len() ==> tcode(#[trigger] cells(H, this)[k]) != -1 && tcode(cells(H, this)[k]) != 11)'],at={'entry':'proof { store_shape(h@.mtm_m_store[this]); }'},
   loops=[dict(inv=['is_it(H.mtm_m_store[this], i)','is_it(H.mtm_m_store[this], iend) && iend.index == nblk(H.mtm_m_store[this])','cells(H, this).len() > 0','wf(H, this)','i.index > 0 ==> forall|k: int| 0 <= k < bnode(H.mtm_m_store[this], i.index - 1).position + bnode(H.mtm_m_store[this], i.index - 1).size ==> tcode(#[trigger] cells(H, this)[k]) != -1 && tcode(cells(H, this)[k]) != 11'],dec='nblk(H.mtm_m_store[this]) - i.index',
     begin='let ghost i0 = i; proof { store_shape(h@.mtm_m_store[this]); if i.index < nblk(h@.mtm_m_store[this]) { store_cells(h@.mtm_m_store[this], i.index as int); let b = i0; assert(tcode(cells(h@, this)[b.position as int]) == b.type_); } }',after='proof { store_shape(h@.mtm_m_store[this]); }')]),
})

PRELUDE+=r"""
pub open spec fn lo(a: int, b: int) -> int { if a < b { a } else { b } }
// the cells of the top left corner common to both are those of src, all others are as before
pub open spec fn copied(h: Heap, g: Heap, m: Ptr, s: Ptr) -> bool { forall|p: int, q: int| inb(h, m, p, q) ==> (#[trigger] cell(g, m, p, q)) == if inb(h, s, p, q) { cell(h, s, p, q) } else { cell(h, m, p, q) } }
// how far copy() has come: columns before col, and the first done rows of col
#[verifier::opaque] pub open spec fn cpart(h: Heap, g: Heap, m: Ptr, s: Ptr, col: int, done: int) -> bool { forall|p: int, q: int| inb(h, m, p, q) ==> (#[trigger] cell(g, m, p, q)) == if inb(h, s, p, q) && (q < col || q == col && p < done) { cell(h, s, p, q) } else { cell(h, m, p, q) } }
pub proof fn lem_cpart(h: Heap, g: Heap, k: Heap, m: Ptr, s: Ptr, col: int, done: int, n: int, v: Seq<MC>)
    requires wf(h, m), wf(h, s), h.mtm_m_size[m] == g.mtm_m_size[m], k.mtm_m_size[m] == g.mtm_m_size[m], wf(g, m), cpart(h, g, m, s, col, done), 0 <= col < lo(ncol(h, m), ncol(h, s)), 0 <= done, done + n <= lo(nrow(h, m), nrow(h, s)), n == v.len(), n > 0,
        cells(k, m) == ovw(cells(g, m), nrow(h, m) * col + done, v), forall|i: int| 0 <= i < n ==> (#[trigger] v[i]) == cells(h, s)[nrow(h, s) * col + done + i]
    ensures cpart(h, k, m, s, col, done + n)
{
    reveal(cpart); let (R, C, S) = (nrow(h, m), ncol(h, m), nrow(h, s));
    assert forall|p: int, q: int| inb(h, m, p, q) implies (#[trigger] cell(k, m, p, q)) == if inb(h, s, p, q) && (q < col || q == col && p < done + n) { cell(h, s, p, q) } else { cell(h, m, p, q) } by {
        lem_idx(R, C, p, q); lem_idx(R, C, done, col); lem_inj(R, p, q, done, col); lem_inj(R, done + n - 1, col, p, q);
        assert(cell(g, m, p, q) == cells(g, m)[R * q + p]);
        if q == col && done <= p < done + n { assert(v[p - done] == cells(h, s)[S * col + p]); }
        else if q < col { assert(R * q + R <= R * col) by(nonlinear_arith) requires q + 1 <= col, R > 0; }
        else if q > col { assert(R * col + R <= R * q) by(nonlinear_arith) requires col + 1 <= q, R > 0; }
    }
}
pub proof fn lem_next(h: Heap, g: Heap, m: Ptr, s: Ptr, col: int) requires cpart(h, g, m, s, col, lo(nrow(h, m), nrow(h, s))) ensures cpart(h, g, m, s, col + 1, 0)
{ reveal(cpart); assert forall|p: int, q: int| inb(h, m, p, q) implies (#[trigger] cell(g, m, p, q)) == if inb(h, s, p, q) && (q < col + 1 || q == col + 1 && p < 0) { cell(h, s, p, q) } else { cell(h, m, p, q) } by {} }
pub proof fn lem_full(h: Heap, g: Heap, m: Ptr, s: Ptr, col: int, done: int)
    requires wf(h, m), wf(h, s), cpart(h, g, m, s, col, done), 0 <= col < lo(ncol(h, m), ncol(h, s)), 0 < done <= lo(nrow(h, m), nrow(h, s)), nrow(h, m) * col + done >= cells(h, m).len()
    ensures copied(h, g, m, s)
{
    reveal(cpart); let (R, C) = (nrow(h, m), ncol(h, m)); lem_idx(R, C, 0, col); lem_idx(R, C, R - 1, C - 1);
    assert(R * C == R * (C - 1) + R) by(nonlinear_arith);
    if col < C - 1 { assert(R * col + R <= R * (C - 1)) by(nonlinear_arith) requires col + 1 <= C - 1, R > 0; assert(false); }
    assert(done == R);
}
pub proof fn lem_end(h: Heap, g: Heap, m: Ptr, s: Ptr, col: int) requires cpart(h, g, m, s, col, 0), col >= lo(ncol(h, m), ncol(h, s)) ensures copied(h, g, m, s) { reveal(cpart); }
pub proof fn lem_start(h: Heap, m: Ptr, s: Ptr) requires wf(h, m) ensures cpart(h, h, m, s, 0, 0) { reveal(cpart); }
pub open spec fn tpart(h: Heap, g: Heap, m: Ptr, t: Ptr, i: int, j: int) -> bool { forall|p: int, q: int| inb(g, t, p, q) ==> (#[trigger] cell(g, t, p, q)) == if q < i || q == i && p < j { cell(h, m, q, p) } else { MC::Empty } }
pub proof fn lem_tput(h: Heap, g: Heap, k: Heap, m: Ptr, t: Ptr, i: int, j: int, v: MC) requires tpart(h, g, m, t, i, j), k.mtm_m_size[t] == g.mtm_m_size[t], inb(g, t, j, i), v == cell(h, m, i, j), put(g, k, t, j, i, v) ensures tpart(h, k, m, t, i, j + 1)
{ assert forall|p: int, q: int| inb(k, t, p, q) implies (#[trigger] cell(k, t, p, q)) == if q < i || q == i && p < j + 1 { cell(h, m, q, p) } else { MC::Empty } by { assert(cell(g, t, p, q) == cell(g, t, p, q)); } }
pub proof fn lem_tskip(h: Heap, g: Heap, m: Ptr, t: Ptr, i: int, j: int) requires tpart(h, g, m, t, i, j), inb(g, t, j, i), MC::Empty == cell(h, m, i, j) ensures tpart(h, g, m, t, i, j + 1)
{ assert forall|p: int, q: int| inb(g, t, p, q) implies (#[trigger] cell(g, t, p, q)) == if q < i || q == i && p < j + 1 { cell(h, m, q, p) } else { MC::Empty } by { } }
pub proof fn lem_trow(h: Heap, g: Heap, m: Ptr, t: Ptr, i: int) requires tpart(h, g, m, t, i, nrow(g, t)) ensures tpart(h, g, m, t, i + 1, 0)
{ assert forall|p: int, q: int| inb(g, t, p, q) implies (#[trigger] cell(g, t, p, q)) == if q < i + 1 || q == i + 1 && p < 0 { cell(h, m, q, p) } else { MC::Empty } by { } }
pub proof fn lem_tstart(h: Heap, g: Heap, m: Ptr, t: Ptr) requires wf(g, t), cells(g, t) == emp(nrow(g, t) * ncol(g, t)) ensures tpart(h, g, m, t, 0, 0)
{ assert forall|p: int, q: int| inb(g, t, p, q) implies (#[trigger] cell(g, t, p, q)) == MC::Empty by { lem_idx(nrow(g, t), ncol(g, t), p, q); } }
pub proof fn lem_tall(h: Heap, g: Heap, m: Ptr, t: Ptr) requires tpart(h, g, m, t, nrow(h, m), 0), ncol(g, t) == nrow(h, m) ensures forall|p: int, q: int| inb(g, t, p, q) ==> (#[trigger] cell(g, t, p, q)) == cell(h, m, q, p) { }
// copy from an array laid out column by column: columns before col have been written
#[verifier::opaque] pub open spec fn apart(h: Heap, g: Heap, m: Ptr, s: Seq<MC>, b: int, n: int, col: int) -> bool { forall|p: int, q: int| inb(h, m, p, q) ==> (#[trigger] cell(g, m, p, q)) == if p < n && q < col { s[b + n * q + p] } else { cell(h, m, p, q) } }
pub proof fn lem_astart(h: Heap, m: Ptr, s: Seq<MC>, b: int, n: int) ensures apart(h, h, m, s, b, n, 0) { reveal(apart); }
pub proof fn lem_arr(h: Heap, g: Heap, k: Heap, m: Ptr, s: Seq<MC>, b: int, n: int, col: int)
    requires wf(h, m), wf(g, m), h.mtm_m_size[m] == g.mtm_m_size[m], k.mtm_m_size[m] == g.mtm_m_size[m], apart(h, g, m, s, b, n, col), 0 <= col < ncol(h, m), 0 < n <= nrow(h, m), 0 <= b, b + n * col + n <= s.len(),
        cells(k, m) == ovw(cells(g, m), nrow(h, m) * col, s.subrange(b + n * col, b + n * col + n))
    ensures apart(h, k, m, s, b, n, col + 1)
{
    reveal(apart); let (R, C) = (nrow(h, m), ncol(h, m)); let v = s.subrange(b + n * col, b + n * col + n);
    assert forall|p: int, q: int| inb(h, m, p, q) implies (#[trigger] cell(k, m, p, q)) == if p < n && q < col + 1 { s[b + n * q + p] } else { cell(h, m, p, q) } by {
        lem_idx(R, C, p, q); lem_idx(R, C, 0, col); assert(cell(g, m, p, q) == cells(g, m)[R * q + p]);
        if q < col { assert(R * q + R <= R * col) by(nonlinear_arith) requires q + 1 <= col, R > 0; }
        else if q > col { assert(R * col + R <= R * q) by(nonlinear_arith) requires col + 1 <= q, R > 0; }
        else if p < n { assert(v[p] == s[b + n * col + p]); }
    }
}
pub proof fn lem_mono(n: int, a: int, b: int) requires 0 <= n, 0 <= a < b ensures n * a >= 0, n * a + n <= n * b, n * (a + 1) == n * a + n { assert(n * a >= 0 && n * a + n <= n * b && n * (a + 1) == n * a + n) by(nonlinear_arith) requires 0 <= n, 0 <= a, a + 1 <= b; }
pub open spec fn arr_copied(h: Heap, g: Heap, m: Ptr, s: Seq<MC>, b: int, n: int, c: int) -> bool { forall|p: int, q: int| inb(h, m, p, q) ==> (#[trigger] cell(g, m, p, q)) == if p < n && q < c { s[b + n * q + p] } else { cell(h, m, p, q) } }
pub proof fn lem_aend(h: Heap, g: Heap, m: Ptr, s: Seq<MC>, b: int, n: int, c: int) requires apart(h, g, m, s, b, n, c) ensures arr_copied(h, g, m, s, b, n, c) { reveal(apart); }
// after resize: the common corner as before, the rest of the value given
pub open spec fn resized(h: Heap, g: Heap, m: Ptr, v: MC) -> bool { forall|p: int, q: int| inb(g, m, p, q) ==> (#[trigger] cell(g, m, p, q)) == if inb(h, m, p, q) { cell(h, m, p, q) } else { v } }
pub proof fn lem_rs(h: Heap, h1: Heap, h2: Heap, g: Heap, m: Ptr, t: Ptr, v: MC)
    requires wf(h1, t), cells(h1, t) == Seq::new((nrow(h1, t) * ncol(h1, t)) as nat, |k: int| v), h1.mtm_m_size[m] == h.mtm_m_size[m], h1.mtm_m_store[m] == h.mtm_m_store[m], copied(h1, h2, t, m), h2.mtm_m_size[t] == h1.mtm_m_size[t], g.mtm_m_size[m] == h2.mtm_m_size[t], cells(g, m) == cells(h2, t)
    ensures resized(h, g, m, v)
{ assert forall|p: int, q: int| inb(g, m, p, q) implies (#[trigger] cell(g, m, p, q)) == if inb(h, m, p, q) { cell(h, m, p, q) } else { v } by { lem_idx(nrow(h1, t), ncol(h1, t), p, q); assert(cell(h2, t, p, q) == cell(g, m, p, q)); assert(cell(h1, t, p, q) == v); } }
"""
RSENS=lambda v: ['wf(H, this)','frm(H0, H, this)','rows == 0 || cols == 0 ==> nrow(H, this) == 0 && ncol(H, this) == 0','rows != 0 && cols != 0 ==> nrow(H, this) == rows && ncol(H, this) == cols && resized(H0, H, this, %s)'%v]
SW=['before_store:x']
CONTRACTS.update({
 'mtm.copy/1':dict(rlimit=300,
   at={'decl:rows':'proof { lem_zero(nrow(h@, this), ncol(h@, this)); lem_zero(nrow(h@, src), ncol(h@, src)); }','decl:logical_pos_next':'''proof { assert(cpart(h0, h@, this, src, col as int, done + section_size)); assert(at_blk(h@.mtm_m_store[this], blk_pos, logical_pos_dest as int)); lem_idx(nrow(h@, this), ncol(h@, this), 0, col as int); if logical_pos_next >= cells(h@, this).len() { lem_full(h0, h@, this, src, col as int, done + section_size); } }''',
   'decl:src_node':'proof { lem_start(h0, this, src); }',**{'after_store:mtm.m_store:%d'%k: 'proof { let v = %s; lem_cpart(h0, hs, h@, this, src, col as int, done, section_size as int, v); }'%('bdata(pos_src.first.data).subrange(pos_src.second as int, pos_src.second + section_size)' if k<5 else 'emp(section_size as int)') for k in(1,2,3,4,5)},'decl:section_size':'let ghost ps = pos_src; let ghost hs = h@; let ghost done = (rows - remaining_rows) as int; proof { store_blk(h@.mtm_m_store[src], pos_src.first.index as int); store_blk(h@.mtm_m_store[this], pos_dest.first.index as int); store_cells(h@.mtm_m_store[src], pos_src.first.index as int); lem_idx(nrow(h@, this), ncol(h@, this), done, col as int); lem_idx(nrow(h@, src), ncol(h@, src), done, col as int); lem_idx(nrow(h@, this), ncol(h@, this), done + section_size - 1, col as int); let ks = nrow(h@, src) * col + done; assert(pos_src.first.position + pos_src.second == ks); let ty = pos_src.first.type_; assert(tcode(sv(h@.mtm_m_store[src])[ks]) == ty); assert(ty == -1 || ty == 0 || ty == 5 || ty == 10 || ty == 11); assert(0 < section_size <= remaining_rows); assert(ty != -1 ==> bdata(pos_src.first.data).len() == pos_src.first.size); assert(forall|i: int| 0 <= i < section_size ==> #[trigger] cells(h0, src)[ks + i] == (if ty == -1 { MC::Empty } else { bdata(pos_src.first.data)[pos_src.second + i] })); }'},
   loops=[dict(inv=['wf(H, this)','wf(H, src)','same_size(H0, H, this)','frm(H0, H, this)','this != src','H.mtm_m_store[src] == H0.mtm_m_store[src]','H.mtm_m_size[src] == H0.mtm_m_size[src]','rows == lo(nrow(H, this), nrow(H, src)) && cols == lo(ncol(H, this), ncol(H, src))','0 < rows && 0 < cols','col <= cols','is_it(H.mtm_m_store[this], pos_dest.first)','is_it(H.mtm_m_store[src], pos_src.first)','cpart(H0, H, this, src, col as int, 0)'],dec='cols - col',
      end='proof { lem_next(h0, h@, this, src, col - 1); }',after='proof { lem_end(h0, h@, this, src, col as int); }'),
     dict(inv=['wf(H, this)','wf(H, src)','same_size(H0, H, this)','frm(H0, H, this)','this != src','H.mtm_m_store[src] == H0.mtm_m_store[src]','H.mtm_m_size[src] == H0.mtm_m_size[src]','rows == lo(nrow(H, this), nrow(H, src)) && cols == lo(ncol(H, this), ncol(H, src))','0 < rows && 0 < cols','col < cols','remaining_rows <= rows','cpart(H0, H, this, src, col as int, rows - remaining_rows)','is_it(H.mtm_m_store[this], pos_dest.first)','is_it(H.mtm_m_store[src], pos_src.first)'],
      xb=['0 < remaining_rows','is_pos(H.mtm_m_store[this], pos_dest, nrow(H, this) * col + (rows - remaining_rows))','is_pos(H.mtm_m_store[src], pos_src, nrow(H, src) * col + (rows - remaining_rows))'],dec='remaining_rows')],requires=['wf(H, this)','wf(H, src)'],ensures=['wf(H, this)','same_size(H0, H, this)','frm(H0, H, this)','copied(H0, H, this, src)']),
 'mtm.transpose':dict(rlimit=60,requires=['wf(H, this)'],at={'entry':'proof { assert(ncol(h@, this) * nrow(h@, this) == nrow(h@, this) * ncol(h@, this)) by(nonlinear_arith); }','before_call:mtm.swap':'let ghost hs = h@; proof { lem_tall(h0, h@, this, tmp); }','exit':'proof { assert forall|p: int, q: int| inb(h@, this, p, q) implies (#[trigger] cell(h@, this, p, q)) == cell(h0, this, q, p) by { assert(cell(hs, tmp, p, q) == cell(h@, this, p, q)); } }','decl:tmp':'proof { assert(cells(h@, tmp) == emp(nrow(h@, tmp) * ncol(h@, tmp))); lem_tstart(h0, h@, this, tmp); }'},
   loops=[dict(inv=['wf(H, this)','frm(H0, H, this)','same_size(H0, H, this)','H.mtm_m_store[this] == H0.mtm_m_store[this]','wf(H, tmp) && tmp != this && !H0.al_mtm.contains(tmp)','nrow(H, tmp) == ncol(H, this) && ncol(H, tmp) == nrow(H, this)','0 <= old_row_new_col <= nrow(H, this)','tpart(H0, H, this, tmp, old_row_new_col as int, 0)'],dec='nrow(H, this) - old_row_new_col',end='proof { lem_trow(h0, h@, this, tmp, old_row_new_col - 1); }'),
     dict(inv=['wf(H, this)','frm(H0, H, this)','same_size(H0, H, this)','H.mtm_m_store[this] == H0.mtm_m_store[this]','wf(H, tmp) && tmp != this && !H0.al_mtm.contains(tmp)','nrow(H, tmp) == ncol(H, this) && ncol(H, tmp) == nrow(H, this)','old_row_new_col < nrow(H, this)','old_col_new_row <= ncol(H, this)','tpart(H0, H, this, tmp, old_row_new_col as int, old_col_new_row as int)'],dec='ncol(H, this) - old_col_new_row',
       begin='let ghost hb = h@; proof { if old_col_new_row < ncol(h@, this) { lem_idx(nrow(h@, this), ncol(h@, this), old_row_new_col as int, old_col_new_row as int); } }',
       end='proof { let (i, j) = (old_row_new_col as int, old_col_new_row - 1); let v = cell(h0, this, i, j); if v == MC::Empty { lem_tskip(h0, h@, this, tmp, i, j); } else { lem_tput(h0, hb, h@, this, tmp, i, j, v); } }')],ensures=['wf(H, this)','frm(H0, H, this)','nrow(H, this) == ncol(H0, this) && ncol(H, this) == nrow(H0, this)','forall|p: int, q: int| inb(H, this, p, q) ==> (#[trigger] cell(H, this, p, q)) == cell(H0, this, q, p)']),
 'mtm.resize/2':dict(at={'decl:temp':'let ghost h1 = h@; proof { lem_zero(rows as int, cols as int); }','before_call:mtm.swap':'let ghost h2 = h@;','after_call:mtm.swap':'proof { lem_rs(h0, h1, h2, h@, this, temp, MC::Empty); }'},requires=['wf(H, this)','rows * cols <= 0x7fff_ffff_ffff_ffff'],ensures=RSENS('MC::Empty')),
 'mtm.resize/3':dict(at={'decl:temp':'let ghost h1 = h@; proof { lem_zero(rows as int, cols as int); }','before_call:mtm.swap':'let ghost h2 = h@;','after_call:mtm.swap':'proof { lem_rs(h0, h1, h2, h@, this, temp, MC::Num(value)); }'},requires=['wf(H, this)','rows * cols <= 0x7fff_ffff_ffff_ffff'],ensures=RSENS('MC::Num(value)')),
 'mtm.set/4':dict(requires=['wf(H, this)','inb(H, this, row as int, col as int)','nrow(H, this) * col + row + (it_end.i - it_begin.i) <= nrow(H, this) * ncol(H, this)','it_begin.data == it_end.data','it_begin.i <= it_end.i <= bdata(it_begin.data).len()','bdata(it_begin.data).len() <= 0x7fff_ffff_ffff_ffff'],at={'entry':LI('row','col')},ensures=['wf(H, this)','frm(H0, H, this)','same_size(H0, H, this)','cells(H, this) =~= ovw(cells(H0, this), nrow(H, this) * col + row, bdata(it_begin.data).subrange(it_begin.i as int, it_end.i as int))']),
 'mtm.set/3#rng':dict(bind='mtm.set/3',where=r'__normal_iterator',requires=['wf(H, this)','okp(H.mtm_m_store[this], pos)','it_begin.i < it_end.i','pos.first.position + pos.second + (it_end.i - it_begin.i) <= nrow(H, this) * ncol(H, this)','it_begin.data == it_end.data','it_begin.i <= it_end.i <= bdata(it_begin.data).len()','bdata(it_begin.data).len() <= 0x7fff_ffff_ffff_ffff'],at={'entry':'proof { store_shape(h@.mtm_m_store[this]); }'},ensures=['wf(H, this)','frm(H0, H, this)','same_size(H0, H, this)','cells(H, this) =~= ovw(cells(H0, this), pos.first.position + pos.second, bdata(it_begin.data).subrange(it_begin.i as int, it_end.i as int))','is_pos(H.mtm_m_store[this], r, pos.first.position + pos.second)']),
 'mtm.copy/4':dict(rlimit=80,requires=['wf(H, this)','rows * cols <= 0x7fff_ffff_ffff_ffff','forall|k: int| 0 <= k < bdata(it_begin.data).len() ==> tcode(#[trigger] bdata(it_begin.data)[k]) == 10','it_begin.data == it_end.data','it_begin.i <= it_end.i <= bdata(it_begin.data).len()','bdata(it_begin.data).len() <= 0x7fff_ffff_ffff_ffff'],
   throws='it_begin.i < it_end.i && cells(H, this).len() > 0 && (it_end.i - it_begin.i != rows * cols || rows > nrow(H, this) || cols > ncol(H, this))',
   at={'entry':'proof { lem_zero(nrow(h@, this), ncol(h@, this)); store_shape(h@.mtm_m_store[this]); lem_zero(rows as int, cols as int); }','decl:pos_dest':'proof { lem_astart(h0, this, bdata(it_begin.data), it_begin.i as int, rows as int); }','before_store:mtm.m_store':'let ghost hs = h@;','after_store:mtm.m_store':'proof { lem_arr(h0, hs, h@, this, bdata(it_begin.data), it_begin.i as int, rows as int, col as int); }'},
   loops=[dict(inv=['wf(H, this)','same_size(H0, H, this)','frm(H0, H, this)','it_begin.data == it_end.data','it_begin.i <= it_end.i <= bdata(it_begin.data).len()','bdata(it_begin.data).len() <= 0x7fff_ffff_ffff_ffff','it_begin.i < it_end.i','it_end.i - it_begin.i == rows * cols','0 < rows <= nrow(H, this)','0 < cols <= ncol(H, this)','col <= cols','it.data == it_begin.data','it.i == it_begin.i + rows * col','is_it(H.mtm_m_store[this], pos_dest.first)','apart(H0, H, this, bdata(it_begin.data), it_begin.i as int, rows as int, col as int)'],dec='cols - col',
     begin='proof { if col < cols { lem_mono(rows as int, col as int, cols as int); lem_mono(nrow(h@, this), col as int, ncol(h@, this)); } }',after='proof { lem_aend(h0, h@, this, bdata(it_begin.data), it_begin.i as int, rows as int, cols as int); }')],
   ensures=['wf(H, this)','frm(H0, H, this)','same_size(H0, H, this)','it_begin.i == it_end.i || cells(H0, this).len() == 0 ==> H == H0','it_begin.i < it_end.i && cells(H0, this).len() > 0 ==> arr_copied(H0, H, this, bdata(it_begin.data), it_begin.i as int, rows as int, cols as int)']),
 'mtm.set_column':dict(requires=['wf(H, this)','0 < nrow(H, this)','col < ncol(H, this)','it_begin.data == it_end.data','it_begin.i <= it_end.i <= bdata(it_begin.data).len()','bdata(it_begin.data).len() <= 0x7fff_ffff_ffff_ffff'],
   ensures=['wf(H, this)','frm(H0, H, this)','same_size(H0, H, this)','forall|p: int, q: int| inb(H, this, p, q) ==> (#[trigger] cell(H, this, p, q)) == if q == col && p < it_end.i - it_begin.i { bdata(it_begin.data)[it_begin.i + p] } else { cell(H0, this, p, q) }'],at={'entry':LI('0','col'),'exit':'''proof { let (R, C) = (nrow(h0, this), ncol(h0, this)); let n = lo(R, it_end.i - it_begin.i); assert(cells(h@, this) =~= ovw(cells(h0, this), R * col, bdata(it_begin.data).subrange(it_begin.i as int, it_begin.i + n)));
     assert forall|p: int, q: int| inb(h@, this, p, q) implies (#[trigger] cell(h@, this, p, q)) == if q == col && p < it_end.i - it_begin.i { bdata(it_begin.data)[it_begin.i + p] } else { cell(h0, this, p, q) } by { lem_idx(R, C, p, q); lem_idx(R, C, 0, col as int); lem_inj(R, p, q, 0, col as int); if q < col { assert(R * q + R <= R * col) by(nonlinear_arith) requires q + 1 <= col, R > 0; } else if q > col { assert(R * col + R <= R * q) by(nonlinear_arith) requires col + 1 <= q, R > 0; } } }'''}),
})
def intercept(tr,e,f,name,args,obj):
    from cxx2verus import Unsupported,qt,LV,rust,kids
    def num(a): return tr.let(tr.icast(tr.ev(a),U)[0],U)
    if obj is None and name=='operator->' and len(args)==1:
        try: l=tr.lv(args[0])
        except Unsupported: return None
        if l.ty==SIT: return (tr.load(l),SIT)
        return None
    if obj is None and name=='operator=' and len(args)==2:
        try: l=tr.lv(args[0])
        except Unsupported: return None
        if l.ty==SIT: tr.store(l,tr.let(tr.ev(args[1])[0],SIT)); return l
        return None
    if obj is None and name in('operator==','operator!=','operator++','operator*') and args:
        try: l=tr.lv(args[0])
        except Unsupported: return None
        if l.ty==SIT:
            if name=='operator++': 
                s=getattr(tr,'cur_store',None); n=tr.let('sit_next(Ghost(%s), %s)'%(tr.mod.STORE_OF.get(tr.key,'h@.mtm_m_store[this]'),tr.load(l)),SIT); tr.store(l,n); return l
            if name=='operator*': return (tr.load(l),SIT)
            r=tr.lv(args[1]); return (tr.let('%ssit_same(%s, %s)'%('!' if name[-2]=='!' else '',tr.load(l),tr.load(r)),('b',)),('b',))
        if l.ty==EIT and name=='operator*':
            t=tr.T(qt(e)) if 'bool' not in qt(e) and 'Bit' not in qt(args[0]) and qt(args[0]).find('vector<bool')<0 else ('b',)
            v=tr.load(l); return (tr.let('eb_at_%s(%s.data, %s.i)'%(rust(t),v,v),t),t)
        if l.ty==('v','Store') and name in('operator==','operator!='):
            r=tr.lv(args[1]); return (tr.let('%sstore_eq(%s, %s)'%('!' if name[-2]=='!' else '',tr.load(l),tr.load(r)),('b',)),('b',))
        return None
    if obj is None and name=='advance' and len(args)==2:
        l=tr.lv(args[0])
        if l.ty!=EIT: return None
        n=tr.let(tr.icast(tr.ev(args[1]),('i','i64'))[0],('i','i64'))
        tr.store(l,tr.let('eit_add(%s, %s)'%(tr.load(l),n),EIT)); return ('()',('void',))
    if obj is None and name=='distance' and len(args)==2:
        a=tr.ev(args[0])
        if a[1]!=EIT: return None
        b=tr.ev(args[1]); return (tr.let('eit_diff(%s, %s)'%(b[0],a[0]),('i','i64')),('i','i64'))
    if obj is None and name=='at' and len(args)==2:
        b=tr.let(tr.load(tr.lv(args[0])),('p','eb')); i=num(args[1]); t=tr.T(qt(e)); return (tr.let('eb_at_%s(%s, %s)'%(rust(t),b,i),t),t)
    if obj is None and name=='begin' and len(args)==1:
        l=tr.lv(args[0])
        if l.ty==('p','eb'): return (tr.let('eb_begin(%s)'%tr.load(l),EIT),EIT)
    if obj is None: return None
    if name not in('position','set','set_empty','get_type','get','size','empty','clear','begin','end','swap'): return None
    cal=tr.skip(kids(e)[0])
    if cal.get('isArrow'): return None
    try: l=tr.lv(obj)
    except Unsupported: return None
    if l.ty!=('v','Store'): return None
    def cellof(a):
        v=tr.ev(a); v=(tr.let(v[0],v[1]),v[1]); c={('v','Dbl'):'Num',('b',):'Bool',('i','i32'):'Int',('v','Str'):'Str'}.get(v[1])
        if c is None: raise Unsupported('cell of %r'%(v[1],))
        return 'Ghost(MC::%s(%s))'%(c,v[0])
    def run(fn,a):
        t=('r','SetR'); r=tr.let('%s(%s)'%(fn,', '.join([tr.load(l)]+a)),t); tr.store(l,r+'.s'); return (tr.let(r+'.it',SIT),SIT)
    if name=='swap': tr.swap(l,tr.lv(args[0])); return ('()',('void',))
    if name=='clear': tr.store(l,tr.let('store_clear()',l.ty)); return ('()',('void',))
    if name in('size','empty','begin','end'):
        t={'size':U,'empty':('b',)}.get(name,SIT); return (tr.let('store_%s(%s)'%(name,tr.load(l)),t),t)
    if name=='get_type': i=num(args[0]); return (tr.let('store_get_type(%s, %s)'%(tr.load(l),i),('i','i32')),('i','i32'))
    if name=='get' and len(args)==2:
        i=num(args[0]); d=tr.lv(args[1]); tr.store(d,tr.let('store_get_%s(%s, %s)'%(rust(d.ty),tr.load(l),i),d.ty)); return ('()',('void',))
    if name=='position':
        if len(args)==1: i=num(args[0]); return (tr.let('store_position(%s, %s)'%(tr.load(l),i),POS),POS)
        h=tr.let(tr.load(tr.lv(args[0])),SIT); i=num(args[1]); return (tr.let('store_position_h(%s, %s, %s)'%(tr.load(l),h,i),POS),POS)
    hint=[]
    a0=tr.ev(args[0])
    if a0[1]==SIT: hint=[tr.let(a0[0],SIT)]; args=args[1:]; k=num(args[0])
    else: k=tr.let(tr.icast(a0,U)[0],U)
    sfx='_h' if hint else ''
    if name=='set_empty': j=num(args[1]); return run('store_empty_range'+sfx,hint+[k,j])
    if len(args)==3:
        a=tr.ev(args[1]); a=(tr.let(a[0],a[1]),a[1]); b=tr.ev(args[2])
        if a[1]!=EIT or b[1]!=EIT: raise Unsupported('range of %r'%(a[1],))
        return run('store_setr'+sfx,hint+[k,a[0],b[0]])
    return run('store_set'+sfx,hint+[k,cellof(args[1])])
STORE_OF={'mtm.copy/1':'h@.mtm_m_store[src]'}
def construct(tr,t,k,ct):
    from cxx2verus import Unsupported
    if t in(POS,SIT) and len(k)==1: return (tr.let(tr.ev(k[0])[0],t),t)
    if t==('v','Store'):
        if len(k)==0: return (tr.let('store_clear()',t),t)
        if len(k)==1 and tr.T(__import__('cxx2verus').qt(k[0]))==t: return None
        n=tr.let(tr.icast(tr.ev(k[0]),U)[0],U)
        if len(k)==1: return (tr.let('store_new(%s)'%n,t),t)
        if len(k)==2: v=tr.ev(k[1]); return (tr.let('store_fill(%s, Ghost(MC::Num(%s)))'%(n,v[0]),t),t)
        raise Unsupported('vector constructor')
    return None
