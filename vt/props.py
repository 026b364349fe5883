"""What each check proves and runs: property -> functions under contract (per contract module) and bounded cases."""
TECH='contract-based deductive verification: contracts on functions extracted from the C++ AST, discharged by Verus/Z3; bounded concrete stage for the rest and for replay'
MTV=['mtv_s1','mtv_s2','mtv_s3','mtv_s4','mtv_a1','mtv_a2']
PROPS={
'P01':dict(level='proof',
  proof=[('fst',['fst.insert_front','fst.insert_back','fst.insert/4'])],
  harness=[('fst',['insert','shape'])],
  note='Every insertion entry point and every function it calls carries a contract giving the exact resulting key-to-value map, the flag and the returned position; all obligations discharged for any tree and any arguments (int64 keys, opaque values). Trusts the C++-to-Verus translation and the memory model listed in DESIGN.md.'),
'P02':dict(level='proof',
  proof=[('fst',['fst.insert_front','fst.insert_back','fst.insert/4','fst.shift_right','fst.clear','fst.ctor/1','fst.ctor/1#m','fst.operator=#c','fst.operator=#m','fst.swap'])],
  harness=[('fst',['shape','shift','copy'])],
  note='The representation invariant (linked both ways, strictly increasing keys, fixed span, no two equal neighbours, right-most value default, non-leaf tree consistent when marked valid) is proved to be preserved by the functions under contract; iteration and the remaining operations are covered by the bounded stage.'),
'P04':dict(level='proof',
  proof=[('fst',['fst.search/1','fst.search/2','fst.search/4','fst.search/5','fst.search_tree/1','fst.search_tree/4'])],
  harness=[('fst',['search'])],
  note='All six search entry points are proved against the stored segments for any key and any hint (a hint being an iterator of this tree, of another tree or none). The tree search is proved under the invariant that a tree marked valid matches the leaves; tree building itself is in the bounded stage.'),
'P03':dict(level='exploration',
  proof=[('fst',['fst.shift_right','fst.shift_leaf_key_right','fst.is_in_bound_after_shift'])],
  harness=[('fst',['shift'])],
  note='shift_right is proved for any tree, position, size and skip flag: the exact resulting map, the fixed span, the canonical form and the absence of key overflow. shift_left is decided by the bounded runs only; it is not counted as proved.'),
 'P05':dict(level='proof',
  proof=[('fst',['fst.ctor/1','fst.ctor/1#m','fst.operator=#c','fst.operator=#m','fst.swap','fst.operator==','fst.clear','fst.dtor'])],
  harness=[('fst',['copy'])],
  note='Copy construction, move construction, copy and move assignment (self copy-assignment and moved-from targets included), swap, equality, clear and the destructor are proved for any trees over the map the tree represents, with the representation invariant (so later calls behave as proved) and with the source of a copy unchanged. The instantiation proved is key long with an uninterpreted value type. Assumed: trees share no leaf nodes (apart), reference counting frees nodes only when unreferenced. The bounded runs cover other key and value types, destruction order and use after a move.'),
'P06':dict(level='proof',
  proof=[('seg',['seg.search','seg.build_tree','seg.insert','descend_tree_for_search','seg.descend_tree_and_mark','tb.build','seg.build_leaf_nodes'])],
  harness=[('segtree',['search'])],
  note='Building the tree and searching it are proved for any store of intervals and any point: after build_tree the list of chains a search returns contains each stored entry whose interval contains the point exactly once and nothing else; insert and build_tree are proved with every function they call (leaf list, pool count, level building, marking). The result iterators, erase and the user-side visitor are in the bounded stage; std::sort, std::unique, the vector and map of the standard library are models.'),
'P07':dict(level='proof',
  proof=[('seg',['seg.insert','seg.swap','seg.clear','seg.size','seg.empty','seg.ctor/0','seg.ctor/1#c','seg.ctor/1#m','seg.operator=#c','seg.operator=#m','seg.dtor','seg.build_tree','seg.remove_data_from_chain'])],
  harness=[('segtree',['book','copy'])],
  note='insert, size, empty, clear, swap, copies, moves, the destructor and the removal of deleted entries before a rebuild are proved for any trees against the stored list of intervals. erase by value and by predicate, equality and boundary keys are compared with a reference by the bounded stage only (erase edits chains through pointers the extraction does not model).'),
'P10':dict(level='proof',
  proof=[('ssmap',['ssm.ctor/2','ssm.find/1','ssm.find_key','ssm.size'])],
  harness=[('ssmap',['lookup'])],
  note='Construction, forward lookup, reverse lookup with the linear finder and size are proved for any entry list (sorted, for the forward lookup; repeated keys and values allowed), keys and values opaque with a total order and equality. std::lower_bound and std::find_if are library models; the hash-based reverse lookup (std::unordered_map) is in the bounded stage.'),
 'P08':dict(level='proof',
  proof=[('pqt',['qt.insert','qt.find','qt.find_node','qt.search_region/5','qt.size','qt.empty'])],
  harness=[('pqt',['insert'])],
  note='insert, find, size, empty and the rectangle search into a container are proved for any tree and any arguments against the map from points to data that the tree represents (the four quadrants partition it, every point once). Data opaque, keys 64-bit integers. The search that returns an iterator range (shared_ptr results) and its iteration are only compared with a reference by the bounded stage.'),
 'P09':dict(level='proof',
  proof=[('pqt',['qt.operator==','qt.operator=','qt.ctor/1','qt.swap','qt.clear','qt.insert_data_from'])],
  harness=[('pqt',['remove','copy'])],
  note='Copy construction, copy assignment (aliasing included), swap, clear and equality are proved for any trees over the map the tree represents; std::sort is assumed to return a sorted rearrangement. remove and its reinsertion, moves and node_access are only compared with a reference by the bounded stage.'),
 'P17':dict(level='proof',
  proof=[('mtv',['mtv.set/2','mtv.push_back/1','mtv.push_back_empty','mtv.get_impl','mtv.get_type','mtv.is_empty','mtv.size'])],
  harness=[(c,['write']) for c in MTV],
  note='Setting one value and pushing back are proved, with every function they call, to give exactly the plain array result (structure-of-arrays layout, one opaque user type, no copy-on-write sharing). Range set and insert, position hints, the array-of-structures layout and mixed types are in the bounded stage.'),
 'P18':dict(level='proof',
  proof=[('mtv',['mtv.set_empty/2','mtv.insert_empty/2','mtv.erase/2','mtv.resize','mtv.push_back_empty','mtv.clear','mtv.size','mtv.empty'])],
  harness=[(c,['edit']) for c in MTV],
  note='set_empty, insert_empty, erase, resize, push_back_empty, clear and size are proved, with every function they call, against the logical array for any block structure (structure-of-arrays layout, one opaque user type, no copy-on-write sharing). Hint overloads and the array-of-structures layout are in the bounded stage.'),
 'P20':dict(level='proof',
  proof=[('mtv',['mtv.set/2','mtv.push_back/1','mtv.set_empty/2','mtv.insert_empty/2','mtv.erase/2','mtv.resize','mtv.clear','mtv.block_size'])],
  harness=[(c,['shape']) for c in MTV],
  note='The block invariant (gap-free cover, no empty block, no two equal neighbours, positions and sizes agreeing with the element data) is proved to be kept by these operations and their returned iterators to point at the stated block; position(), iteration, range operations, transfer, swap and the array-of-structures layout are in the bounded stage.'),
 'P21':dict(level='proof',
  proof=[('mtv',['mtv.set/2','mtv.push_back/1','mtv.set_empty/2','mtv.insert_empty/2','mtv.erase/2','mtv.resize','mtv.clear','mtv.dtor','mtv.ctor/1','mtv.ctor/3','mtv.operator=#c','mtv.swap/1'])],
  harness=[(c,['own']) for c in MTV],
  note='The ownership invariant (every element block belongs to one slot of one vector, and the event handler has been told of exactly the blocks held) is proved to be kept by these operations. Deletion of managed values, release, transfer and swap are in the bounded stage (live-object counters, AddressSanitizer, leak check).'),
 'P19':dict(level='exploration',
  proof=[('mtv',['mtv.swap/1','bst.swap/1'])],
  harness=[(c,['move']) for c in MTV],
  note='The exchange of two whole vectors is proved for any two vectors (contents, block structure, element ownership and event handler change places and nothing else does). The range forms of transfer and swap are decided by the bounded runs only, against plain arrays, with every alignment of the range to block boundaries at small sizes; they are not counted as proved.'),
'P22':dict(level='proof',
  proof=[('mtv',['mtv.operator==','bst.equals','equal_blocks_pred','mtv.ctor/1','mtv.ctor/3','mtv.ctor/1#m','mtv.operator=#c','mtv.dtor','bst.ctor/1'])],
  harness=[(c,['copy']) for c in MTV],
  note='Equality is proved to hold exactly when the logical arrays are equal (through uniqueness of the canonical block structure); copy construction, clone, copy assignment (self-assignment included) and move construction are proved to give the source content in element blocks of their own, with the source unchanged. Proved for the structure-of-arrays layout without copy-on-write and one opaque element type; std::transform and std::equal over the block lists with block_funcs are assumed contracts. The array-of-structures layout, copy-on-write sharing, other block types, element types that cannot be copied and move assignment are covered by the bounded runs.'),
'P25':dict(level='proof',
  proof=[('mtv',['mtv.set/2','mtv.get_impl','mtv.get_type','mtv.is_empty','mtv.set_empty/2','mtv.insert_empty/2','mtv.erase/2'])],
  harness=[(c,['bad']) for c in MTV],
  note='For these functions the exception is proved to be raised exactly on the stated bad arguments with nothing changed; the other entry points, the array-of-structures layout  are in the bounded stage.'),
'P24':dict(level='proof',
  proof=[('coll',['coll.ctor/0','coll.ctor/2','coll.begin','coll.end','coll.swap','coll.size','coll.set_collection_range','coll.set_element_range','coll.build_iterator_state','sit.operator++/0','sit.operator++/1','sit.operator=='])],
  harness=[('coll',['iterate'])],
  note='Construction from pointers, both range setters, begin, end, increment, comparison, size and swap are proved for any number of vectors of any length; lemmas over these contracts give the whole walk: row order, one element per step, end reached exactly after elements x vectors steps. The vector type is a template argument whose position, size, empty, cbegin and cend are assumed as stated in the module. Construction from smart pointers and reading values through real vectors are bounded.'),
'P23':dict(level='proof',
  proof=[('mtm',['mtm.ctor/0', 'mtm.ctor/2', 'mtm.ctor/3', 'mtm.ctor/1', 'mtm.operator==', 'mtm.position/2', 'mtm.position/2#c', 'mtm.position/3', 'mtm.position/3#c', 'mtm.matrix_position', 'mtm.get_type/1', 'mtm.get_type/2', 'mtm.get_numeric/1', 'mtm.get_numeric/2', 'mtm.get_integer/1', 'mtm.get_integer/2', 'mtm.get_boolean/1', 'mtm.get_boolean/2', 'mtm.get_string/1', 'mtm.get_string/2', 'mtm.set_empty/2', 'mtm.set_empty/1', 'mtm.set/3#dou', 'mtm.set/2#dou', 'mtm.set/3#boo', 'mtm.set/2#boo', 'mtm.set/3#int', 'mtm.set/2#int', 'mtm.set/3#con', 'mtm.set/2#con', 'mtm.set_empty/3', 'mtm.set_column_empty', 'mtm.set_row_empty', 'mtm.size', 'mtm.clear', 'mtm.empty', 'mtm.swap', 'mtm.numeric', 'mtm.copy/1', 'mtm.transpose', 'mtm.resize/2', 'mtm.resize/3', 'mtm.set/4', 'mtm.set/3#rng', 'mtm.copy/4', 'mtm.set_column'])],
  harness=[('mtm',['access','reshape','walk'])],
  note='Construction, every typed getter and setter by coordinates or position, range and column setters, emptying of cells, rows and columns, copy from a matrix and from an array, resize, transpose, numeric, clear, swap and comparison are proved against the row-by-column view for a matrix of any size. The element store is a template-level dependency whose operations (position, get, set, set_empty, block nodes) are assumed as stated in the module; the same operations are proved for a one-type vector under P17/P18/P20. Walks, bad coordinates and the other element types of range setters are bounded.'),
 'P14':dict(level='proof',
  proof=[('rtree',['rt.search#cp','rt.search#ce','rt.search#mp','rt.search#me','rt.empty'])],
  harness=[('rtree',['search'])],
  note='All four searches (by point or box, const or not) are proved for any tree to return exactly the stored values whose boxes overlap (boundary included) or equal the query, each with its depth, in tree order, and to throw for any other search type. The tree is assumed well formed: acyclic, boxes with start <= end, every directory box holding the boxes of its children. That insertion, erasure and bulk loading leave such a tree is in the bounded stage (the box maintenance is proved under P15). Two dimensions, integer keys; std::function is modelled by its meaning, each lambda being checked against it.'),
 'P15':dict(level='exploration',
  proof=[('rtree',['ns.pack','ns.pack_upward','rt.shrink_tree_upward','dirn.calc_extent','calc_extent','enlarge_extent_to_fit','ext.contains_at_boundary','ns.exceeds_capacity'])],
  harness=[('rtree',['shape'])],
  note='Proved for trees of any shape: the box maintenance (computing a directory box, packing it, propagating upwards after a change and after an erasure leaves every directory with the smallest box holding its children). Splitting, forced reinsertion, the choice of subtree, bulk loading and the walk over the tree are decided by the bounded runs only (random and structured histories up to a few thousand values, against a plain list); they are not counted as proved.'),
 'P16':dict(level='exploration',
  proof=[('rtree',['rt.swap','ns.swap','ns.ctor/1#m','ns.reset_parent_pointers','ns.reset_parent_pointers_of_children'])],
  harness=[('rtree',['copy'])],
  note='Proved for trees of any shape: swap exchanges the two trees and leaves every parent pointer right; node move construction; resetting parent pointers. Copy construction, assignment, move construction of whole trees and clear are decided by the bounded runs only; they are not counted as proved.'),
}
NA_DEFAULT='not claimed yet: contracts for this part are not written'
NA={'P11':'trie_map keeps its nodes in nested standard maps of template type and walks them with recursive member functions over stacks of map iterators; no contracts for that part are written within the verifier subset used here, and bounded runs alone (harness/trie.cpp) are not a proof of anything',
'P12':'prefix search builds a lazily evaluated result object over the node graph of trie_map/packed_trie_map; no contract on it has been written, bounded runs exist in harness/trie.cpp but are not claimed',
'P13':'packing, saving and loading go through iostreams and reinterpret node addresses as integers, which the heap model used here (pointers as opaque values) does not cover; bounded runs exist in harness/trie.cpp but are not claimed'}
