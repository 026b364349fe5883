#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
I='include/mdds/'
FST=[I+'flat_segment_tree.hpp',I+'flat_segment_tree_def.inl',I+'flat_segment_tree_itr.hpp',I+'node.hpp']
SEG=[I+'segment_tree.hpp',I+'segment_tree_def.inl',I+'node.hpp']
PQT=[I+'point_quad_tree.hpp',I+'quad_node.hpp']
SSM=[I+'sorted_string_map.hpp',I+'sorted_string_map_def.inl']
TRI=[I+'trie_map.hpp',I+'trie_map_itr.hpp',I+'trie_map_def.inl']
RT=[I+'rtree.hpp',I+'rtree_def.inl']
SOA=[I+'multi_type_vector/soa/main.hpp',I+'multi_type_vector/soa/main_def.inl',I+'multi_type_vector/soa/block_util.hpp',I+'multi_type_vector/soa/iterator.hpp']
AOS=[I+'multi_type_vector/aos/main.hpp',I+'multi_type_vector/aos/main_def.inl',I+'multi_type_vector/aos/block_util.hpp',I+'multi_type_vector/aos/iterator.hpp']
MTV=SOA+AOS+[I+'multi_type_vector/types.hpp',I+'multi_type_vector/block_funcs.hpp',I+'multi_type_vector/util.hpp']
MTM=[I+'multi_type_matrix.hpp',I+'multi_type_matrix_def.inl']
COL=[I+'multi_type_vector/collection.hpp',I+'multi_type_vector/collection_def.inl']
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p('P01','flat_segment_tree insertion overwrites exactly the given range',
 'After any insertion of a value over [start,end), whether the position is searched from the front, from the back or from a caller-supplied iterator, every key inside the part of the range that lies within the tree\'s key span maps to that value and every other key maps to what it mapped to before. The returned flag is true exactly when the stored segments changed, and the returned iterator designates the segment that now contains the effective start key (the end position when nothing could be inserted because the range is empty, reversed or outside the span).',
 ['inputs','histories'],'all key ranges (inside, outside, straddling the span, empty, reversed), values, entry points and insertion positions, on every tree reachable by any sequence of operations',
 'The tests insert a few dozen hand-picked ranges; merging, splitting and clipping depend on how a new range lines up with every existing boundary and on equal neighbouring values, which is unbounded.',
 FST,[('insert_segment_impl / insert_to_pos / adjust_segment_range',FST[1]),('insert(pos, ...)',FST[1]),('get_insertion_pos_leaf[_reverse]',FST[1])],
 [('leaf chain','doubly linked leaf nodes; node i covers [key_i, key_{i+1}) with its value',I+'node.hpp')],['insert_front','insert_back','insert','search','begin/end'])
p('P02','flat_segment_tree always holds a canonical partition of its key span',
 'After any sequence of operations the stored segments are non-empty, in strictly increasing key order, cover the key span fixed at construction exactly and without gaps or overlaps, and no two neighbouring segments carry the same value. Forward, reverse and segment iteration all enumerate exactly these segments, and the leaf count reported equals the number of boundaries.',
 ['inputs','histories'],'every history of insertions, shifts, clears, copies, moves, swaps and tree builds',
 'Tests inspect the leaf layout after a few scripted operations only; the invariant must survive every composition of operations.',
 FST,[('link maintenance in insert_to_pos, shift_left, shift_right, clear, copy constructor',FST[1]),('append_new_segment, shift_leaf_key_left/right',FST[0]),('iterator handlers',FST[2])],
 [('leaf chain','ordered doubly linked boundaries',I+'node.hpp')],['begin/end','rbegin/rend','segment_range','leaf_size'])
p('P03','flat_segment_tree shifts move values like deleting or inserting a key range',
 'shift_left(start,end) makes each key k in [start, max-(end-start)) map to the old value of k+(end-start), gives the vacated tail the initial value and leaves keys before start alone; it does nothing when the range is empty or leaves the span. shift_right(pos,size) makes each key at or after pos+size map to the old value of the key size below it, drops what is pushed past the maximum, fills the opened gap with the value that preceded the boundary at pos (the initial value at the span start, or the value at pos when skipping the boundary is requested) and leaves keys before pos alone.',
 ['inputs','histories'],'all start/end/pos/size/skip arguments, on every reachable tree whose key arithmetic does not overflow',
 'Existing tests cover a small table of shifts; the result depends on how the shifted range aligns with boundaries, on equal neighbours and on the skip flag.',
 FST,[('shift_left, shift_right',FST[1]),('shift_leaf_key_left/right, append_new_segment',FST[0])],(),['shift_left','shift_right','search'])
p('P04','flat_segment_tree searches agree with the stored segments however they are made',
 'Every search form (linear, linear from any position hint, and tree search after a build) succeeds exactly when the key is in [min,max) and then reports the value, start and end of the one segment containing the key and an iterator to it; on failure outputs are untouched and the end position is returned. A position hint can change the cost but never the answer, and the tree search never answers from a tree that is out of date.',
 ['inputs','histories'],'all keys, all position hints (including end, default, stale-but-live positions beyond the key and positions of other trees), all trees, before and after modification and rebuild',
 'Tests search small trees with matching hints; tree-search descent and out-of-order hints depend on tree size and key position.',
 FST,[('search, search(pos), search_impl, search_by_key_impl',FST[1]),('search_tree, search_tree_for_leaf_node',FST[1]),('build_tree / tree_builder',I+'node.hpp'),('m_valid_tree',FST[0])],
 [('m_valid_tree','whether the non-leaf tree reflects the leaf chain',FST[0])],['search','search_tree','build_tree','is_tree_valid'])
p('P05','flat_segment_tree copies, moves, swaps and equality respect the stored value',
 'A copy or assigned copy equals its source and from then on each is unaffected by changes to the other; move and swap transfer the whole content. Two trees compare equal exactly when their key spans and segments (boundaries and values) are the same, and clear() restores the single initial segment over the same span.',
 ['inputs','histories'],'all trees and all subsequent operation sequences on either object, including self-assignment',
 'Tests copy two or three small trees; independence must hold for every later history.',
 FST,[('copy/move constructors, operator=, swap, clear, operator==, destroy',FST[1]),('disconnect_leaf_nodes, link_nodes',I+'node.hpp')],(),['operator==','swap','clear'])
p('P06','segment_tree searches return exactly the stored segments containing the point',
 'After the tree is built, searching any point reports each currently stored [start,end) segment that contains the point exactly once and reports nothing else, through the callback, the result-object and iterator forms alike, over any history of inserts, conditional erasures and rebuilds. Erasing by predicate removes exactly the segments the predicate selects.',
 ['inputs','histories'],'all multisets of segments (nested, duplicated, touching, invalid), all query points, all insert/erase/rebuild histories',
 'Tests use fixed sets of a handful of segments and sample points; correctness depends on how segments decompose over the non-leaf levels for every leaf count.',
 SEG,[('insert, erase_if, build_tree, build_leaf_nodes',SEG[1]),('descend_tree_and_mark / search',SEG[1]),('tree_builder',I+'node.hpp')],
 [('value_chain','segment positions attached to nodes that the segment fully covers',SEG[0])],['search','build_tree','erase_if'])
p('P07','segment_tree bookkeeping, equality and copies reflect the stored segments',
 'size, empty, clear and boundary_keys always reflect exactly the segments currently stored, whether or not the tree is built, and inserting an empty or reversed segment is refused without effect. Two trees that are both built, or both not built, compare equal exactly when they store the same multiset of segments; a copy stores and finds the same segments as its source (and compares equal to it unless it is empty) and is independent of it, moves and swaps transfer everything.',
 ['inputs','histories'],'all histories and all pairs of trees, including trees with duplicate segments',
 'Tests compare a few trees of distinct segments; duplicates and later mutation of copies are not explored.',
 SEG,[('operator==, copy/move constructors, swap, clear, size, boundary_keys, insert',SEG[1])],(),['operator==','size','boundary_keys','insert'])
p('P08','point_quad_tree finds exactly the stored points',
 'Inserting a point makes it findable with the last value inserted for exactly those coordinates and does not affect any other point; region search reports exactly the stored points inside the rectangle, its boundary included, each once; exact find succeeds exactly for stored coordinates and reports not-found otherwise. Size and emptiness agree with the number of stored points.',
 ['inputs','histories'],'all insertion orders (duplicates, collinear and equal coordinates included), query rectangles and query points',
 'Tests use a dozen points; quadrant choice on shared coordinates and search pruning depend on every insertion order.',
 PQT,[('insert, find_node, search_region, find, size',PQT[0]),('get_quadrant',PQT[1])],(),['insert','search','find','size'])
p('P09','point_quad_tree removal deletes one point and keeps all the others',
 'Removing a coordinate removes exactly the point stored there, if any, and every other point remains findable with its value, by exact and by region search; removing an absent coordinate changes nothing. Copies, copy- and move-assignment (self-assignment included) and swap carry the point set over whole and leave copies independent, and equality holds exactly for trees storing the same points.',
 ['inputs','histories'],'all interleavings of insertions and removals on all point sets, all copy/move/swap sequences',
 'Tests remove from two small sets; the replacement search and re-insertion depend on tree shape.',
 PQT,[('remove, find_replacement_node, adjust_quad, set_new_root, reinsert_tree',PQT[0]),('operator=, copy constructor, operator==, swap',PQT[0])],(),['remove','search','find','operator=='])
p('P10','sorted_string_map lookups return the value of exactly the matching key',
 'For a table sorted by key without duplicates, looking up a string returns the entry\'s value exactly when the string (compared over its full length, embedded NULs and prefixes included) is a key of the table and the default value otherwise; reverse lookup of a value present in the table returns its key, and an empty view otherwise. The reported size is the number of entries.',
 ['inputs'],'all sorted tables of any size and all query strings, with both lookup strategies',
 'Tests query fixed tables; prefix-related keys, empty keys and every position of a binary search are not enumerated.',
 SSM,[('find (binary search and linear), find_key',SSM[1])],(),['find','find_key','size'])
p('P11','trie_map behaves as an ordered map over key strings',
 'Over any history, trie_map stores exactly the keys inserted and not since erased, each with the value it was last inserted with; find, erase\'s result, size and empty agree with that map, and iteration visits every entry once in key order, forwards and backwards. Copies and moves carry the content and copies are independent.',
 ['inputs','histories'],'all insertion/erasure histories over all key strings (empty keys, keys that are prefixes of others, arbitrary characters)',
 'Tests insert small dictionaries; node sharing between prefix-related keys after erasures is history dependent.',
 TRI,[('insert_into_tree, find_prefix_node, erase, count_values',TRI[2]),('trie_map_iterator',TRI[1])],(),['insert','find','erase','size','begin/end'])
p('P12','trie prefix search yields exactly the keys with that prefix',
 'A prefix search on a mutable or packed trie yields exactly the stored entries whose key starts with the prefix (the prefix itself included when stored), each once with its full key and value, in key order; the range is empty exactly when there is none.',
 ['inputs','histories'],'all prefixes (empty, absent, longer than any key) against all tries',
 'Tests try a few prefixes on fixed dictionaries.',
 TRI,[('prefix_search, search_results',TRI[2]),('search_results iterator',TRI[1])],(),['prefix_search'])
p('P13','packing and saving a trie preserves its content',
 'A packed trie built from a trie_map, or from a sorted entry table, contains exactly the same key-value entries: find, size, prefix search and iteration agree with the source for every key. Saving its state and loading it elsewhere reproduces an equal packed trie; copies and moves keep the content, and equality holds exactly when contents are equal.',
 ['inputs','histories'],'all tries, including the empty trie, the empty key and long keys; all value types with the provided serializers',
 'Tests pack a few dictionaries; the offset arithmetic of the packed layout depends on trie shape and size.',
 TRI,[('pack, compact, insert_value, traverse_tree',TRI[2]),('find_prefix_node, save_state, load_state',TRI[2])],(),['pack','find','save_state','load_state'])
p('P14','rtree searches return exactly the stored objects meeting the query',
 'Over any history of insertions (single or bulk) and erasures, an overlap search reports exactly the stored objects whose box intersects the query box (boundaries included) and a match search exactly those whose box equals it, each once with its own box and value, for both const and mutable search. Size and emptiness equal the number of stored objects, and erasing through a search result removes that object only.',
 ['inputs','histories'],'all object sets (points, degenerate boxes, duplicates), any insertion and erasure order, bulk loading of any size, all query boxes',
 'Tests run one data set per scenario; splitting, forced reinsertion and condensation paths depend on history and on node capacity.',
 RT,[('search, search_descend, erase_impl, insert, split_node, perform_forced_reinsertion',RT[1]),('bulk_loader',RT[1])],(),['search','erase','insert','size'])
p('P15','rtree keeps a balanced tree with tight bounding boxes',
 'After any operation each non-leaf bounding box is exactly the union of its children\'s boxes, all leaves are at the same depth, every non-root node holds a number of children within the configured capacity limits (loading in bulk excepted for the minimum), and the tree\'s reported extent is the union of all stored boxes.',
 ['inputs','histories'],'all histories of insertions, erasures and bulk loads, for all capacity settings',
 'The integrity checker is invoked after a few scripted histories only.',
 RT,[('update_extent / calc_extent / shrink, split_node, insert, erase_impl, check_integrity',RT[1])],(),['extent','check_integrity','walk'])
p('P16','rtree copies and moves preserve content and stay independent',
 'A copied rtree returns the same results as its source for every query and neither is affected by later changes to the other; moving or swapping transfers the content, leaving the moved-from tree empty and usable.',
 ['inputs','histories'],'all trees and later histories',
 'Tests copy one small tree.',
 RT,[('copy/move constructors, operator=, swap, node_store clone/move',RT[1])],(),['rtree(const rtree&)','operator=','swap'])
p('P17','multi_type_vector writes update exactly the addressed elements',
 'Setting one value, setting a range, pushing back and inserting a range make the vector read as the logical array obtained by the same operation on a plain array: addressed positions hold the given values and types, inserted elements push later ones up, and every other position keeps its value, type and emptiness. This holds for both storage layouts, for every prior block structure and whether or not a correct position hint is supplied.',
 ['inputs','histories'],'all prior contents and block layouts, all positions, lengths, types and hints, both storage layouts',
 'Tests exercise selected block adjacency cases; the code has dozens of merge/split branches depending on neighbouring block types and on where the range starts and ends.',
 MTV,[('set_impl, set_cell_to_*, set_cells_*',SOA[1]),('insert_cells_impl, push_back_impl',SOA[1]),('the same in aos',AOS[1]),('element_block_funcs',MTV[-2])],
 [('m_block_store / m_blocks','positions, sizes and element blocks of the logical array',SOA[0])],['set','insert','push_back','get','is_empty'])
p('P18','multi_type_vector erasing, emptying and resizing edit the logical array exactly',
 'erase removes exactly the given inclusive range and closes the gap, insert_empty opens a gap of empty elements, set_empty empties exactly the range, resize truncates or extends with empty elements, push_back_empty adds one empty element at the end, clear empties all; all other elements keep their values, types and relative order and size() always equals the logical length.',
 ['inputs','histories'],'all ranges on all prior block layouts, both storage layouts, with and without hints',
 'Tests cover selected layouts; merging of the blocks that become neighbours depends on all combinations of types and partial overlaps.',
 MTV,[('erase_impl, erase_in_single_block',SOA[1]),('insert_empty_impl, insert_blocks_at',SOA[1]),('set_empty_impl, set_empty_in_single/multi_blocks',SOA[1]),('resize',SOA[1])],(),['erase','insert_empty','set_empty','resize','size'])
p('P19','multi_type_vector swap and transfer move elements without loss or duplication',
 'transfer(begin,end,dest,pos) moves the range into the destination positions with types and values intact and leaves the source range empty; swapping a range between two vectors exchanges exactly those ranges; swapping whole vectors exchanges everything; all other elements of both containers are unchanged.',
 ['inputs','histories'],'all pairs of vectors, ranges and destination positions, both storage layouts',
 'Tests transfer and swap a few layouts; both sides have independent block structures, giving a product of cases.',
 MTV,[('transfer_impl, transfer_single_block, transfer_multi_blocks',SOA[1]),('swap_impl, swap_single_block, swap_single_to_multi_blocks, swap_multi_to_multi_blocks',SOA[1])],(),['transfer','swap','get'])
p('P20','multi_type_vector keeps a canonical block structure and true positions',
 'After any operation the blocks cover the logical array without gaps, no block has size zero, no two neighbouring blocks have the same element type, and every block\'s stored position and size agree with its element data. position() of every index, from any hint, and block iteration in both directions report that structure, and every mutating operation returns an iterator to the block holding the first written or following element.',
 ['inputs','histories'],'all histories, all indices and position hints, both storage layouts',
 'Tests check block counts after scripted operations; the invariant must hold under every composition.',
 MTV,[('get_block_position, position, adjust_block_positions, merge_with_adjacent_blocks',SOA[1]),('check_block_integrity',SOA[1]),('iterators',SOA[3])],
 [('positions','start index of each block',SOA[0])],['begin/end','position','block_size'])
p('P21','multi_type_vector frees managed elements exactly once, pairs block events',
 'Elements stored in owning (managed) blocks are deleted exactly once: when overwritten, erased, emptied or on destruction, and never when released, transferred, swapped, resized elsewhere or moved with their block. release returns the element and leaves its slot empty, and the event handler is told of each element block acquired and released so that the live count always equals the number of non-empty blocks.',
 ['inputs','histories'],'all operation histories on vectors with managed blocks and event handlers, both storage layouts',
 'Tests delete a few objects; double deletion or leaks need specific overwrite/merge paths.',
 MTV,[('overwrite_values, resize_block, delete_element_block in block functions',MTV[-3]),('release_impl, release_range',SOA[1]),('event handler calls',SOA[1])],(),['release','release_range','event handler'])
p('P22','multi_type_vector clones and copies are equal and isolated',
 'A copied or cloned vector equals its source and later changes to either never show in the other; equality holds exactly for vectors with the same length whose elements have equal types and values position by position; moving leaves an empty, usable source.',
 ['inputs','histories'],'all contents and later histories, both storage layouts',
 'Tests copy and then compare once; sharing bugs appear only under later mutation of particular blocks.',
 MTV,[('copy constructor, clone, operator=, operator==, move',SOA[1]),('clone_block / equal_block',MTV[-2])],(),['operator==','clone','copy constructor'])
p('P23','multi_type_matrix element access and reshaping follow the row-column model',
 'Every element written at (row, column), singly, by column or by a position, is read back there with its type and value and no other element changes; transpose, resize, copy and clear produce exactly the matrix the mathematical operation defines, filling new elements with the default; walking visits every element in the documented order, including over a sub-range and in parallel with another matrix.',
 ['inputs','histories'],'all matrix dimensions, element types, positions, sub-ranges and operation histories',
 'Tests use a few small matrices; index arithmetic depends on dimensions and block structure.',
 MTM,[('set, get, set_column, set_empty, resize, copy, transpose, walk',MTM[1]),('get_pos / index mapping',MTM[0])],(),['set','get','transpose','resize','walk'])
p('P24','side-by-side collection iteration visits every element of every vector in order',
 'Iterating a collection of equally long multi_type_vectors visits, row by row over the selected element range and vector range, each element of each vector exactly once with its true position, index, type and value, whatever the block structures are; forward iteration ends exactly after the last element.',
 ['inputs'],'all numbers of vectors, block layouts, lengths and sub-ranges',
 'Tests iterate two small collections; visiting order depends on block boundaries of all vectors.',
 COL,[('side_iterator::operator++, collection::swap, set_collection_range, set_element_range',COL[1])],(),['begin/end','type','position'])
p('P25','out-of-range and invalid arguments are rejected without modifying the container',
 'Accessing, writing, erasing, inserting, emptying, transferring or swapping with positions outside a multi_type_vector, and querying positions outside it, raise the documented exception and leave the container (and the other one involved) exactly as before.',
 ['inputs','histories'],'all invalid position, range and size arguments on all contents, both storage layouts',
 'Tests probe a few invalid calls on one layout.',
 MTV,[('get_block_position range checks, erase, insert_empty, set_empty, transfer, swap range checks',SOA[1])],(),['set','get','erase','insert_empty','set_empty','swap','transfer'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for q in P:
        assert len(q['title'])<=80,(q['id'],len(q['title']))
        f.write(json.dumps(q)+'\n')
print(len(P),'properties')
