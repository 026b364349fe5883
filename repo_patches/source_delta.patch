From 31c915ac65013a70e716ded9574ad5d478d7a573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 01/37] fix: flat_segment_tree: ignore inserts that end exactly
 at the minimum key

The end key is not inclusive, so such a segment does not overlap the tree.
It was adjusted to an empty range and the insertion dereferenced a null
pointer.
---
 include/mdds/flat_segment_tree_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index 9c63927..c3df0f3 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -841,7 +841,7 @@ bool flat_segment_tree<Key, Value>::adjust_segment_range(key_type& start_key, ke
         // Invalid order of segment range.
         return false;
 
-    if (end_key < m_left_leaf->key || m_right_leaf->key <= start_key)
+    if (end_key <= m_left_leaf->key || m_right_leaf->key <= start_key)
         // The new segment does not overlap the current interval.
         return false;
 
-- 
2.43.0


From 47949c5fbf52f509559b55f128482f204c69e0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 02/37] fix: flat_segment_tree: fall back to normal search on
 an unusable position

search(pos, key) is documented to fall back to a search from the first
position when the position is invalid, but it failed instead when the
position was the end position, or was past the key.
---
 include/mdds/flat_segment_tree_def.inl | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index c3df0f3..b6f3f74 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -599,7 +599,14 @@ template<typename Key, typename Value>
 typename flat_segment_tree<Key, Value>::const_iterator flat_segment_tree<Key, Value>::search(
     const_iterator pos, key_type key) const
 {
-    return search_by_key_impl(pos.get_pos(), key);
+    const node* p = pos.get_pos();
+    if (!p || this != pos.get_parent() || key < p->key)
+    {
+        // Specified position is not usable.  Fall back to normal search.
+        return search(key);
+    }
+
+    return search_by_key_impl(p, key);
 }
 
 template<typename Key, typename Value>
-- 
2.43.0


From 08fac1da61f47329e37638ede678aeb87a53851e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 03/37] fix: flat_segment_tree: combine equal segments at the
 end of shift_left

Removing everything up to the maximum key reset the last segment to the
initial value without comparing it with the segment before it, which left
two adjacent segments with the same value.
---
 include/mdds/flat_segment_tree.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree.hpp b/include/mdds/flat_segment_tree.hpp
index 88c8910..ff92a51 100644
--- a/include/mdds/flat_segment_tree.hpp
+++ b/include/mdds/flat_segment_tree.hpp
@@ -687,7 +687,16 @@ private:
     {
         if (m_right_leaf->prev->key == start_key)
         {
-            m_right_leaf->prev->value_leaf.value = m_init_val;
+            node_ptr last_node = m_right_leaf->prev;
+            last_node->value_leaf.value = m_init_val;
+            if (last_node->prev && last_node->prev->value_leaf.value == m_init_val)
+            {
+                // The segment before it has the same value.  Combine them by
+                // removing the redundant node.
+                st::detail::link_nodes<node_ptr>(last_node->prev, m_right_leaf);
+                disconnect_all_nodes(last_node.get());
+            }
+            m_valid_tree = false;
             return;
         }
 
-- 
2.43.0


From e8b60b9031d8c2793bfceb778347bbbfde40a14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:53 +0000
Subject: [PATCH 04/37] fix: segment_tree: match each stored segment only once
 in the equality operator

Duplicate segments on one side could all match the same segment on the other
side.
---
 include/mdds/segment_tree_def.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mdds/segment_tree_def.inl b/include/mdds/segment_tree_def.inl
index f3f24da..c3ddbfe 100644
--- a/include/mdds/segment_tree_def.inl
+++ b/include/mdds/segment_tree_def.inl
@@ -294,23 +294,23 @@ bool segment_tree<KeyT, ValueT>::operator==(const segment_tree& r) const
         rhs.insert(&seg);
     }
 
-    std::size_t n_lhs = 0;
-
     for (const segment_type& seg : m_segment_store)
     {
         if (seg == segment_type{})
             continue;
 
-        ++n_lhs;
         const auto* src = &seg;
 
         auto it = std::find_if(rhs.begin(), rhs.end(), [src](const segment_type* p) { return *src == *p; });
 
         if (it == rhs.end())
             return false;
+
+        // Each segment must be matched only once.
+        rhs.erase(it);
     }
 
-    return n_lhs == rhs.size();
+    return rhs.empty();
 }
 
 template<typename KeyT, typename ValueT>
-- 
2.43.0


From bc1eb77694321d27d9914b793055c0ca36206787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:53 +0000
Subject: [PATCH 05/37] fix: segment_tree: leave a moved-from tree without the
 tree it gave away

---
 include/mdds/segment_tree.hpp     |  2 +-
 include/mdds/segment_tree_def.inl | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/mdds/segment_tree.hpp b/include/mdds/segment_tree.hpp
index d768d6f..b0f6dd9 100644
--- a/include/mdds/segment_tree.hpp
+++ b/include/mdds/segment_tree.hpp
@@ -334,7 +334,7 @@ public:
 
     segment_tree() noexcept(nothrow_default_constructible_v);
     segment_tree(const segment_tree& r);
-    segment_tree(segment_tree&& r) = default;
+    segment_tree(segment_tree&& r) noexcept(nothrow_move_constructible_v);
     ~segment_tree();
 
     segment_tree& operator=(const segment_tree& r);
diff --git a/include/mdds/segment_tree_def.inl b/include/mdds/segment_tree_def.inl
index c3ddbfe..c991d1a 100644
--- a/include/mdds/segment_tree_def.inl
+++ b/include/mdds/segment_tree_def.inl
@@ -256,6 +256,16 @@ segment_tree<KeyT, ValueT>::segment_tree(const segment_tree& r)
         build_tree();
 }
 
+template<typename KeyT, typename ValueT>
+segment_tree<KeyT, ValueT>::segment_tree(segment_tree&& r) noexcept(nothrow_move_constructible_v)
+    : m_nonleaf_node_pool(std::move(r.m_nonleaf_node_pool)), m_segment_store(std::move(r.m_segment_store)),
+      m_tagged_nodes_map(std::move(r.m_tagged_nodes_map)), m_root_node(r.m_root_node),
+      m_left_leaf(std::move(r.m_left_leaf)), m_right_leaf(std::move(r.m_right_leaf)), m_valid_tree(r.m_valid_tree)
+{
+    r.m_root_node = nullptr;
+    r.m_valid_tree = false;
+}
+
 template<typename KeyT, typename ValueT>
 segment_tree<KeyT, ValueT>::~segment_tree()
 {
-- 
2.43.0


From c8632a12d76909b6d2140ae64fec05661f81a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 06/37] fix: point_quad_tree: give the last search result when
 stepping back from the end position

---
 include/mdds/point_quad_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index 83e8443..d0a47c0 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -285,6 +285,7 @@ public:
                 if (m_end_pos)
                 {
                     m_end_pos = false;
+                    update_current_value();
                     return get_current_value();
                 }
                 --m_cur_pos;
-- 
2.43.0


From 3384c1893c099fc07fe6a3572d2cad42cae86635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:47 +0000
Subject: [PATCH 07/37] fix: point_quad_tree: keep every other point when
 removing a point with children

The node that replaces the removed one was assumed to be its direct child; the
rest of its quadrant was dropped and the parent link was left pointing to the
node itself.
---
 include/mdds/point_quad_tree.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index d0a47c0..dfd1dd7 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -840,26 +840,36 @@ void point_quad_tree<Key, Value>::remove(key_type x, key_type y)
     delete_node->y = repl_node->y;
     delete_node->data = repl_node->data;
 
-    // Reset the parent node.
-    delete_node->parent = repl_node->parent;
+    // Take the replacement node out of the tree.  Neither what is left below it
+    // nor what is left in its quadrant may be dropped; since their nodes may lie
+    // on the borders of the new quadrants, re-insert them.
+    disconnect_node_from_parent(repl_node);
     repl_node->parent.reset();
 
     switch (repl_quad)
     {
         case quad_northeast:
-            delete_node->northeast = repl_node->northeast;
+            insert_list.push_back(delete_node->northeast);
+            insert_list.push_back(repl_node->northeast);
+            delete_node->northeast.reset();
             repl_node->northeast.reset();
             break;
         case quad_northwest:
-            delete_node->northwest = repl_node->northwest;
+            insert_list.push_back(delete_node->northwest);
+            insert_list.push_back(repl_node->northwest);
+            delete_node->northwest.reset();
             repl_node->northwest.reset();
             break;
         case quad_southeast:
-            delete_node->southeast = repl_node->southeast;
+            insert_list.push_back(delete_node->southeast);
+            insert_list.push_back(repl_node->southeast);
+            delete_node->southeast.reset();
             repl_node->southeast.reset();
             break;
         case quad_southwest:
-            delete_node->southwest = repl_node->southwest;
+            insert_list.push_back(delete_node->southwest);
+            insert_list.push_back(repl_node->southwest);
+            delete_node->southwest.reset();
             repl_node->southwest.reset();
             break;
         default:
-- 
2.43.0


From 1eb60eb14e89fa6c67822fc94388e93f3ec66af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:47 +0000
Subject: [PATCH 08/37] fix: point_quad_tree: keep the content on
 self-assignment

---
 include/mdds/point_quad_tree.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index dfd1dd7..3ab636a 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -920,6 +920,9 @@ typename point_quad_tree<Key, Value>::node_access point_quad_tree<Key, Value>::g
 template<typename Key, typename Value>
 point_quad_tree<Key, Value>& point_quad_tree<Key, Value>::operator=(const point_quad_tree& r)
 {
+    if (this == &r)
+        return *this;
+
     m_xrange = key_range_type(0, 0);
     m_yrange = key_range_type(0, 0);
     clear_all_nodes();
-- 
2.43.0


From c12322a776e8112211b7c16509f8a258d1eb68e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:39 +0000
Subject: [PATCH 09/37] fix: multi_type_vector: callback for emplace_back of
 pointer values

---
 include/mdds/multi_type_vector/macro.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/mdds/multi_type_vector/macro.hpp b/include/mdds/multi_type_vector/macro.hpp
index 5ee060d..317059e 100644
--- a/include/mdds/multi_type_vector/macro.hpp
+++ b/include/mdds/multi_type_vector/macro.hpp
@@ -146,6 +146,12 @@
     { \
         block_type::append_value(block, val); \
     } \
+\
+    template<typename... Args> \
+    inline void mdds_mtv_emplace_back_value(mdds::mtv::base_element_block& block, const type*, Args&&... args) \
+    { \
+        block_type::emplace_back_value(block, std::forward<Args>(args)...); \
+    } \
 \
     inline void mdds_mtv_prepend_value(mdds::mtv::base_element_block& block, type* val) \
     { \
-- 
2.43.0


From aa615e5a26b53d0e30173f7f00e3a1395cd1691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:39 +0000
Subject: [PATCH 10/37] fix: multi_type_vector: report the new block when
 inserting in front of a block (soa)

---
 include/mdds/multi_type_vector/soa/main_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index e10fd73..1847afb 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -2123,8 +2123,8 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::insert_c
         // Just insert a new block before the current block.
         m_block_store.insert(block_index, m_block_store.positions[block_index], length, nullptr);
         m_block_store.element_blocks[block_index] = block_funcs::create_new_block(cat, 0);
-        m_hdl_event.element_block_acquired(blk_data);
         blk_data = m_block_store.element_blocks[block_index];
+        m_hdl_event.element_block_acquired(blk_data);
         mdds_mtv_assign_values(*blk_data, *it_begin, it_begin, it_end);
         m_block_store.sizes[block_index] = length;
         m_cur_size += length;
-- 
2.43.0


From ef1956d8d9cbdc8c3609e7daa59f59b17272bc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:39 +0000
Subject: [PATCH 11/37] fix: multi_type_vector: combine with the block of the
 same type after a range that ends on a block boundary

---
 include/mdds/multi_type_vector/aos/main_def.inl | 3 +++
 include/mdds/multi_type_vector/soa/main_def.inl | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index e3744c5..2fdd384 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -4106,6 +4106,9 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
         delete_element_blocks(it_erase_begin, it_erase_end);
         m_blocks.erase(it_erase_begin, it_erase_end);
 
+        // The block that follows may hold the same type when block 2 is gone.
+        merge_with_next_block(block_index1);
+
         return get_iterator(block_index1);
     }
 
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 1847afb..af2e224 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -3268,6 +3268,9 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
         delete_element_blocks(index_erase_begin, index_erase_end);
         m_block_store.erase(index_erase_begin, index_erase_end - index_erase_begin);
 
+        // The block that follows may hold the same type when block 2 is gone.
+        merge_with_next_block(block_index1);
+
         return get_iterator(block_index1);
     }
 
-- 
2.43.0


From f1e977d7b970b533d9842faf6a6c8328b641c050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:39 +0000
Subject: [PATCH 12/37] fix: multi_type_vector: release the overwritten objects
 at the start of the last block of a range

---
 include/mdds/multi_type_vector/aos/main_def.inl | 1 +
 include/mdds/multi_type_vector/soa/main_def.inl | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 2fdd384..f715dab 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -4090,6 +4090,7 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
             {
                 // Erase the upper part of block 2.
                 size_type size_to_erase = end_row - start_row_in_block2 + 1;
+                block_funcs::overwrite_values(*blk2->data, 0, size_to_erase);
                 block_funcs::erase(*blk2->data, 0, size_to_erase);
                 blk2->size -= size_to_erase;
                 blk2->position += size_to_erase;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index af2e224..ec3d878 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -3252,6 +3252,7 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
             {
                 // Erase the upper part of block 2.
                 size_type size_to_erase = end_row - start_row_in_block2 + 1;
+                block_funcs::overwrite_values(*blk2_data, 0, size_to_erase);
                 block_funcs::erase(*blk2_data, 0, size_to_erase);
                 m_block_store.sizes[block_index2] -= size_to_erase;
                 m_block_store.positions[block_index2] += size_to_erase;
-- 
2.43.0


From 521b9d402fb0be70fa10941897974862ec813490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:23 +0000
Subject: [PATCH 13/37] fix: multi_type_vector: delete the cut-off objects, by
 their position in the block, on resize

---
 include/mdds/multi_type_vector/aos/main_def.inl | 2 +-
 include/mdds/multi_type_vector/soa/main_def.inl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index f715dab..35d2609 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -4364,7 +4364,7 @@ void multi_type_vector<Traits>::resize_impl(size_type new_size)
         size_type new_block_size = new_end_row - start_row_in_block + 1;
         if (blk->data)
         {
-            block_funcs::overwrite_values(*blk->data, new_end_row + 1, end_row_in_block - new_end_row);
+            block_funcs::overwrite_values(*blk->data, new_block_size, end_row_in_block - new_end_row);
             block_funcs::resize_block(*blk->data, new_block_size);
         }
         blk->size = new_block_size;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index ec3d878..3984572 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -5129,7 +5129,7 @@ void multi_type_vector<Traits>::resize_impl(size_type new_size)
         size_type new_block_size = new_end_row - start_row_in_block + 1;
         if (data)
         {
-            block_funcs::overwrite_values(*data, new_end_row + 1, end_row_in_block - new_end_row);
+            block_funcs::overwrite_values(*data, new_block_size, end_row_in_block - new_end_row);
             block_funcs::resize_block(*data, new_block_size);
         }
         m_block_store.sizes[block_index] = new_block_size;
-- 
2.43.0


From 73fe0d18ade90f43a5cadb93db569410a5a4bdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 14/37] fix: multi_type_vector: leave a moved-from container
 with a size of zero

---
 include/mdds/multi_type_vector/aos/main_def.inl | 3 ++-
 include/mdds/multi_type_vector/soa/main_def.inl | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 35d2609..59d1d79 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -12,6 +12,7 @@
 
 #include <stdexcept>
 #include <memory>
+#include <utility>
 
 namespace mdds { namespace mtv { namespace aos {
 
@@ -326,7 +327,7 @@ multi_type_vector<Traits>::multi_type_vector(const multi_type_vector& other)
 template<typename Traits>
 multi_type_vector<Traits>::multi_type_vector(multi_type_vector&& other) noexcept(nothrow_move_constructible_v)
     : m_hdl_event(std::move(other.m_hdl_event)), m_blocks(std::move(other.m_blocks)),
-      m_cur_size(std::move(other.m_cur_size))
+      m_cur_size(std::exchange(other.m_cur_size, 0))
 {
 #ifdef MDDS_MULTI_TYPE_VECTOR_DEBUG
     debug_check_full("move construction");
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 3984572..12d16f7 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -10,6 +10,8 @@
 #include "../standard_element_blocks.hpp"
 #endif
 
+#include <utility>
+
 namespace mdds { namespace mtv { namespace soa {
 
 namespace detail {
@@ -517,7 +519,7 @@ multi_type_vector<Traits>::multi_type_vector(const multi_type_vector& other)
 template<typename Traits>
 multi_type_vector<Traits>::multi_type_vector(multi_type_vector&& other) noexcept(nothrow_move_constructible_v)
     : m_hdl_event(std::move(other.m_hdl_event)), m_block_store(std::move(other.m_block_store)),
-      m_cur_size(std::move(other.m_cur_size)), m_cow_store(std::move(other.m_cow_store))
+      m_cur_size(std::exchange(other.m_cur_size, 0)), m_cow_store(std::move(other.m_cow_store))
 {
     MDDS_MTV_TRACE_ARGS(constructor, "other=? (move)");
 
-- 
2.43.0


From 845bcef6f7546b73af1a1222c4bf7bdf78063504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 15/37] fix: multi_type_vector: do not read a block of an empty
 container when given a position hint

---
 include/mdds/multi_type_vector/aos/main_def.inl | 3 +++
 include/mdds/multi_type_vector/soa/main_def.inl | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 59d1d79..c71ba22 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -920,6 +920,9 @@ template<typename Traits>
 typename multi_type_vector<Traits>::size_type multi_type_vector<Traits>::get_block_position(
     const typename value_type::private_data& pos_data, size_type row) const
 {
+    if (m_blocks.empty())
+        return 0;
+
     size_type block_index = 0;
     if (pos_data.parent == this && pos_data.block_index < m_blocks.size())
         block_index = pos_data.block_index;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 12d16f7..c9c0cc5 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -4237,6 +4237,9 @@ template<typename Traits>
 typename multi_type_vector<Traits>::size_type multi_type_vector<Traits>::get_block_position(
     const typename value_type::private_data& pos_data, size_type row) const
 {
+    if (m_block_store.positions.empty())
+        return 0;
+
     size_type block_index = 0;
     if (pos_data.parent == this && pos_data.block_index < m_block_store.positions.size())
         block_index = pos_data.block_index;
-- 
2.43.0


From c69f29ea2d37ec627b3388405a7d115aefef78e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 16/37] fix: multi_type_vector: do not delete the objects of a
 combined block on swapping ranges

---
 include/mdds/multi_type_vector/aos/main_def.inl | 1 +
 include/mdds/multi_type_vector/soa/main_def.inl | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index c71ba22..30822fc 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -3509,6 +3509,7 @@ base_element_block* multi_type_vector<Traits>::exchange_elements(
                 {
                     // Apend elements from the next block too.
                     block_funcs::append_block(*blk_prev->data, *blk_next->data);
+                    block_funcs::resize_block(*blk_next->data, 0); // prevent double-delete.
                     blk_prev->size += blk_next->size;
                     ++it_end;
                     delete_element_block(*blk_next);
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index c9c0cc5..f3f8091 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -4856,6 +4856,7 @@ base_element_block* multi_type_vector<Traits>::exchange_elements(
                     // Apend elements from the next block too.
                     base_element_block* dst_next_data = m_block_store.element_blocks[dst_index + 1];
                     block_funcs::append_block(*dst_prev_data, *dst_next_data);
+                    block_funcs::resize_block(*dst_next_data, 0); // prevent double-delete.
                     m_block_store.sizes[dst_index - 1] += m_block_store.sizes[dst_index + 1];
                     ++dst_erase_size;
                     delete_element_block(dst_index + 1);
-- 
2.43.0


From 1356638e1bf7b5ea73b728a4b1239990d3858b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:03 +0000
Subject: [PATCH 17/37] fix: multi_type_vector: do not leak the copied blocks
 when copying one of them is refused (aos)

---
 .../mdds/multi_type_vector/aos/main_def.inl   | 27 +++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 30822fc..612107e 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -309,13 +309,30 @@ template<typename Traits>
 multi_type_vector<Traits>::multi_type_vector(const multi_type_vector& other)
     : m_hdl_event(other.m_hdl_event), m_blocks(other.m_blocks), m_cur_size(other.m_cur_size)
 {
-    // Copy all element blocks.
-    for (auto& blk : m_blocks)
+    // Copy all element blocks into a temporary store first, so that a copy
+    // throwing mid-way doesn't leak the blocks copied so far.
+    std::vector<base_element_block*> owned(m_blocks.size(), nullptr);
+
+    try
     {
-        if (blk.data)
+        for (std::size_t i = 0; i < m_blocks.size(); ++i)
+            if (m_blocks[i].data)
+                owned[i] = block_funcs::copy_block(*m_blocks[i].data);
+    }
+    catch (...)
+    {
+        for (const base_element_block* p : owned)
+            if (p)
+                block_funcs::delete_block(p);
+        throw;
+    }
+
+    for (std::size_t i = 0; i < m_blocks.size(); ++i)
+    {
+        if (owned[i])
         {
-            blk.data = block_funcs::copy_block(*blk.data);
-            m_hdl_event.element_block_acquired(blk.data);
+            m_blocks[i].data = owned[i];
+            m_hdl_event.element_block_acquired(owned[i]);
         }
     }
 
-- 
2.43.0


From 2cfbee66c4b55eedd4a4ea0787221ee496723e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 18/37] fix: packed_trie_map: the root of an empty instance
 stores no value

---
 include/mdds/trie_map_def.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 7d8c93a..f24bc46 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -1299,6 +1299,7 @@ packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map() : m_packed(3, 0u)
 
     // root offset (0), root value (1), and root child count (2).
     m_packed[0] = 1;
+    m_packed[1] = null_value; // the root has no value.
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
@@ -1395,6 +1396,7 @@ packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map(packed_trie_map&& other)
     // Even the empty structure needs to have the root offset and the empty root record.
     other.m_packed.resize(3, 0u); // root offset (0), root value (1), and root child count (2).
     other.m_packed[0] = 1;
+    other.m_packed[1] = null_value; // the root has no value.
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
-- 
2.43.0


From 7244c98916ea8902f0e25042e7b87db44001c132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:08 +0000
Subject: [PATCH 19/37] fix: trie_map, packed_trie_map: begin() takes the value
 of the empty key into account

---
 include/mdds/trie_map_def.inl | 50 +++++++----------------------------
 1 file changed, 10 insertions(+), 40 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index f24bc46..bfcfa3d 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -666,8 +666,7 @@ trie_map<KeyT, ValueT, TraitsT>::trie_map(trie_map&& other) : m_root(std::move(o
 template<typename KeyT, typename ValueT, typename TraitsT>
 typename trie_map<KeyT, ValueT, TraitsT>::const_iterator trie_map<KeyT, ValueT, TraitsT>::begin() const
 {
-    if (m_root.children.empty())
-        // empty container
+    if (empty())
         return end();
 
     // Push the root node.
@@ -675,12 +674,8 @@ typename trie_map<KeyT, ValueT, TraitsT>::const_iterator trie_map<KeyT, ValueT,
     const_node_stack_type node_stack;
     node_stack.emplace_back(&m_root, m_root.children.begin());
 
-    // Push root's first child node.
-    auto it = node_stack.back().child_pos;
-    const_iterator::push_child_node_to_stack(node_stack, buf, it);
-
-    // In theory there should always be at least one value node along the
-    // left-most branch.
+    // The root node itself may have a value, for the empty key.  Otherwise, in theory
+    // there should always be at least one value node along the left-most branch.
 
     while (!node_stack.back().node->has_value)
     {
@@ -694,8 +689,7 @@ typename trie_map<KeyT, ValueT, TraitsT>::const_iterator trie_map<KeyT, ValueT,
 template<typename KeyT, typename ValueT, typename TraitsT>
 typename trie_map<KeyT, ValueT, TraitsT>::iterator trie_map<KeyT, ValueT, TraitsT>::begin()
 {
-    if (m_root.children.empty())
-        // empty container
+    if (empty())
         return end();
 
     // Push the root node.
@@ -703,12 +697,8 @@ typename trie_map<KeyT, ValueT, TraitsT>::iterator trie_map<KeyT, ValueT, Traits
     node_stack_type node_stack;
     node_stack.emplace_back(&m_root, m_root.children.begin());
 
-    // Push root's first child node.
-    auto it = node_stack.back().child_pos;
-    iterator::push_child_node_to_stack(node_stack, buf, it);
-
-    // In theory there should always be at least one value node along the
-    // left-most branch.
+    // The root node itself may have a value, for the empty key.  Otherwise, in theory
+    // there should always be at least one value node along the left-most branch.
 
     while (!node_stack.back().node->has_value)
     {
@@ -1444,34 +1434,14 @@ typename packed_trie_map<KeyT, ValueT, TraitsT>::const_iterator packed_trie_map<
     node_stack_type node_stack = get_root_stack();
 
     const stack_item* si = &node_stack.back();
-    if (si->child_pos == si->child_end)
+    // The root node itself may have a value, for the empty key.
+    pack_value_type pos = *si->node_pos;
+
+    if (pos == null_value && si->child_pos == si->child_end)
         // empty container.
         return const_iterator(&m_value_store, std::move(node_stack), key_type());
 
-    const auto* node_pos = si->node_pos;
-    const auto* child_pos = si->child_pos;
-    const auto* child_end = si->child_end;
-    const auto* p = child_pos;
-
-    // Follow the root node's left-most child.
     key_type buf;
-    key_unit_type c = *p;
-    buf.push_back(c);
-    ++p;
-    size_type offset = *p;
-
-    node_pos -= offset; // jump to the child node.
-    p = node_pos;
-    ++p;
-    size_type index_size = *p;
-    ++p;
-    child_pos = p;
-    child_end = child_pos + index_size;
-
-    // Push this child node onto the stack.
-    node_stack.emplace_back(&m_value_store, node_pos, child_pos, child_end);
-
-    pack_value_type pos = *node_pos;
     while (pos == null_value)
     {
         // Keep following the left child node until we reach a node with value.
-- 
2.43.0


From 7ca687e4d251973789b30938ce294909fd160259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 20/37] fix: trie_map, packed_trie_map: stepping an iterator
 back from an inner node visits the entries on its left

---
 include/mdds/trie_map_itr.hpp | 62 ++++-------------------------------
 1 file changed, 6 insertions(+), 56 deletions(-)

diff --git a/include/mdds/trie_map_itr.hpp b/include/mdds/trie_map_itr.hpp
index b87bc4f..2b863c6 100644
--- a/include/mdds/trie_map_itr.hpp
+++ b/include/mdds/trie_map_itr.hpp
@@ -227,7 +227,7 @@ public:
     {
         trie_node_type* cur_node = m_node_stack.back().node;
 
-        if (m_type == iterator_type::end && cur_node->has_value)
+        if (m_type == iterator_type::end && cur_node->children.empty())
         {
             assert(m_node_stack.size() == 1);
             m_type = iterator_type::normal;
@@ -241,9 +241,9 @@ public:
             cur_node = descend_to_previus_leaf_node(m_node_stack, m_buffer);
             m_type = iterator_type::normal;
         }
-        else if (cur_node->children.empty())
+        else
         {
-            // This is a leaf node.  Keep going up until it finds a parent
+            // Keep going up until it finds a parent node with value, or a parent
             // node with unvisited child nodes on the left side, then descend
             // on that path all the way to its leaf.
 
@@ -264,30 +264,6 @@ public:
                 }
             } while (!cur_node->has_value);
         }
-        else
-        {
-            // Non-leaf node with value.  Keep going up until either the root
-            // node or another node with value is reached.
-
-            assert(cur_node->has_value);
-            assert(m_node_stack.back().child_pos == cur_node->children.begin());
-
-            do
-            {
-                // Go up.
-                m_buffer.pop_back();
-                m_node_stack.pop_back();
-                auto& si = m_node_stack.back();
-                cur_node = si.node;
-
-                if (m_node_stack.size() == 1)
-                {
-                    // Root node reached.  Left and down.
-                    cur_node = descend_to_previus_leaf_node(m_node_stack, m_buffer);
-                    assert(cur_node->has_value);
-                }
-            } while (!cur_node->has_value);
-        }
 
         assert(cur_node->has_value);
         m_current_key = m_buffer;
@@ -648,7 +624,7 @@ public:
         pack_value_type v = *si->node_pos;
         size_t index_size = *(si->node_pos + 1); // index size for child nodes.
 
-        if (m_type == iterator_type::end && v != trie_type::null_value)
+        if (m_type == iterator_type::end && !index_size)
         {
             assert(m_node_stack.size() == 1);
             m_type = iterator_type::normal;
@@ -663,9 +639,9 @@ public:
             v = *si->node_pos;
             m_type = iterator_type::normal;
         }
-        else if (!index_size)
+        else
         {
-            // This is a leaf node.  Keep going up until it finds a parent
+            // Keep going up until it finds a parent node with value, or a parent
             // node with unvisited child nodes on the left side, then descend
             // on that path all the way to its leaf.
 
@@ -694,32 +670,6 @@ public:
                 }
             } while (v == trie_type::null_value);
         }
-        else
-        {
-            // Non-leaf node with value.  Keep going up until either the root
-            // node or another node with value is reached.
-
-            assert(*si->node_pos); // this node should have a value.
-            assert(si->child_pos == (si->node_pos + 2));
-
-            do
-            {
-                // Go up.
-                m_buffer.pop_back();
-                m_node_stack.pop_back();
-                si = &m_node_stack.back();
-                v = *si->node_pos;
-
-                if (m_node_stack.size() == 1)
-                {
-                    // Root node reached.
-                    descend_to_previous_leaf_node(m_node_stack, m_buffer);
-                    si = &m_node_stack.back();
-                    v = *si->node_pos;
-                    assert(v != trie_type::null_value);
-                }
-            } while (v == trie_type::null_value);
-        }
 
         assert(v != trie_type::null_value);
         m_current_value = v;
-- 
2.43.0


From 9e62d52162c0b10f7ebc45ca5bb16e4e5584a6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 21/37] fix: trie_map::prefix_search() on an empty instance
 returns an empty range

---
 include/mdds/trie_map_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index bfcfa3d..5349b0a 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -976,7 +976,7 @@ typename trie_map<KeyT, ValueT, TraitsT>::search_results trie_map<KeyT, ValueT,
 {
     const key_unit_type* p = prefix.data();
     const key_unit_type* p_end = p + prefix.size();
-    const trie_node* node = find_prefix_node(m_root, p, p_end);
+    const trie_node* node = empty() ? nullptr : find_prefix_node(m_root, p, p_end);
     return search_results(node, key_type(prefix.data(), prefix.size()));
 }
 
-- 
2.43.0


From 2445e59180844356ffe43bc8410ec377385ecdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 22/37] fix: packed_trie_map: copies of search results keep
 their value store

---
 include/mdds/trie_map_itr.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/mdds/trie_map_itr.hpp b/include/mdds/trie_map_itr.hpp
index 2b863c6..320ae33 100644
--- a/include/mdds/trie_map_itr.hpp
+++ b/include/mdds/trie_map_itr.hpp
@@ -724,6 +724,7 @@ class packed_search_results
 
     void swap(packed_search_results& other)
     {
+        std::swap(m_value_store, other.m_value_store);
         std::swap(m_node, other.m_node);
         std::swap(m_buffer, other.m_buffer);
     }
@@ -734,10 +735,12 @@ public:
     packed_search_results() : m_node(nullptr)
     {}
 
-    packed_search_results(const packed_search_results& other) : m_node(other.m_node), m_buffer(other.m_buffer)
+    packed_search_results(const packed_search_results& other)
+        : m_value_store(other.m_value_store), m_node(other.m_node), m_buffer(other.m_buffer)
     {}
 
-    packed_search_results(packed_search_results&& other) : m_node(other.m_node), m_buffer(std::move(other.m_buffer))
+    packed_search_results(packed_search_results&& other)
+        : m_value_store(other.m_value_store), m_node(other.m_node), m_buffer(std::move(other.m_buffer))
     {
         other.m_node = nullptr;
     }
-- 
2.43.0


From 1d0d9ed9f3683720cec6af1c1c626ee9f3035f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 23/37] fix: packed_trie_map: entry keys may contain zero key
 units

---
 include/mdds/trie_map_def.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 5349b0a..620742f 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -1032,7 +1032,7 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::traverse_range(
         ++range_count;
         key_unit_type c = p->key[pos];
 
-        if (!range_char)
+        if (range_count == 1)
             range_char = c;
         else if (range_char != c)
         {
@@ -1051,7 +1051,6 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::traverse_range(
 
     if (range_count)
     {
-        assert(range_char);
         node_pool.emplace_back(range_char);
         root.children.push_back(&node_pool.back());
         traverse_range(*root.children.back(), node_pool, range_start, end, pos + 1);
-- 
2.43.0


From 143e241da6947f82082bb781f9d8f32c7d29df9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 24/37] fix: trie_map: find() and erase() of a missing key do
 not act on its stored prefix

---
 include/mdds/trie_map_def.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 620742f..a8804fb 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -858,7 +858,11 @@ void trie_map<KeyT, ValueT, TraitsT>::find_prefix_node_with_stack(
 
     auto it = node.children.find(*prefix);
     if (it == node.children.end())
+    {
+        // No such node.
+        node_stack.clear();
         return;
+    }
 
     node_stack.emplace_back(&node, it);
 
-- 
2.43.0


From 4582f96e48fe844fdc197a8f4b840d6c440caa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 25/37] fix: packed_trie_map: keys of an entry list with units
 above 0x7f are found

---
 include/mdds/trie_map_def.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index a8804fb..1377221 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -1059,6 +1059,11 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::traverse_range(
         root.children.push_back(&node_pool.back());
         traverse_range(*root.children.back(), node_pool, range_start, end, pos + 1);
     }
+
+    // Child nodes are looked up by their key units, whose order may differ from that of the entries.
+    std::sort(root.children.begin(), root.children.end(), [](const trie_node* left, const trie_node* right) {
+        return left->key < right->key;
+    });
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
-- 
2.43.0


From e0b362ad367e02ae104db319695bb7cb815c5883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 26/37] fix: rtree: a root directory with fewer than the
 minimum number of children is valid

---
 include/mdds/rtree_def.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index b642e63..37b91b9 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1848,8 +1848,10 @@ void rtree<KeyT, ValueT, Traits>::check_integrity(const integrity_check_properti
                 }
 
                 bool node_underfill_allowed = false;
-                if (ns->is_root() && ns->type == node_type::directory_leaf)
-                    // If the root directory is a leaf, it's allowed to be underfilled.
+                if (ns->is_root())
+                    // The root directory is allowed to be underfilled: a leaf
+                    // root can hold any number of values, and a non-leaf root
+                    // only has two children right after it has been split.
                     node_underfill_allowed = true;
 
                 if (!node_underfill_allowed && ns->count < traits_type::min_node_size)
-- 
2.43.0


From a42f89fa4f97065ae9523fc00ca1945f61c2d17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 27/37] fix: rtree: erase does not turn the last value of a
 leaf root into the root

---
 include/mdds/rtree_def.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 37b91b9..4244022 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1651,9 +1651,10 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
         orphan_value_nodes.pop_back();
     }
 
-    if (m_root.count == 1)
+    while (m_root.count == 1 && m_root.type == node_type::directory_nonleaf)
     {
-        // If the root node only has one child, make that child the new root.
+        // If the root node only has one child directory, make that child the
+        // new root.
         // Be careful not to leak memory here...
 
         dir = static_cast<directory_node*>(m_root.node_ptr);
-- 
2.43.0


From a84173227d75f7c5ec43601f0ed628c349f13507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 28/37] fix: rtree: splitting the root refreshes the parent
 pointers of the old root's children

---
 include/mdds/rtree_def.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 4244022..15a8d23 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -2244,7 +2244,9 @@ void rtree<KeyT, ValueT, Traits>::split_node(node_store* ns)
         m_root.pack();
 
         for (node_store& ns_child : dir_root->children)
-            ns_child.reset_parent_pointers_of_children();
+            // The old root has moved, so the parent pointers of its children
+            // are stale even when they were valid before the split.
+            ns_child.reset_parent_pointers();
     }
     else
     {
-- 
2.43.0


From b1552eb3bcf176ed2aa55b1ac0b6bc4d4429cf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:07 +0000
Subject: [PATCH 29/37] fix: rtree: split an overfull non-leaf directory when a
 directory is re-inserted

---
 include/mdds/rtree_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 15a8d23..18bdbfc 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -683,7 +683,7 @@ bool rtree<KeyT, ValueT, Traits>::node_store::is_root() const
 template<typename KeyT, typename ValueT, typename Traits>
 bool rtree<KeyT, ValueT, Traits>::node_store::exceeds_capacity() const
 {
-    if (type != node_type::directory_leaf)
+    if (!is_directory())
         return false;
 
     return count > traits_type::max_node_size;
-- 
2.43.0


From fc52bd6bdf190596c6f0cee2d0f345c7b0b73d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:07 +0000
Subject: [PATCH 30/37] fix: rtree: erase propagates the shrunken extent up to
 the root

---
 include/mdds/rtree_def.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 18bdbfc..058c9ea 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1610,7 +1610,8 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
     assert(erased);
 
     dir_ns->reset_parent_pointers();
-    dir_ns->pack();
+    if (dir_ns->pack())
+        dir_ns->pack_upward();
 
     orphan_node_entries_type orphan_dir_nodes;
 
@@ -1635,7 +1636,8 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
         erased = dir_ns->erase_child(dir_ns_child);
         assert(erased);
         dir_ns->reset_parent_pointers_of_children();
-        dir_ns->pack();
+        if (dir_ns->pack())
+            dir_ns->pack_upward();
     }
 
     while (!orphan_dir_nodes.empty())
-- 
2.43.0


From 74e00afb704197399e74a7f70b4da6841f246104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:18 +0000
Subject: [PATCH 31/37] fix: rtree: erase refreshes the parent pointers of the
 siblings of a dissolved directory

---
 include/mdds/rtree_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 058c9ea..b06189e 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1635,7 +1635,7 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
         --depth;
         erased = dir_ns->erase_child(dir_ns_child);
         assert(erased);
-        dir_ns->reset_parent_pointers_of_children();
+        dir_ns->reset_parent_pointers();
         if (dir_ns->pack())
             dir_ns->pack_upward();
     }
-- 
2.43.0


From d4d10c6db990d32d490fe618dd2f15df44ba4657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:35 +0000
Subject: [PATCH 32/37] fix: rtree: erase re-inserts orphaned directories at
 their own level

---
 include/mdds/rtree_def.inl | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index b06189e..cbcbb77 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1625,7 +1625,7 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
         {
             orphan_dir_nodes.emplace_back();
             orphan_dir_nodes.back().ns.swap(dir->children.back());
-            orphan_dir_nodes.back().depth = depth + 1; // depth of the children.
+            orphan_dir_nodes.back().depth = depth; // depth of the directory that is to hold the children.
             dir->children.pop_back();
         }
 
@@ -1640,10 +1640,21 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
             dir_ns->pack_upward();
     }
 
+    auto get_tree_height = [this]() -> size_t {
+        size_t height = 0;
+        for (const node_store* p = &m_root; p->type == node_type::directory_nonleaf && p->count; ++height)
+            p = &p->get_directory_node()->children.front();
+        return height;
+    };
+
+    // The depths of the orphan entries are relative to the current root.  They
+    // shift when the root gets split during re-insertion.
+    const size_t height_before = get_tree_height();
+
     while (!orphan_dir_nodes.empty())
     {
         orphan_node_entry& entry = orphan_dir_nodes.back();
-        insert_dir(std::move(entry.ns), entry.depth);
+        insert_dir(std::move(entry.ns), entry.depth + get_tree_height() - height_before);
         orphan_dir_nodes.pop_back();
     }
 
-- 
2.43.0


From 992a5af569b7a9cf757ddf67c51867c60ac93e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 33/37] fix: multi_type_matrix: transpose handles integer
 elements

---
 include/mdds/multi_type_matrix_def.inl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index 75cedb3..22ab574 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -402,6 +402,13 @@ multi_type_matrix<Traits>& multi_type_matrix<Traits>::transpose()
                     tmp.set(old_col_new_row, old_row_new_col, val);
                 }
                 break;
+                case mtm::element_integer:
+                {
+                    integer_type val;
+                    m_store.get(get_pos(old_row_new_col, old_col_new_row), val);
+                    tmp.set(old_col_new_row, old_row_new_col, val);
+                }
+                break;
                 case mtm::element_string:
                 {
                     string_type val;
-- 
2.43.0


From f6032cba7d54ab28b9dc7dd6596de802212cf932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 34/37] fix: multi_type_matrix: copy and resize handle integer
 elements

---
 include/mdds/multi_type_matrix_def.inl | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index 22ab574..7a23539 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -481,6 +481,14 @@ void multi_type_matrix<Traits>::copy(const multi_type_matrix& src)
                     blk_pos = m_store.set(pos_dest.first, logical_pos_dest, it, ite);
                 }
                 break;
+                case mtm::element_integer:
+                {
+                    auto it = src_node.template begin<integer_block_type>();
+                    auto ite = src_node.template end<integer_block_type>();
+
+                    blk_pos = m_store.set(pos_dest.first, logical_pos_dest, it, ite);
+                }
+                break;
                 case mtm::element_string:
                 {
                     auto it = src_node.template begin<string_block_type>();
-- 
2.43.0


From 99a702c97052c87c46e1bd6c236e271586e81c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:03 +0000
Subject: [PATCH 35/37] fix: multi_type_matrix: walk rejects a range that ends
 past the last row or column

---
 include/mdds/multi_type_matrix_def.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index 7a23539..e1c631a 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -659,7 +659,7 @@ FuncT multi_type_matrix<Traits>::walk(FuncT func, const size_pair_type& start, c
         throw size_error(os.str());
     }
 
-    if (end.row > m_size.row || end.column > m_size.column)
+    if (end.row >= m_size.row || end.column >= m_size.column)
         throw size_error("multi_type_matrix: end position is out-of-bound.");
 
     size_t rows = end.row - start.row + 1;
@@ -743,8 +743,8 @@ FuncT multi_type_matrix<Traits>::walk(
         throw size_error(os.str());
     }
 
-    if (end.row > m_size.row || end.column > m_size.column || end.row > right.size().row ||
-        end.column > right.size().column)
+    if (end.row >= m_size.row || end.column >= m_size.column || end.row >= right.size().row ||
+        end.column >= right.size().column)
         throw size_error("multi_type_matrix: end position is out-of-bound.");
 
     size_t rows = end.row - start.row + 1;
-- 
2.43.0


From bc3414c1123ee433f704c64f37365afaae1f66bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:06 +0000
Subject: [PATCH 36/37] fix: mtv collection: reject ranges whose size overflows
 the end position

---
 include/mdds/multi_type_vector/collection_def.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/collection_def.inl b/include/mdds/multi_type_vector/collection_def.inl
index be9876d..e12b907 100644
--- a/include/mdds/multi_type_vector/collection_def.inl
+++ b/include/mdds/multi_type_vector/collection_def.inl
@@ -194,7 +194,7 @@ void collection<MtvT>::check_collection_range(size_type start, size_type size) c
     if (!size)
         throw invalid_arg_error("size of 0 is not allowed.");
 
-    if ((start + size) > m_vectors.size())
+    if (size > m_vectors.size() - start)
         throw invalid_arg_error("size is too large.");
 }
 
@@ -211,7 +211,7 @@ void collection<MtvT>::check_element_range(size_type start, size_type size) cons
     if (!size)
         throw invalid_arg_error("size of 0 is not allowed.");
 
-    if ((start + size) > m_mtv_size)
+    if (size > m_mtv_size - start)
         throw invalid_arg_error("size is too large.");
 }
 
-- 
2.43.0


From e2c3e095fff8e496b40dacba9942f1b91e035439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:43 +0000
Subject: [PATCH 37/37] fix: keep shift_right from overflowing the key type in
 flat_segment_tree

---
 include/mdds/flat_segment_tree.hpp     | 11 +++++++++--
 include/mdds/flat_segment_tree_def.inl |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/mdds/flat_segment_tree.hpp b/include/mdds/flat_segment_tree.hpp
index ff92a51..6356ad4 100644
--- a/include/mdds/flat_segment_tree.hpp
+++ b/include/mdds/flat_segment_tree.hpp
@@ -755,15 +755,22 @@ private:
         }
     }
 
+    static bool is_in_bound_after_shift(key_type key, key_type shift_value, key_type end_key)
+    {
+        // The shifted key may not fit in the key type.  Check the distance to
+        // the end key first, which always does unless the key is negative.
+        return (key < key_type() || shift_value < end_key - key) && key + shift_value < end_key;
+    }
+
     static void shift_leaf_key_right(node_ptr& cur_node, node_ptr& end_node, key_type shift_value)
     {
         key_type end_node_key = end_node->key;
         while (cur_node.get() != end_node.get())
         {
-            cur_node->key += shift_value;
-            if (cur_node->key < end_node_key)
+            if (is_in_bound_after_shift(cur_node->key, shift_value, end_node_key))
             {
                 // The node is still in-bound.  Keep shifting.
+                cur_node->key += shift_value;
                 cur_node = cur_node->next;
                 continue;
             }
diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index b6f3f74..cade638 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -474,7 +474,7 @@ void flat_segment_tree<Key, Value>::shift_right(key_type pos, key_type size, boo
 
         if (m_left_leaf->value_leaf.value != m_init_val && !skip_start_node)
         {
-            if (size < m_right_leaf->key - m_left_leaf->key)
+            if (is_in_bound_after_shift(m_left_leaf->key, size, m_right_leaf->key))
             {
                 // The leftmost leaf node has a non-initial value.  We need to
                 // insert a new node to carry that value after the shift.
-- 
2.43.0

