From 3d8605b7b00b45c3c2e06ddc41ab1449e3c10ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 01/12] fix: don't deallocate a null pointer when purging an
 empty sequence

The destructor, clear() and move assignment of an empty sequence passed a
null pointer that was never allocated to the allocator's deallocate().
---
 include/boost/segmented_tree/seq.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 06ea217..6599e4b 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -1263,6 +1263,8 @@ class seq {
   }
 
   void purge_root(void_pointer pointer, size_type sz, size_type ht) {
+    if (ht == 0) return;
+
     if (ht < 2)
       purge_segment(static_traits::cast_segment(pointer), sz);
     else
-- 
2.43.0


From c52a20115fbe7d35c174a6a7e155fa5241bbc187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:00 +0000
Subject: [PATCH 02/12] fix: publish the first segment only once its element is
 constructed

When the construction of the first element threw, the sequence already had
size one and destroyed an element that was never constructed.
---
 include/boost/segmented_tree/seq.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 6599e4b..9dcb335 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -1624,10 +1624,15 @@ class seq {
 
     if (pointer == nullptr) {
       auto alloc = allocate_segment();
+      try {
+        construct_segment(alloc, 0, std::move(value));
+      } catch (...) {
+        deallocate_segment(alloc);
+        throw;
+      }
       get_root() = alloc;
       get_size() = 1;
       get_height() = 1;
-      construct_segment(alloc, 0, std::move(value));
       entry.segment.pointer = alloc;
       entry.segment.length = 1;
       return;
-- 
2.43.0


From 41e0f95d813286e4adc1c22c59a50de7639312cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 03/12] fix: count the new last element of a segment before
 shifting the others

When a move assignment threw while the elements were shifted, the element
already constructed past the end of the segment was never destroyed.
---
 include/boost/segmented_tree/seq.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 9dcb335..2efdc92 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -1615,10 +1615,10 @@ class seq {
 
     if (index != length && length != static_traits::segment_max()) {
       move_segment(pointer, length - 1, pointer, length);
-      assign_forward_segment(pointer, length - 1, index, 1);
-      assign_segment(pointer, index, std::move(value));
       ++entry.segment.length;
       increment_sizes(parent_pointer, parent_index);
+      assign_forward_segment(pointer, length - 1, index, 1);
+      assign_segment(pointer, index, std::move(value));
       return;
     }
 
-- 
2.43.0


From 5ef2a0b77efc5b8f49cb58dbe5c98ee7adef40fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 04/12] fix: keep element lifetimes right when a move throws in
 a split or a merge

Splitting and merging segments destroyed each element as soon as it had been
moved. When a later move threw, those elements were destroyed again by the
sequence, and the elements of the new segment and its nodes were leaked. All
elements are now moved before any is destroyed, and what was constructed is
undone when one of the moves throws. A new element which is constructed in the
new segment comes first, so that its failure leaves the others untouched.
---
 include/boost/segmented_tree/seq.hpp | 87 +++++++++++++++++++---------
 1 file changed, 59 insertions(+), 28 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 2efdc92..b29d8af 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -1364,6 +1364,12 @@ class seq {
     return child_sz;
   }
 
+  // destroy_range
+  void destroy_range_segment(element_pointer pointer, size_type first,
+                             size_type last) {
+    for (; first != last; ++first) destroy_segment(pointer, first);
+  }
+
   // construct_range
   void construct_range_segment(element_pointer source, size_type source_index,
                                element_pointer dest, size_type dest_index,
@@ -1379,11 +1385,15 @@ class seq {
     auto last = source_index + count;
     auto to = dest_index;
 
-    while (from != last) {
-      construct_segment(dest, to, std::move(source[from]));
-      destroy_segment(source, from);
-      ++from;
-      ++to;
+    try {
+      while (from != last) {
+        construct_segment(dest, to, std::move(source[from]));
+        ++from;
+        ++to;
+      }
+    } catch (...) {
+      destroy_range_segment(dest, dest_index, to);
+      throw;
     }
   }
 
@@ -1647,33 +1657,49 @@ class seq {
 
     auto alloc = allocate_segment();
     auto leaf_alloc = alloc_nodes_single(parent_pointer, alloc);
+    size_type alloc_first = 0;
+    size_type alloc_last = 0;
 
     constexpr auto sum = static_traits::segment_max() + 1;
     constexpr auto pointer_length = sum / 2;
     constexpr auto alloc_length = sum - pointer_length;
 
-    if (index < pointer_length) {
-      auto left_index = pointer_length - 1;
-      move_segment(pointer, left_index, alloc, 0);
-      construct_range_segment(pointer, left_index + 1, alloc, 1,
-                              alloc_length - 1);
-      assign_forward_segment(pointer, left_index, index, 1);
-      assign_segment(pointer, index, std::move(value));
+    try {
+      if (index < pointer_length) {
+        auto left_index = pointer_length - 1;
+        alloc_last +=
+            construct_range_segment(pointer, left_index, alloc, 0, alloc_length);
+        assign_forward_segment(pointer, left_index, index, 1);
+        assign_segment(pointer, index, std::move(value));
 
-      entry.segment.length = pointer_length;
-    } else {
-      auto new_index = index - pointer_length;
-      auto move_length = length - index;
-      construct_range_segment(pointer, pointer_length, alloc, 0, new_index);
-      construct_range_segment(pointer, index, alloc, new_index + 1,
-                              move_length);
-      construct_segment(alloc, new_index, std::move(value));
-      entry.segment.length = alloc_length;
-      entry.segment.pointer = alloc;
-      entry.segment.index = new_index;
-      ++entry.leaf.index;
+        entry.segment.length = pointer_length;
+      } else {
+        auto new_index = index - pointer_length;
+        auto move_length = length - index;
+        alloc_first = alloc_last = new_index;
+        alloc_last += construct_segment(alloc, new_index, std::move(value));
+        alloc_last += construct_range_segment(pointer, index, alloc,
+                                              new_index + 1, move_length);
+        alloc_first -= construct_range_segment(pointer, pointer_length, alloc,
+                                               0, new_index);
+        entry.segment.length = alloc_length;
+        entry.segment.pointer = alloc;
+        entry.segment.index = new_index;
+        ++entry.leaf.index;
+      }
+    } catch (...) {
+      destroy_range_segment(alloc, alloc_first, alloc_last);
+      deallocate_segment(alloc);
+      while (leaf_alloc != nullptr) {
+        auto temp = leaf_alloc->parent_pointer;
+        deallocate_node(leaf_alloc);
+        leaf_alloc = temp;
+      }
+      throw;
     }
 
+    destroy_range_segment(pointer, pointer_length, length);
+
     insert_single_leaf(entry, pointer, parent_pointer, parent_index + 1,
                        leaf_alloc, alloc, alloc_length);
   }
@@ -1869,9 +1895,14 @@ class seq {
       }
 
       construct_range_segment(pointer, 0, prev_pointer, prev_length, index);
-      construct_range_segment(pointer, index + 1, prev_pointer,
-                              prev_length + index, length - index);
-      destroy_segment(pointer, index);
+      try {
+        construct_range_segment(pointer, index + 1, prev_pointer,
+                                prev_length + index, length - index);
+      } catch (...) {
+        destroy_range_segment(prev_pointer, prev_length, prev_length + index);
+        throw;
+      }
+      destroy_range_segment(pointer, 0, length + 1);
       deallocate_segment(pointer);
       sizes[prev_index] = merge_size;
       erase_index = parent_index;
@@ -1900,9 +1931,9 @@ class seq {
 
       assign_backward_segment(pointer, length, index, 1);
       move_assign_segment(next_pointer, 0, pointer, length);
-      destroy_segment(next_pointer, 0);
       construct_range_segment(next_pointer, 1, pointer, length + 1,
                               next_length - 1);
+      destroy_range_segment(next_pointer, 0, next_length);
       deallocate_segment(next_pointer);
 
       sizes[parent_index] = merge_size;
-- 
2.43.0


From af97c51ad0d96985b64402a9e7922879af37e3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 05/12] fix: don't move from an rvalue argument before memory
 was obtained

insert(), push_back() and push_front() of an rvalue promise the strong
guarantee, but moved their argument into a temporary first and lost its value
when the allocation of a segment or a node failed. splice() lost an element
of its source in the same way.
---
 include/boost/segmented_tree/seq.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index b29d8af..f6fde5d 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -1612,11 +1612,13 @@ class seq {
   }
 
   //   insert_single
-  void insert_single_iterator(iterator_data& it, value_type value) {
+  void insert_single_iterator(iterator_data& it, value_type&& value) {
     insert_single_segment(it.entry, std::move(value));
   }
 
-  void insert_single_segment(iterator_entry& entry, value_type value) {
+  // Only moves from value once nothing can fail for a lack of memory. As value
+  // may be an element, it is moved before the elements are shifted.
+  void insert_single_segment(iterator_entry& entry, value_type&& value) {
     auto pointer = entry.segment.pointer;
     auto index = entry.segment.index;
     auto length = entry.segment.length;
@@ -1624,11 +1626,12 @@ class seq {
     auto parent_index = entry.leaf.index;
 
     if (index != length && length != static_traits::segment_max()) {
+      value_type temp(std::move(value));
       move_segment(pointer, length - 1, pointer, length);
       ++entry.segment.length;
       increment_sizes(parent_pointer, parent_index);
       assign_forward_segment(pointer, length - 1, index, 1);
-      assign_segment(pointer, index, std::move(value));
+      assign_segment(pointer, index, std::move(temp));
       return;
     }
 
@@ -1667,10 +1670,11 @@ class seq {
     try {
       if (index < pointer_length) {
         auto left_index = pointer_length - 1;
+        value_type temp(std::move(value));
         alloc_last +=
             construct_range_segment(pointer, left_index, alloc, 0, alloc_length);
         assign_forward_segment(pointer, left_index, index, 1);
-        assign_segment(pointer, index, std::move(value));
+        assign_segment(pointer, index, std::move(temp));
 
         entry.segment.length = pointer_length;
       } else {
@@ -2170,6 +2174,11 @@ class seq {
     return it;
   }
 
+  iterator_data emplace_single(iterator_data it, value_type&& value) {
+    insert_single_iterator(it, std::move(value));
+    return it;
+  }
+
   template <typename... Args>
   iterator_data emplace_count(iterator_data it, size_type count,
                               Args&&... args) {
-- 
2.43.0


From 336aa095426908d0bd530a16a351a59fcd622c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 06/12] fix: undo a resize that fails halfway

resize(count) promises the strong guarantee, but kept the elements appended
before the failure.
---
 include/boost/segmented_tree/seq.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index f6fde5d..5d22625 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -2267,8 +2267,14 @@ class seq {
     auto last = find_end();
     if (count < sz)
       erase_range(find_index(count), last);
-    else
-      emplace_count(last, count - sz, std::forward<Args>(args)...);
+    else {
+      try {
+        emplace_count(last, count - sz, std::forward<Args>(args)...);
+      } catch (...) {
+        erase(nth(sz), end());
+        throw;
+      }
+    }
   }
 
   void copy_assign_alloc(seq const& other) {
-- 
2.43.0


From 5a6f45a18ad6f2c14f6a6cfd5ea2fc52a7ee41bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 07/12] fix: make move_before_segment(count) start at the last
 element

move_before_segment(count) is documented to move to the last element of the
previous segment and then backward count elements. It stopped one element
after that, and set the position to a value that belonged to neither.
---
 include/boost/segmented_tree/seq.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 5d22625..9402a10 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -695,8 +695,8 @@ struct static_traits_t {
   }
 
   static void move_before_segment_count(iterator_data& it, size_type count) {
-    it.pos -= it.entry.segment.index + 1 - count;
-    move_prev_leaf_count(it.entry, count);
+    it.pos -= it.entry.segment.index + 1 + count;
+    move_prev_leaf_count(it.entry, count + 1);
   }
 };
 }
-- 
2.43.0


From e586a6a099a3f912b7e21d98be4c7e35353bc0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 08/12] fix: move the element in splice() of a single element

Dereferencing the const_iterator gave a const rvalue, so the element was
copied instead of transferred, and move-only elements did not compile.
---
 include/boost/segmented_tree/seq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 9402a10..9a336c0 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3553,7 +3553,7 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   void splice(const_iterator pos, seq& other, const_iterator it) {
-    insert(pos, std::move(*it));
+    insert(pos, std::move(*iterator{it.it_}));
     other.erase(it);
   }
 
-- 
2.43.0


From 09a88056913c0fed714728a82a05e3390cf24ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 09/12] fix: let the value of insert(pos, count, value) and
 resize be an element

The elements are inserted one by one, so a value inside the sequence was
shifted, or its segment split, after the first insertion and the others were
copied from some other element or from one that was moved from.
---
 include/boost/segmented_tree/seq.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 9a336c0..b026da0 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3173,7 +3173,11 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   iterator insert(const_iterator pos, size_type count, T const& value) {
-    return emplace_count(pos.it_, count, value);
+    if (count == 0) return pos.it_;
+
+    // The value may be an element.
+    value_type const copy(value);
+    return emplace_count(pos.it_, count, copy);
   }
 
   /// \par Effects
@@ -3412,7 +3416,12 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   void resize(size_type count, value_type const& value) {
-    resize_count(count, value);
+    if (count > size()) {
+      // The value may be an element.
+      value_type const copy(value);
+      resize_count(count, copy);
+    } else
+      resize_count(count, value);
   }
 
   /// \par Effects
-- 
2.43.0


From eb3e458e189fcc9e005c4d3e8dfbf3feebd2e06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 10/12] fix: limit the children of a node to what its 16 bit
 fields can count

With a base_target of more than a megabyte a node had room for more than
65535 children, and its length and the indices of its children wrapped.
---
 include/boost/segmented_tree/seq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index b026da0..afd8d65 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -110,7 +110,7 @@ struct static_traits_t {
   }
 
   static constexpr std::size_t base_max() {
-    return base_fit() > 3 ? base_fit() : 3;
+    return base_fit() > 65535 ? 65535 : base_fit() > 3 ? base_fit() : 3;
   }
 
   static constexpr std::size_t segment_min() { return (segment_max() + 1) / 2; }
-- 
2.43.0


From a3f93bfcd4771b270c2512679fe3d69f1545678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 11/12] fix: let the value of remove() be an element

When the value was an element of the sequence, it was overwritten by the first
element that was kept, and the rest was compared with that one.
---
 include/boost/segmented_tree/seq.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index afd8d65..23d4c8c 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3631,7 +3631,21 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   void remove(const T& value) {
-    erase(std::remove(begin(), end(), value), end());
+    auto last = end();
+    auto result = std::find(begin(), last, value);
+    auto target = std::addressof(value);
+    for (auto first = result; first != last; ++first) {
+      if (*first == *target) continue;
+
+      // The value may be an element, which is kept until the last comparison.
+      if (std::addressof(*result) == target) {
+        target = std::addressof(*first);
+        std::iter_swap(result, first);
+      } else
+        *result = std::move(*first);
+      ++result;
+    }
+    erase(result, last);
   }
 
   /// \par Effects
-- 
2.43.0


From 6a52d9bbbf31010ea8953abd95e14d22234530df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:38 +0000
Subject: [PATCH 12/12] fix: destroy trivially destructible elements through an
 allocator that supplies destroy

Purging segments skipped allocator_traits::destroy for every trivially
destructible element type, although erase does call it and the elements were
built through the allocator's construct.
---
 include/boost/segmented_tree/seq.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 23d4c8c..5821547 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -54,6 +54,20 @@ struct is_alloc_move_construct_default {
       decltype(test<Alloc>(std::declval<Alloc>()))::value;
 };
 
+template <typename T, typename Alloc>
+struct is_alloc_destroy_default {
+ private:
+  template <typename U>
+  static auto test(U alloc)
+      -> decltype(alloc.destroy(std::declval<T*>()), std::false_type{});
+  template <typename>
+  static std::true_type test(...);
+
+ public:
+  static bool constexpr value =
+      decltype(test<Alloc>(std::declval<Alloc>()))::value;
+};
+
 template <typename T, typename VoidPointer, typename SizeType,
           std::size_t segment_target, std::size_t base_target>
 struct static_traits_t {
@@ -1241,8 +1255,11 @@ class seq {
   void purge_segment(element_pointer pointer, size_type sz) {
     purge_segment(
         pointer, sz,
-        std::integral_constant<bool,
-                               std::is_trivially_destructible<T>::value>{});
+        std::integral_constant < bool,
+        std::is_trivially_destructible<T>::value &&
+            (std::is_same<allocator_type, std::allocator<value_type>>::value ||
+             detail::is_alloc_destroy_default<value_type,
+                                              allocator_type>::value) > {});
     deallocate_segment(pointer);
   }
 
-- 
2.43.0

