From d342d302b9d2a462cbcafe416d3c74e09c35421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 01/17] fix: use 64-bit masks in
 BitUtils::__internal_popcnt64()

---
 src/jstd/support/BitUtils.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jstd/support/BitUtils.h b/src/jstd/support/BitUtils.h
index 67480a9..d7d526f 100644
--- a/src/jstd/support/BitUtils.h
+++ b/src/jstd/support/BitUtils.h
@@ -86,9 +86,9 @@ namespace BitUtils {
     static inline
     unsigned int __internal_popcnt64(uint64_t x) {
     #if 1
-        x -=  ((x >> 1U) & 0x55555555U);
-        x  = (((x >> 2U) & 0x33333333U) + (x & 0x33333333U));
-        x  = (((x >> 4U) + x) & 0x0F0F0F0FU);
+        x -=  ((x >> 1U) & 0x5555555555555555ULL);
+        x  = (((x >> 2U) & 0x3333333333333333ULL) + (x & 0x3333333333333333ULL));
+        x  = (((x >> 4U) + x) & 0x0F0F0F0F0F0F0F0FULL);
         x +=   (x >> 8U);
         x +=   (x >> 16U);
         x +=   (x >> 32U);
-- 
2.43.0


From c517fea58008b8beb6d93757299d3947a2cdae1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 02/17] fix: flat_map_group16::has_any_overflow() must see any
 overflow bit

---
 src/jstd/hashmap/flat_map_group16.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/flat_map_group16.hpp b/src/jstd/hashmap/flat_map_group16.hpp
index d6d94c9..027f9a9 100644
--- a/src/jstd/hashmap/flat_map_group16.hpp
+++ b/src/jstd/hashmap/flat_map_group16.hpp
@@ -344,7 +344,7 @@ public:
             std::uint64_t * part0 = reinterpret_cast<std::uint64_t *>((ctrl_type *)&ctrls[0]);
             std::uint64_t * part1 = reinterpret_cast<std::uint64_t *>((ctrl_type *)&ctrls[kSizeofSizeT]);
             // return ((((*part0) & kOverflowMask64) != 0) || (((*part1) & kOverflowMask64) != 0));
-            return (((*part0) & (*part1) & kOverflowMask64) != 0);
+            return ((((*part0) | (*part1)) & kOverflowMask64) != 0);
         } else {
             std::uint32_t * part0 = reinterpret_cast<std::uint32_t *>((ctrl_type *)&ctrls[0]);
             std::uint32_t * part1 = reinterpret_cast<std::uint32_t *>((ctrl_type *)&ctrls[kSizeofSizeT]);
@@ -352,8 +352,7 @@ public:
             std::uint32_t * part3 = reinterpret_cast<std::uint32_t *>((ctrl_type *)&ctrls[kSizeofSizeT * 3]);
             // return ((((*part0) & kOverflowMask32) != 0) || (((*part1) & kOverflowMask32) != 0) ||
             //         (((*part2) & kOverflowMask32) != 0) || (((*part3) & kOverflowMask32) != 0));
-            return ((((*part0) & (*part1) & kOverflowMask32) != 0) ||
-                    (((*part2) & (*part3) & kOverflowMask32) != 0));
+            return ((((*part0) | (*part1) | (*part2) | (*part3)) & kOverflowMask32) != 0);
         }
     }
 
-- 
2.43.0


From d26b2aff3e16f60fa352654e19cd10f82fbd763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 03/17] fix: group15/16 map insert_or_assign() must call the
 table's public insert_or_assign()

---
 src/jstd/hashmap/group15_flat_map.hpp   | 12 ++++++------
 src/jstd/hashmap/group15_flat_table.hpp |  2 +-
 src/jstd/hashmap/group16_flat_map.hpp   | 12 ++++++------
 src/jstd/hashmap/group16_flat_table.hpp |  2 +-
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index e97a273..f9cd1ee 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -472,13 +472,13 @@ public:
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value));
+        return table_.insert_or_assign(key, std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value));
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -488,19 +488,19 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -510,7 +510,7 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 85724cb..f9be375 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -922,7 +922,7 @@ public:
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index 7dea593..4f2ad48 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -469,13 +469,13 @@ public:
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value));
+        return table_.insert_or_assign(key, std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value));
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -485,19 +485,19 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -507,7 +507,7 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 1292c06..3902c3d 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -870,7 +870,7 @@ public:
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
-- 
2.43.0


From b3d5ece61482efa99ce920056ea69aa219a83f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 04/17] fix: group15/16 emplace(lvalue pair) must not move from
 the caller's pair

---
 src/jstd/hashmap/group15_flat_table.hpp | 2 +-
 src/jstd/hashmap/group16_flat_table.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index f9be375..65b0f9b 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2546,7 +2546,7 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::move(value));
+            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<ValueT>(value));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 3902c3d..21888a6 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2376,7 +2376,7 @@ private:
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
             assert(slot_index < this->slot_capacity());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::move(value));
+            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<ValueT>(value));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
-- 
2.43.0


From dc45d9d042a98b57cbf1192a5dcc3e4a3259bc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 05/17] fix: group15/16 map insert(first, last) must insert
 every element of the range

---
 src/jstd/hashmap/group15_flat_map.hpp | 2 +-
 src/jstd/hashmap/group16_flat_map.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index f9cd1ee..fd86e49 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -458,7 +458,7 @@ public:
     JSTD_FORCED_INLINE
     void insert(InputIter first, InputIter last) {
         for (InputIter pos = first; pos != last; ++pos) {
-            table_.emplace(*first);
+            table_.emplace(*pos);
         }
     }
 
diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index 4f2ad48..142b037 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -455,7 +455,7 @@ public:
     JSTD_FORCED_INLINE
     void insert(InputIter first, InputIter last) {
         for (InputIter pos = first; pos != last; ++pos) {
-            table_.emplace(*first);
+            table_.emplace(*pos);
         }
     }
 
-- 
2.43.0


From 652bcc7a92d7fe55208848585f09238b2f34b435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 06/17] fix: group15/16 move constructor must use
 get_group_allocator_ref()

---
 src/jstd/hashmap/group15_flat_table.hpp | 2 +-
 src/jstd/hashmap/group16_flat_table.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 65b0f9b..39d66b2 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -366,7 +366,7 @@ public:
         hasher_(std::move(other.hash_function_ref())),
         key_equal_(std::move(other.key_eq_ref())),
         allocator_(std::move(other.get_allocator_ref())),
-        group_allocator_(std::move(other.get_ctrl_allocator_ref())),
+        group_allocator_(std::move(other.get_group_allocator_ref())),
         slot_allocator_(std::move(other.get_slot_allocator_ref())) {
     }
 
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 21888a6..5d064b3 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -355,7 +355,7 @@ public:
         hasher_(std::move(other.hash_function_ref())),
         key_equal_(std::move(other.key_eq_ref())),
         allocator_(std::move(other.get_allocator_ref())),
-        group_allocator_(std::move(other.get_ctrl_allocator_ref())),
+        group_allocator_(std::move(other.get_group_allocator_ref())),
         slot_allocator_(std::move(other.get_slot_allocator_ref())) {
     }
 
-- 
2.43.0


From 0b27265cf66ecf0968acaaa106f497f1abc15ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 07/17] fix: group15/16 copying between equal-capacity tables
 must copy the size (and compile)

---
 src/jstd/hashmap/group15_flat_table.hpp | 4 +++-
 src/jstd/hashmap/group16_flat_table.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 39d66b2..0316f54 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1675,6 +1675,7 @@ private:
         if (this->slots() != nullptr && other.slots() != nullptr) {
             copy_groups_array_from(other);
             copy_slots_array_from(other);
+            this->slot_size_ = other.slot_size();
         } else {
             assert(false);
         }
@@ -1722,7 +1723,7 @@ private:
          */
         std::memcpy(
             reinterpret_cast<unsigned char *>(this->slots()),
-            reinterpret_cast<unsigned char *>(other.slots()),
+            reinterpret_cast<const unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
     }
 
@@ -1822,6 +1823,7 @@ private:
         if (this->slots() != nullptr && other.slots() != nullptr) {
             move_groups_array_from(other);
             move_slots_array_from(other);
+            this->slot_size_ = other.slot_size();
         } else {
             assert(false);
         }
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 5d064b3..e6fdec2 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -1620,6 +1620,7 @@ private:
         if (this->slots() != nullptr && other.slots() != nullptr) {
             copy_groups_array_from(other);
             copy_slots_array_from(other);
+            this->slot_size_ = other.slot_size();
         }
     }
 
@@ -1665,7 +1666,7 @@ private:
          */
         std::memcpy(
             reinterpret_cast<unsigned char *>(this->slots()),
-            reinterpret_cast<unsigned char *>(other.slots()),
+            reinterpret_cast<const unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
     }
 
@@ -1741,6 +1742,7 @@ private:
         if (this->slots() != nullptr && other.slots() != nullptr) {
             move_groups_array_from(other);
             move_slots_array_from(other);
+            this->slot_size_ = other.slot_size();
         }
     }
 
-- 
2.43.0


From d2dc5d41a431c3f593b95ff47b5af5681989a010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 08/17] fix: group15/16 reserve(0) must not destroy the
 elements of a non-empty map

---
 src/jstd/hashmap/group15_flat_table.hpp | 2 +-
 src/jstd/hashmap/group16_flat_table.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 0316f54..837c83f 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -733,7 +733,7 @@ public:
         if (JSTD_LIKELY(new_capacity != 0)) {
             new_capacity = this->shrink_to_fit_capacity(new_capacity);
             this->rehash_impl<false>(new_capacity);
-        } else {
+        } else if (this->empty()) {
             this->destroy<true>();
         }
     }
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index e6fdec2..9562991 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -669,7 +669,7 @@ public:
         if (JSTD_LIKELY(new_capacity != 0)) {
             new_capacity = this->shrink_to_fit_capacity(new_capacity);
             this->rehash_impl<false>(new_capacity);
-        } else {
+        } else if (this->empty()) {
             this->destroy<true>();
         }
     }
-- 
2.43.0


From 4bc492caf6fae882ccd86880f529fc6c98ab8913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 09/17] fix: group15 shrink_to_fit(true) must leave room for
 every element

---
 src/jstd/hashmap/group15_flat_table.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 837c83f..f76900b 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -762,8 +762,11 @@ public:
         size_type new_capacity;
         if (JSTD_LIKELY(!read_only))
             new_capacity = this->shrink_to_fit_capacity(this->size());
+        else if (this->size() != 0)
+            // One slot of the tail group is the sentinel, so size() + 1 slots are needed.
+            new_capacity = (this->size() / kGroupSize + 1) * kGroupWidth;
         else
-            new_capacity = this->size();
+            new_capacity = 0;
         if (JSTD_LIKELY(new_capacity != 0)) {
             this->rehash_impl<true>(new_capacity);
         } else {
-- 
2.43.0


From 9f6ec9f6405617d02fc89dbc12092b2d50b20ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 10/17] fix: group15/16 erase must not wrap slot_threshold_
 below zero

---
 src/jstd/hashmap/group15_flat_table.hpp | 4 ++--
 src/jstd/hashmap/group16_flat_table.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index f76900b..dce825a 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2792,8 +2792,8 @@ private:
 #endif
         assert(group->is_used(group_pos));
         group->set_empty(group_pos);
-        assert(this->slot_threshold_ > 0);
-        this->slot_threshold_ -= maybe_overflow;
+        // size() may be bigger than the threshold after a shrink or a copy, so it can reach 0.
+        this->slot_threshold_ -= (maybe_overflow && this->slot_threshold_ > 0);
         assert(this->slot_size_ > 0);
         this->slot_size_--;
     }
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 9562991..3ea0802 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2601,8 +2601,8 @@ private:
         bool maybe_overflow = this->maybe_caused_overflow(ctrl);
         assert(ctrl->is_used());
         ctrl->set_empty();
-        assert(this->slot_threshold_ > 0);
-        this->slot_threshold_ -= maybe_overflow;
+        // size() may be bigger than the threshold after a shrink or a copy, so it can reach 0.
+        this->slot_threshold_ -= (maybe_overflow && this->slot_threshold_ > 0);
         assert(this->slot_size_ > 0);
         this->slot_size_--;
     }
-- 
2.43.0


From dd3e23d51549dbe4e88c24deae43e4771e9f81f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 11/17] fix: group16 insert must not raise slot_threshold_
 beyond the load factor limit

---
 src/jstd/hashmap/group16_flat_table.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 3ea0802..f811fa2 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2188,7 +2188,11 @@ private:
 #if GROUP16_USE_NEW_OVERFLOW
                     // If overflow bit is 1, and found a empty slot, the slot must be a deleted slot.
                     bool is_deleted_slot = group->is_overflow(ctrl_hash);
-                    this->slot_threshold_ += is_deleted_slot;
+                    // The overflow bit may have been set after the deleted slot's hash was stored,
+                    // then the erase didn't decrease the threshold: never go beyond the original one.
+                    if (is_deleted_slot && this->slot_threshold_ < this->calc_slot_threshold(this->slot_capacity())) {
+                        this->slot_threshold_++;
+                    }
                     assert(this->slot_threshold_ <= this->slot_capacity());
 #endif
                 }
-- 
2.43.0


From bdccbbaa5d4e056c074c434cb2915b9d4af6d10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 12/17] fix: group16 copy/move between tables of different
 capacity and const find() must compile

---
 src/jstd/hashmap/flat_map_iterator.hpp  | 4 ----
 src/jstd/hashmap/group16_flat_table.hpp | 8 +++++---
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/jstd/hashmap/flat_map_iterator.hpp b/src/jstd/hashmap/flat_map_iterator.hpp
index 63db61a..b304a50 100644
--- a/src/jstd/hashmap/flat_map_iterator.hpp
+++ b/src/jstd/hashmap/flat_map_iterator.hpp
@@ -217,10 +217,6 @@ public:
         return std::addressof(_slot->value);
     }
 
-    inline hashmap_type * hashmap() noexcept {
-        return this->hashmap_;
-    }
-
     inline const hashmap_type * hashmap() const noexcept {
         return this->hashmap_;
     }
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index f811fa2..416f403 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2312,7 +2312,8 @@ private:
 
     JSTD_FORCED_INLINE
     void unique_insert(iterator first, iterator last) {
-        this_type * other = first.hashmap();
+        const this_type * other = first.hashmap();
+        JSTD_UNUSED(other);
         assert(other != nullptr);
         assert(other != this);
         for (; first != last; ++first) {
@@ -2323,7 +2324,8 @@ private:
 
     JSTD_FORCED_INLINE
     void move_unique_insert(iterator first, iterator last) {
-        this_type * other = first.hashmap();
+        const this_type * other = first.hashmap();
+        JSTD_UNUSED(other);
         assert(other != nullptr);
         assert(other != this);
         for (; first != last; ++first) {
@@ -2336,7 +2338,7 @@ private:
     void move_unique_insert(group16_flat_table & other, iterator first, iterator last) {
         for (; first != last; ++first) {
             slot_type * old_slot = first.slot();
-            this->no_grow_unique_transfer_insert(other, old_slot);
+            this->no_grow_unique_transfer_insert(&other, old_slot);
         }
     }
 
-- 
2.43.0


From be28478805e187758a5431ac9d3d710aef382925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 13/17] fix: group15/16 erase(iterator), erase(first, last) and
 std::erase_if() must compile and erase each element

---
 src/jstd/hashmap/group15_flat_map.hpp   | 36 +++++++++----------------
 src/jstd/hashmap/group15_flat_table.hpp |  3 ++-
 src/jstd/hashmap/group16_flat_map.hpp   | 30 ++++++++-------------
 3 files changed, 26 insertions(+), 43 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index fd86e49..4cb1ab8 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -618,35 +618,26 @@ public:
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(iterator pos) {
+    iterator erase(iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(const_iterator pos) {
+    iterator erase(const_iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
     iterator erase(iterator first, iterator last) {
-        iterator iter = first;
-        if (JSTD_LIKELY(iter.slots() >= this->slots() &&
-                        iter.slots() < this->last_slot())) {
-            for (; iter != last; ++iter) {
-                this->erase(iter);
-            }
-        } else {
-            for (; iter != last; ++iter) {
-                const slot_type * slot = iter.slots();
-                this->erase(slot->get_key());
-            }
+        while (first != last) {
+            first = table_.erase(first);
         }
-        return { last };
+        return first;
     }
 
     JSTD_FORCED_INLINE
     iterator erase(const_iterator first, const_iterator last) {
-        return this->erase(first, last);
+        return this->erase(iterator(first), iterator(last));
     }
 
     template <typename InputIter, typename std::enable_if<
@@ -655,9 +646,8 @@ public:
     JSTD_FORCED_INLINE
     size_type erase(InputIter first, InputIter last) {
         size_type num_deleted = 0;
-        iterator iter = first;
-        for (; iter != last; ++iter) {
-            num_deleted += static_cast<size_type>(this->erase(*iter));
+        for (; first != last; ++first) {
+            num_deleted += static_cast<size_type>(this->erase(*first));
         }
         return num_deleted;
     }
@@ -722,13 +712,13 @@ erase_if(jstd::group15_flat_map<Key, Value, Hash, KeyEqual, Alloc> & hash_map, P
 {
     auto old_size = hash_map.size();
 
-    auto first = hash_map.begin();
+    auto iter = hash_map.begin();
     auto last = hash_map.end();
-    auto iter = last;
-    while (iter != first) {
-        --iter;
+    while (iter != last) {
         if (pred(*iter)) {
-            hash_map.erase(iter);
+            iter = hash_map.erase(iter);
+        } else {
+            ++iter;
         }
     }
 
diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index dce825a..7919b15 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1011,7 +1011,8 @@ public:
 
     JSTD_FORCED_INLINE
     iterator erase(iterator pos) {
-        locator_t & locator = pos.locator();
+        size_type ctrl_index = this->index_of(pos.ctrl());
+        locator_t locator(this->group_at(ctrl_index / kGroupWidth), ctrl_index % kGroupWidth, pos.slot());
         this->erase_slot(locator);
         locator.increment();
         return { locator };
diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index 142b037..87277eb 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -615,34 +615,26 @@ public:
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(iterator pos) {
+    iterator erase(iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(const_iterator pos) {
+    iterator erase(const_iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
     iterator erase(iterator first, iterator last) {
-        iterator iter = first;
-        if (JSTD_LIKELY(iter.hashmap() == this)) {
-            for (; iter != last; ++iter) {
-                this->erase(iter);
-            }
-        } else {
-            for (; iter != last; ++iter) {
-                const slot_type * slot = iter.slots();
-                this->erase(slot->get_key());
-            }
+        while (first != last) {
+            first = table_.erase(first);
         }
-        return { last };
+        return first;
     }
 
     JSTD_FORCED_INLINE
     iterator erase(const_iterator first, const_iterator last) {
-        return this->erase(first, last);
+        return this->erase(iterator(first), iterator(last));
     }
 
     template <typename InputIter, typename std::enable_if<
@@ -718,13 +710,13 @@ erase_if(jstd::group16_flat_map<Key, Value, Hash, KeyEqual, Alloc> & hash_map, P
 {
     auto old_size = hash_map.size();
 
-    auto first = hash_map.begin();
+    auto iter = hash_map.begin();
     auto last = hash_map.end();
-    auto iter = last;
-    while (iter != first) {
-        --iter;
+    while (iter != last) {
         if (pred(*iter)) {
-            hash_map.erase(iter);
+            iter = hash_map.erase(iter);
+        } else {
+            ++iter;
         }
     }
 
-- 
2.43.0


From fb15a65e8b138ceb847dae48bf891e05f82148e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 14/17] fix: group15/16 must compile with assertions enabled

---
 src/jstd/hashmap/group15_flat_table.hpp | 2 +-
 src/jstd/support/Power2.h               | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 7919b15..1c63915 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1461,7 +1461,7 @@ private:
         assert(ctrl != nullptr);
         assert(ctrl >= this->ctrls());
         size_type ctrl_index = static_cast<size_type>(ctrl - this->ctrls());
-        assert(is_positive(index));
+        assert(is_positive(ctrl_index));
         return ctrl_index;
     }
 
diff --git a/src/jstd/support/Power2.h b/src/jstd/support/Power2.h
index bb4acef..3dedd07 100644
--- a/src/jstd/support/Power2.h
+++ b/src/jstd/support/Power2.h
@@ -196,7 +196,7 @@ round_down(SizeType N)
                   "Error: pow2::round_down(SizeType n) -- n must be a integral type.");
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
-#ifdef _DEBUG
+#ifndef NDEBUG
     typedef typename std::make_signed<SizeType>::type   signed_type;
 #endif
     unsigned_type n = static_cast<unsigned_type>(N);
@@ -259,7 +259,7 @@ round_up(SizeType N)
                   "Error: pow2::round_up(SizeType n) -- n must be a integral type.");
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
-#ifdef _DEBUG
+#ifndef NDEBUG
     typedef typename std::make_signed<SizeType>::type   signed_type;
 #endif
     unsigned_type n = static_cast<unsigned_type>(N);
@@ -332,7 +332,7 @@ log2_int(SizeType N)
                   "Error: pow2::log2_int(SizeType n) -- n must be a integral type.");
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
-#ifdef _DEBUG
+#ifndef NDEBUG
     typedef typename std::make_signed<SizeType>::type   signed_type;
 #endif
     unsigned_type n = static_cast<unsigned_type>(N);
-- 
2.43.0


From 1e47a43eefadab1b114ee1bc77fca11619525251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 15/17] fix: group16 create_slots leaked the group array when
 the slot allocation throws

---
 src/jstd/hashmap/group16_flat_table.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 416f403..8b07a0a 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -1951,7 +1951,13 @@ private:
             group_type * new_groups_alloc = GroupAllocTraits::allocate(this->group_allocator_, total_group_alloc_count);
             group_type * new_groups = this->AlignedGroups<kGroupAlignment>(new_groups_alloc);
 
-            slot_type * new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_slot_capacity);
+            slot_type * new_slots;
+            try {
+                new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_slot_capacity);
+            } catch (...) {
+                GroupAllocTraits::deallocate(this->group_allocator_, new_groups_alloc, total_group_alloc_count);
+                throw;
+            }
 #else
             size_type total_slot_alloc_count = this->TotalSlotAllocCount<kGroupAlignment>(new_group_capacity, new_slot_capacity);
 
-- 
2.43.0


From 0bf696f637cfdb051aa9de90beced6804bfde0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 16/17] fix: group15/16 reserve(n) chose capacities whose
 threshold is less than n, so inserting n elements rehashed again

---
 src/jstd/hashmap/group15_flat_table.hpp | 10 +++++++---
 src/jstd/hashmap/group16_flat_table.hpp | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 1c63915..5192bff 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -729,9 +729,13 @@ public:
     // Effectively calls rehash(std::ceil(new_capacity / max_load_factor())).
     //
     JSTD_FORCED_INLINE
-    void reserve(size_type new_capacity) {
-        if (JSTD_LIKELY(new_capacity != 0)) {
-            new_capacity = this->shrink_to_fit_capacity(new_capacity);
+    void reserve(size_type count) {
+        if (JSTD_LIKELY(count != 0)) {
+            size_type new_capacity = this->calc_capacity(this->shrink_to_fit_capacity(count));
+            // The threshold of that capacity may be less than count, because it's rounded down and excludes the unused ctrls.
+            if (this->calc_slot_threshold(this_type::calc_slot_capacity(this_type::calc_group_capacity(new_capacity))) < count) {
+                new_capacity *= 2;
+            }
             this->rehash_impl<false>(new_capacity);
         } else if (this->empty()) {
             this->destroy<true>();
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 8b07a0a..f507fe1 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -665,9 +665,13 @@ public:
     // Effectively calls rehash(std::ceil(new_capacity / max_load_factor())).
     //
     JSTD_FORCED_INLINE
-    void reserve(size_type new_capacity) {
-        if (JSTD_LIKELY(new_capacity != 0)) {
-            new_capacity = this->shrink_to_fit_capacity(new_capacity);
+    void reserve(size_type count) {
+        if (JSTD_LIKELY(count != 0)) {
+            size_type new_capacity = this->calc_capacity(this->shrink_to_fit_capacity(count));
+            // The threshold of that capacity may be less than count, because it's rounded down.
+            if (this->calc_slot_threshold(new_capacity) < count) {
+                new_capacity *= 2;
+            }
             this->rehash_impl<false>(new_capacity);
         } else if (this->empty()) {
             this->destroy<true>();
-- 
2.43.0


From 82d3abaee8554d9fb17af11ee271ac0537501c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:29 +0000
Subject: [PATCH 17/17] fix: group15 clear() of a map without arrays wrote to
 the shared, constant empty groups

---
 src/jstd/hashmap/group15_flat_table.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 5192bff..3c73c06 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1594,8 +1594,10 @@ private:
         this->clear_slots();
         this->clear_groups(this->groups(), this->group_capacity());
 
-        // Set the sentinel mark
-        this_type::set_sentinel_mark(this->groups(), this->group_capacity());
+        // Set the sentinel mark (the shared empty groups have it, and are read only)
+        if (this->groups() != this_type::default_empty_groups()) {
+            this_type::set_sentinel_mark(this->groups(), this->group_capacity());
+        }
     }
 
     JSTD_FORCED_INLINE
-- 
2.43.0

