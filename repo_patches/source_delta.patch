From 87f54e39f881e87b27f46f2ba0a29846e05d6b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:38 +0000
Subject: [PATCH 01/16] fix: do not shift a run past its canonical slot when
 deleting an infix

When the leftmost run of a trailing cluster started exactly at its canonical
slot, a deletion shifted it one slot to the right, leaving the canonical slot
empty; a later insertion of another run then landed on the wrong side of it and
corrupted the store (false negatives).
---
 include/diva.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index ff0087e..d3b763c 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -2459,7 +2459,7 @@ inline void Diva<int_optimized>::DeleteRawFromInfixStore(InfixStore &store, cons
         if (cur_runend < 0) {
             const uint32_t mapped_pos = GetMappedPos(cur_occupied, size_grade, implicit_scalar);
             const int32_t first_empty_slot_before = FindEmptySlotBefore(store, runend_pos);
-            shift_start = (first_empty_slot_before < mapped_pos ? first_empty_slot_before : shift_start);
+            shift_start = (first_empty_slot_before + 1 < mapped_pos ? first_empty_slot_before + 1 : shift_start);
         }
     }
     else {
-- 
2.43.0


From d45b5b367ebc1e99049eb6138d29aca2650cedeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:38 +0000
Subject: [PATCH 02/16] fix: bulk loading n keys with n = 1 (mod 1024)

BulkLoad and BulkLoadFixedLength did not terminate (both boundary keys were the
last key), and BulkLoadStreamingFinish dropped the last key.
---
 include/diva.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/diva.hpp b/include/diva.hpp
index d3b763c..ab59399 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1787,6 +1787,10 @@ inline void Diva<int_optimized>::BulkLoadFixedLength(const t_itr begin, const t_
     else
         right_key = {reinterpret_cast<const uint8_t *>(&(*key_it)), key_len};
     const bool add_last_key = key_it != last_key_it;
+    if (!add_last_key) {    // The last key is already the left boundary key
+        AddTreeKey(left_key.str, left_key.length);
+        return;
+    }
 
     auto [shared, ignore, implicit_size] = GetSharedIgnoreImplicitLengths(left_key, right_key);
     const uint64_t prev_implicit = ExtractPartialKey(left_key, shared, ignore, implicit_size, 0) >> infix_size_;
@@ -1875,6 +1879,13 @@ inline void Diva<int_optimized>::BulkLoad(const t_itr begin, const t_itr end) {
     right_key = {reinterpret_cast<const uint8_t *>(sv.data()), 
                  static_cast<uint32_t>(sv.size())};
     const bool add_last_key = key_it != last_key_it;
+    if (!add_last_key) {    // The last key is already the left boundary key
+        AddTreeKey(left_key.str, left_key.length);
+        uint8_t max_str[max_len];
+        memset(max_str, 0xFF, max_len);
+        AddTreeKey(max_str, max_len);
+        return;
+    }
 
     auto [shared, ignore, implicit_size] = GetSharedIgnoreImplicitLengths(left_key, right_key);
     const uint64_t prev_implicit = ExtractPartialKey(left_key, shared, ignore, implicit_size, 0) >> infix_size_;
@@ -1996,6 +2007,8 @@ inline void Diva<int_optimized>::BulkLoadStreamingFinish() {
         AddTreeKey(bulk_load_right_key.str, bulk_load_right_key.length);
         delete[] bulk_load_right_key.str;
     }
+    else if (bulk_load_left_key_.str != nullptr)
+        AddTreeKey(bulk_load_left_key_.str, bulk_load_left_key_.length);
 
     delete[] bulk_load_left_key_.str;
     bulk_load_streaming_ind_ = 0;
-- 
2.43.0


From fc4ce11d92c750848bbe433a9b82f416ea038c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:38 +0000
Subject: [PATCH 03/16] fix: keep the infixes after a streamed all-zero key

BulkLoadStreamingFinish overwrote the infix store of an all-zero boundary key
with an empty one, losing up to 1023 keys.
---
 include/diva.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index ab59399..184dea8 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1978,7 +1978,13 @@ template <bool int_optimized>
 inline void Diva<int_optimized>::BulkLoadStreamingFinish() {
     uint8_t *key_copy = new uint8_t[bulk_load_streaming_max_len_];
     memset(key_copy, 0x00, bulk_load_streaming_max_len_);
-    AddTreeKey(key_copy, bulk_load_streaming_max_len_);
+    bool min_key_loaded;
+    if constexpr (int_optimized)
+        min_key_loaded = wh_int_probe(better_tree_int_, key_copy, bulk_load_streaming_max_len_);
+    else
+        min_key_loaded = wh_probe(better_tree_, key_copy, bulk_load_streaming_max_len_);
+    if (!min_key_loaded)
+        AddTreeKey(key_copy, bulk_load_streaming_max_len_);
     memset(key_copy, 0xFF, bulk_load_streaming_max_len_);
     AddTreeKey(key_copy, bulk_load_streaming_max_len_);
 
-- 
2.43.0


From d0756e844a84d096a96c9ba770fde7ef9c69cac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:38 +0000
Subject: [PATCH 04/16] fix: shrinking the infix size of stores of any size
 grade

The new slots were written at the offset of the default size grade (heap
corruption for the others), and the last eight runend bits were cleared when
the bitmaps ended on a byte boundary.
---
 include/diva.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 184dea8..047513a 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -2706,13 +2706,14 @@ inline void Diva<int_optimized>::ShrinkInfixStoreInfixSize(InfixStore &store, co
     const uint32_t infix_count = store.GetElemCount();
     const uint32_t slot_count = scaled_sizes_[size_grade];
 
-    InfixStore new_store(slot_count, new_infix_size);
+    InfixStore new_store(slot_count, new_infix_size, size_grade);
 
     // Copy the occupieds and runends bitmaps
     const uint32_t total_bitmap_size = 64 + infix_store_target_size + scaled_sizes_[size_grade];
     memcpy(new_store.ptr, store.ptr, (total_bitmap_size + 7) / 8);
     uint8_t *new_store_byte_ptr = reinterpret_cast<uint8_t *>(new_store.ptr);
-    new_store_byte_ptr[(total_bitmap_size + 7) / 8 - 1] &= BITMASK(total_bitmap_size % 8);
+    if (total_bitmap_size % 8)
+        new_store_byte_ptr[(total_bitmap_size + 7) / 8 - 1] &= BITMASK(total_bitmap_size % 8);
 
     for (int32_t i = 0; i < slot_count; i++) {
         const uint64_t old_slot = GetSlot(store, i);
-- 
2.43.0


From 1c6c4b2bba53a2029099af3cefa288c9c173daea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:38 +0000
Subject: [PATCH 05/16] fix: delete a partial boundary key only for keys it is
 a prefix of

Deleting a key with a short infix removed an unrelated partial boundary key,
making the key it stood for a false negative.
---
 include/diva.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 047513a..5994efe 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1537,7 +1537,7 @@ inline void Diva<int_optimized>::Delete(const uint8_t *input_key, const uint32_t
     const uint32_t total_implicit = next_implicit - prev_implicit + 1;
     const uint64_t deletee = ((extraction | 1ULL) - (prev_implicit << infix_size_));
 
-    if (infix_store.IsPartialKey()) {
+    if (infix_store.IsPartialKey() && prev_key.IsPrefixOf(key, infix_store.GetInvalidBits())) {
         const uint32_t longest_match_len = GetLongestMatchingInfixSize(infix_store, deletee);
         if (longest_match_len == 0 || 8 * prev_key.length - infix_store.GetInvalidBits() 
                                         > shared + ignore + implicit_size + longest_match_len - 1) {
-- 
2.43.0


From 33e78af2610ceb70ca1a3e6ca08c36b88fb241b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:38 +0000
Subject: [PATCH 06/16] fix: allocate room for the 64-bit accesses to the last
 slots

GetSlot and SetSlot access eight bytes from the byte a slot starts in, and the
slot after the last one is probed, which overran the allocation.
---
 include/diva.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 5994efe..772ba68 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -180,7 +180,7 @@ private:
         }
 
         static uint32_t GetPtrWordCount(const uint32_t slot_count, const uint32_t slot_size) {
-            return 1 + (Diva::infix_store_target_size + slot_count * (slot_size + 1) + 63) / 64;
+            return 2 + (Diva::infix_store_target_size + slot_count * (slot_size + 1) + 63) / 64;
         }
 
         uint32_t GetElemCount() const {
-- 
2.43.0


From d118150dddd842a3886ece4a4d9e64ce5f1f092b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:19 +0000
Subject: [PATCH 07/16] fix: make a deserialized filter own its memory

The stores pointed into the caller's buffer and were freed with delete[], the
load factor of the serialized filter was ignored, and long boundary keys
overran a fixed-size buffer.
---
 include/diva.hpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 772ba68..9573c25 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -233,7 +233,7 @@ private:
     wormref_int *better_tree_int_;
     std::mt19937 rng_;
     uint32_t rng_seed_;
-    const float load_factor_ = 0.95;
+    float load_factor_ = 0.95;
     const float load_factor_alt_ = 0.95;
     uint64_t size_scalars_[size_scalar_count], scaled_sizes_[size_scalar_count], exception_scaled_size_;
     uint64_t implicit_scalars_[infix_store_target_size / 2 + 1];
@@ -1286,18 +1286,13 @@ inline Diva<int_optimized>::Diva(char *deser_buf):
     }
     SetupScaleFactors();
 
-    const uint32_t max_key_length = 20000;
-    char key[max_key_length];
     uint32_t key_length;
     InfixStore store;
 
     memcpy(&key_length, deser_buf + ind, sizeof(key_length));
     ind += sizeof(key_length);
     while (key_length != std::numeric_limits<uint32_t>::max()) {
-#ifdef DEBUG
-        assert(key_length < max_key_length);
-#endif
-        memcpy(key, deser_buf + ind, key_length);
+        const char *key = deser_buf + ind;
         const uint32_t rounded_key_len = ((key_length + 7) / 8) * 8;
         ind += rounded_key_len;
         ind += DeserializeInfixStore(deser_buf + ind, store);
@@ -1391,8 +1386,7 @@ inline uint32_t Diva<int_optimized>::DeserializeMetadata(char *deser_buf) {
     assert(buf32 == size_scalar_shrink_grow_sep && "Mismatched Diva version");
     res += sizeof(size_scalar_shrink_grow_sep);
 
-    memcpy(&buf_float, deser_buf + res, sizeof(load_factor_));
-    assert(buf_float == load_factor_ && "Mismatched Diva version");
+    memcpy(&load_factor_, deser_buf + res, sizeof(load_factor_));
     res += sizeof(load_factor_);
 
     memcpy(&buf_float, deser_buf + res, sizeof(load_factor_alt_));
@@ -1424,9 +1418,8 @@ template <bool int_optimized>
 inline uint32_t Diva<int_optimized>::DeserializeInfixStore(char *deser_buf, Diva<int_optimized>::InfixStore& store) const {
     memcpy(&store.status, deser_buf, sizeof(store.status));
     const uint32_t word_count = store.GetPtrWordCount(scaled_sizes_[store.GetSizeGrade()], infix_size_);
-    store.ptr = reinterpret_cast<uint64_t *>(deser_buf + sizeof(store.status));
-    //store.ptr = new uint64_t[word_count];
-    //memcpy(store.ptr, deser_buf + sizeof(store.status), word_count * sizeof(uint64_t));
+    store.ptr = new uint64_t[word_count];
+    memcpy(store.ptr, deser_buf + sizeof(store.status), word_count * sizeof(uint64_t));
     return sizeof(store.status) + word_count * sizeof(uint64_t);
 }
 
-- 
2.43.0


From 334ad9edc9260e699a0565e35b101a3e7686f523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:17 +0000
Subject: [PATCH 08/16] fix: keep the leaves of the wormhole aligned to 64
 bytes

The low 6 bits of leaf pointers are cleared when they are loaded from the
metadata, but a leaf takes 352 bytes since it holds 32 keys: leaves other than the
first were not recognised when merged, and lookups reached freed leaves.
---
 include/wormhole/wh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wormhole/wh.c b/include/wormhole/wh.c
index 36b2036..520b591 100644
--- a/include/wormhole/wh.c
+++ b/include/wormhole/wh.c
@@ -62,7 +62,7 @@ struct wormleaf {
 
   struct entry13 hs[WH_KPN]; // sorted by hashes
   u8 ss[WH_KPN]; // sorted by keys
-};
+} __attribute__((aligned(64))); // wormmeta_lmost_load() clears the low 6 bits of leaf pointers
 
 struct wormslot { u16 t[WH_BKT_NR]; };
 static_assert(sizeof(struct wormslot) == 16, "sizeof(wormslot) != 16");
-- 
2.43.0


From 87d5546d60110dbe045be6cc66605e4173e712e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:51 +0000
Subject: [PATCH 09/16] fix: count the sorted keys of merged integer leaves
 once

wormleaf_int_insert_isp() already counts keys appended in order, so that
nr_sorted exceeded nr_keys after a merge and lookups read past the keys.
---
 include/wormhole/wh_int.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index 372131f..4e385d2 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -1864,7 +1864,7 @@ wormleaf_merge(struct wormleaf_int * const leaf1, struct wormleaf_int * const le
   const bool leaf1_sorted = leaf1->nr_keys == leaf1->nr_sorted;
 
   for (u32 i = 0; i < leaf2->nr_keys; i++)
-    wormleaf_int_insert_isp(leaf1, leaf2->kvs + i);
+    leaf1->kvs[leaf1->nr_keys++] = leaf2->kvs[i];
   if (leaf1_sorted)
     leaf1->nr_sorted += leaf2->nr_sorted;
   return true;
-- 
2.43.0


From 66f9893014d92ec82d25792b6490435adbbf8158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:51 +0000
Subject: [PATCH 10/16] fix: find the keys of an integer leaf that are not
 sorted yet

Deletions missed them, and insertions duplicated them.
---
 include/wormhole/wh_int.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index 4e385d2..67835a6 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -1436,8 +1436,12 @@ wormleaf_int_search_eq(const struct wormleaf_int * const leaf, const struct kref
     lo = cmp <= 0 ? lo : i;
     hi = cmp <= 0 ? i : hi;
   }
-  u32 res = (hi < leaf->nr_keys && compare_int_isp(search_key, key->len, leaf->kvs + hi) == 0) ? hi : WH_KPN;
-  return res;
+  if (hi < leaf->nr_sorted && compare_int_isp(search_key, key->len, leaf->kvs + hi) == 0)
+    return hi;
+  for (u32 i = leaf->nr_sorted; i < leaf->nr_keys; i++) // not sorted yet
+    if (compare_int_isp(search_key, key->len, leaf->kvs + i) == 0)
+      return i;
+  return WH_KPN;
 }
 
 
-- 
2.43.0


From 6c0c58c66dd9da154d9c931a1b6a85aa66bb70bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:27 +0000
Subject: [PATCH 11/16] fix: read the right boundary key before its leaf may
 change

Deleting the middle key moves other keys of an integer leaf, so that the
number of implicit values was computed for a different right boundary.
---
 include/diva.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 9573c25..590089e 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1615,6 +1615,10 @@ inline void Diva<int_optimized>::DeleteMerge(void *const it_inp) {
     }
 #endif
 
+    const uint64_t left_extraction = ExtractPartialKey(left_key, shared, ignore, implicit_size, 0);
+    const uint64_t right_extraction = ExtractPartialKey(right_key, shared, ignore, implicit_size, 1);
+    const uint32_t total_implicit = ((right_extraction >> infix_size_) - (left_extraction >> infix_size_)) + 1;
+
     delete[] store_l->ptr;
     delete[] store_r->ptr;
     if constexpr (int_optimized)
@@ -1622,10 +1626,6 @@ inline void Diva<int_optimized>::DeleteMerge(void *const it_inp) {
     else
         wh_del(better_tree_, middle_key.str, middle_key.length);
 
-    const uint64_t left_extraction = ExtractPartialKey(left_key, shared, ignore, implicit_size, 0);
-    const uint64_t right_extraction = ExtractPartialKey(right_key, shared, ignore, implicit_size, 1);
-    const uint32_t total_implicit = ((right_extraction >> infix_size_) - (left_extraction >> infix_size_)) + 1;
-
     InfixStore store = AllocateInfixStoreWithList(infix_list, total_elem_count, total_implicit);
     store.SetPartialKey(store_l->IsPartialKey());
     store.SetInvalidBits(store_l->GetInvalidBits());
-- 
2.43.0


From c74ba50870c307cc7c5d43ab4a04b98dd10847dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:27 +0000
Subject: [PATCH 12/16] fix: count the padding of short boundary keys in the
 size

Size() was smaller than what Serialize() writes for integer filters with
partial boundary keys.
---
 include/diva.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 590089e..970ba30 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1118,7 +1118,8 @@ inline uint32_t Diva<int_optimized>::Size() const {
         for (wh_int_iter_seek(&it_int, nullptr, 0); wh_int_iter_valid(&it_int); wh_int_iter_skip1(&it_int)) {
             wh_int_iter_peek_ref(&it_int, reinterpret_cast<const void **>(&tree_key), &tree_key_len, 
                                           reinterpret_cast<void **>(&store), &dummy);
-            res += sizeof(tree_key_len) + tree_key_len;
+            const uint32_t rounded_tree_key_len = ((tree_key_len + 7) / 8) * 8;
+            res += sizeof(rounded_tree_key_len) + rounded_tree_key_len;
             const uint32_t word_count = store->GetPtrWordCount(scaled_sizes_[store->GetSizeGrade()], infix_size_);
             res += sizeof(store->status) + word_count * sizeof(uint64_t);
         }
-- 
2.43.0


From 578bbc058d5a5a08c19d58c054870a3ca519a2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:24 +0000
Subject: [PATCH 13/16] fix: do not split at a cut key that equals the left
 boundary key

InsertSplit searched for the first bit in which the left boundary key and the
cut new key differ without end when, padded with zeros, they are equal.
---
 include/diva.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/diva.hpp b/include/diva.hpp
index 970ba30..e8820f5 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -848,6 +848,16 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
     if (zero_pos != -1)
         extraction = ExtractPartialKey(edited_key, shared, ignore, implicit_size, edited_key.GetBit(shared));
 
+    if (zero_pos != -1) {
+        bool same_as_prev_key = true;
+        for (uint32_t i = 0; i < std::max(prev_key.length, edited_key.length) && same_as_prev_key; i += sizeof(uint64_t))
+            same_as_prev_key = prev_key.WordAt(i) == edited_key.WordAt(i);
+        if (same_as_prev_key) {
+            InsertSimple(key);
+            return;
+        }
+    }
+
     const uint32_t shared_word_byte = (shared / 64) * 8;
 
     auto [shared_lt, ignore_lt, implicit_size_lt] = GetSharedIgnoreImplicitLengths(
-- 
2.43.0


From cf3e110747ee24cd1d4159ebcb231591a5b6f805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:35 +0000
Subject: [PATCH 14/16] fix: keep the leading bit of merged infixes wider than
 32 bits

GetBit returns 32 bits, so the bit shared by both stores was shifted out when
implicit size + infix size exceeded 32 (infix sizes of 22 and more).
---
 include/diva.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index e8820f5..adb1c83 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1697,7 +1697,7 @@ inline void Diva<int_optimized>::UpdateInfixListDelete(const uint32_t shared, co
                                                              : (infix_list[i] >> (old_infix_size - new_infix_size))
                                                                     | (infix_list[i] & 1ULL));
             uint32_t recovered_bit_cnt = 1, recovery_bits = 1;
-            uint64_t recovered_infix = left_key.GetBit(shared) << (new_infix_size - recovered_bit_cnt);
+            uint64_t recovered_infix = static_cast<uint64_t>(left_key.GetBit(shared)) << (new_infix_size - recovered_bit_cnt);
             
             recovery_bits = std::min(old_shared - shared - ignore - 1, new_infix_size - recovered_bit_cnt);
             recovered_bit_cnt += recovery_bits;
-- 
2.43.0


From ee059c4ccf0e7c0db90ff504184e7582cd8efea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:07 +0000
Subject: [PATCH 15/16] fix: keep merged infix lists sorted when cut-short
 infixes overlap

---
 include/diva.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/diva.hpp b/include/diva.hpp
index adb1c83..52ca858 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1618,6 +1618,15 @@ inline void Diva<int_optimized>::DeleteMerge(void *const it_inp) {
     for (int32_t i = 0; i < total_elem_count; i++)
         infix_list[i] -= implicit << infix_size_;
 
+    // Infixes cut short by the merge can overlap the ones from the other store.
+    auto comp = [](uint64_t a, uint64_t b) {
+                    const uint64_t a_lb = a & (-a), b_lb = b & (-b);
+                    const uint64_t a_nolb = a - a_lb;
+                    const uint64_t b_nolb = b - b_lb;
+                    return a_nolb < b_nolb || (a_nolb == b_nolb && a_lb > b_lb);
+                };
+    std::sort(infix_list, infix_list + total_elem_count, comp);
+
 #ifdef DEBUG
     for (int32_t i = 1; i < total_elem_count; i++) {
         const uint64_t prev_l = infix_list[i - 1] - (infix_list[i - 1] & -infix_list[i - 1]);
-- 
2.43.0


From f6a9634da73fca4e46f6314f24ffe9407a145023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:39 +0000
Subject: [PATCH 16/16] fix: do not split a store whose rescaled infixes would
 overflow or blow up

---
 include/diva.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 52ca858..b700289 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -92,6 +92,7 @@ private:
     static constexpr uint32_t scale_shift = 15;
     static constexpr uint32_t scale_implicit_shift = 15;
     static constexpr uint32_t size_scalar_count = 500;
+    static constexpr uint32_t max_expanded_list_len = 16 * infix_store_target_size;
     static constexpr uint32_t size_scalar_shrink_grow_sep = 55; // vs. 55 for load_factor_alt_=0.95
 
     struct InfiniteByteString {
@@ -890,22 +891,35 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
         return;
     }
 
+    // The rescaled infixes must fit in a word
+    if ((split_pos > 0 && implicit_size + infix_size_ + shamt_lt > 64)
+            || (split_pos < infix_list_len && implicit_size + infix_size_ + shamt_gt > 64)) {
+        InsertSimple(key);
+        return;
+    }
+
     const auto [left_list_len, left_exp] = GetExpandedInfixListLength(infix_list,
                                                                       split_pos,
                                                                       implicit_size,
                                                                       shamt_lt,
                                                                       left_start, left_end);
+    const auto [right_list_len, right_exp] = GetExpandedInfixListLength(infix_list + split_pos,
+                                                                        infix_list_len - split_pos,
+                                                                        implicit_size,
+                                                                        shamt_gt,
+                                                                        right_start, right_end);
+    // Expanding cut-short infixes must not blow up the new stores
+    if (std::max(left_list_len, right_list_len) > max_expanded_list_len) {
+        InsertSimple(key);
+        return;
+    }
+
     uint64_t left_infix_list[left_list_len];
     UpdateInfixList(infix_list, split_pos, shamt_lt,
                     left_start, left_end,
                     left_infix_list, left_list_len,
                     left_exp);
 
-    const auto [right_list_len, right_exp] = GetExpandedInfixListLength(infix_list + split_pos,
-                                                                        infix_list_len - split_pos,
-                                                                        implicit_size,
-                                                                        shamt_gt,
-                                                                        right_start, right_end);
     uint64_t right_infix_list[right_list_len];
     UpdateInfixList(infix_list + split_pos, infix_list_len - split_pos, shamt_gt,
                     right_start, right_end,
-- 
2.43.0

