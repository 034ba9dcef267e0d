From c9341cd5bf6d874266d74f0bdc6578df186e3679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 01/22] fix: uniform-reduction test used the wrong number of
 hash values

For fewer than 128 hash bits the largest hash value was computed as
2^(128-hash_bits)-ish instead of 2^hash_bits - 1, and moduli wider than 128
bits were judged by their low 128 bits only.
---
 distributed_vector_ole/internal/scalar_helpers.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/distributed_vector_ole/internal/scalar_helpers.h b/distributed_vector_ole/internal/scalar_helpers.h
index 897b3de..d58eb2e 100644
--- a/distributed_vector_ole/internal/scalar_helpers.h
+++ b/distributed_vector_ole/internal/scalar_helpers.h
@@ -123,15 +123,18 @@ struct ScalarHelperImpl<NTL::ZZ_p> {
     // Check that when reducing an absl::uint128 modulo T::modulus(), the result
     // is nearly uniform, i.e., the probability for any set of results is at
     // most 2^-statistical_security higher than in a uniform distribution.
+    if (NTLNumBits<NTL::ZZ_p>() > 128) {  // No hash reaches all residues.
+      return false;
+    }
     uint64_t modulus_low = NTL::conv<uint64_t>(NTL::ZZ_p::modulus());
     uint64_t modulus_high = NTL::conv<uint64_t>(NTL::ZZ_p::modulus() >> 64);
     absl::uint128 modulus = absl::MakeUint128(modulus_high, modulus_low);
-    if (modulus == 0) {  // Modulus is a multiple of 2**128
-      return true;
+    if (modulus == 0) {  // Modulus is 2**128
+      return hash_bits >= 128;
     }
     absl::uint128 max_value = absl::Uint128Max();
     if (hash_bits < 128) {
-      max_value /= (absl::uint128(1) << hash_bits);
+      max_value >>= 128 - hash_bits;  // 2**hash_bits - 1
     }
     absl::uint128 rem = ((max_value % modulus) + 1) % modulus;
     return hash_bits - std::log2(double(rem)) > statistical_security;
@@ -157,7 +160,7 @@ struct ScalarHelperImpl<NTL::zz_p> {
                                           // to fit in a long.
     absl::uint128 max_value = absl::Uint128Max();
     if (hash_bits < 128) {
-      max_value /= (absl::uint128(1) << hash_bits);
+      max_value >>= 128 - hash_bits;  // 2**hash_bits - 1
     }
     absl::uint128 rem = ((max_value % modulus) + 1) % modulus;
     return hash_bits - std::log2(double(rem)) > statistical_security;
-- 
2.43.0


From 1f526c7b0eba7b9e35025a19ae668e2e4dfd969e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 02/22] fix: odd buffer sizes left the last buffer element
 unrandomized

The buffer is refilled in blocks of two elements, so the last element of an
odd-sized buffer was never written.
---
 distributed_vector_ole/aes_uniform_bit_generator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/distributed_vector_ole/aes_uniform_bit_generator.cpp b/distributed_vector_ole/aes_uniform_bit_generator.cpp
index a937610..801a4af 100644
--- a/distributed_vector_ole/aes_uniform_bit_generator.cpp
+++ b/distributed_vector_ole/aes_uniform_bit_generator.cpp
@@ -20,6 +20,7 @@ mpc_utils::StatusOr<AESUniformBitGenerator> AESUniformBitGenerator::Create(
   if (buffer_size < 2) {
     buffer_size = 2;
   }
+  buffer_size += buffer_size % 2;  // Each AES call fills two elements.
   AESUniformBitGenerator result(buffer_size);
   RETURN_IF_ERROR(result.seed(seed));
   return result;
-- 
2.43.0


From ab8bac153594860abbe7f8be9700bee09be12dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 03/22] fix: seed bytes at unaligned addresses were read as an
 aligned 128-bit integer

---
 distributed_vector_ole/aes_uniform_bit_generator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/distributed_vector_ole/aes_uniform_bit_generator.cpp b/distributed_vector_ole/aes_uniform_bit_generator.cpp
index 801a4af..eb23966 100644
--- a/distributed_vector_ole/aes_uniform_bit_generator.cpp
+++ b/distributed_vector_ole/aes_uniform_bit_generator.cpp
@@ -1,5 +1,6 @@
 #include "distributed_vector_ole/aes_uniform_bit_generator.h"
 
+#include <cstring>
 #include <stdexcept>
 
 #include "absl/strings/str_cat.h"
@@ -36,8 +37,8 @@ mpc_utils::Status AESUniformBitGenerator::seed(absl::Span<const uint8_t> seed) {
                &expanded_key_)) {  // Use first 16 bytes of seed as key.
     return mpc_utils::InternalError(ERR_reason_error_string(ERR_get_error()));
   }
-  nonce_ = *(reinterpret_cast<const absl::uint128 *>(
-      seed.data() + 16));  // Use second 16 bytes of seed as nonce.
+  // Use second 16 bytes of seed as nonce. `seed` may have any alignment.
+  std::memcpy(&nonce_, seed.data() + 16, sizeof(nonce_));
   counter_ = 0;            // Reset counter.
   elements_used_ = static_cast<int64_t>(buffer_.size());  // Reset buffer.
   return mpc_utils::OkStatus();
-- 
2.43.0


From 7e204884431e992c23aa2d3f97acac45bbfd2080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 04/22] fix: GGM trees had a level too many for some powers of
 the arity

The number of levels was computed with floating-point logarithms, e.g. 5
instead of 4 for 125 leaves and arity 5, so that rebuilding a tree from the
documented number of sums aborted.
---
 distributed_vector_ole/all_but_one_random_ot.cpp |  3 +--
 distributed_vector_ole/ggm_tree.cpp              | 12 ++++++++++--
 distributed_vector_ole/ggm_tree.h                |  4 ++++
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/distributed_vector_ole/all_but_one_random_ot.cpp b/distributed_vector_ole/all_but_one_random_ot.cpp
index c98edae..53f203a 100644
--- a/distributed_vector_ole/all_but_one_random_ot.cpp
+++ b/distributed_vector_ole/all_but_one_random_ot.cpp
@@ -75,8 +75,7 @@ AllButOneRandomOT::ReceiveTrees(absl::Span<const int64_t> num_leaves,
       continue;
     }
 
-    int num_levels = static_cast<int>(
-        1 + std::ceil(std::log(num_leaves[i]) / std::log(arity)));
+    int num_levels = GGMTree::NumLevels(arity, num_leaves[i]);
     offsets[i + 1] = offsets[i] + num_levels - 1;
     choices.resize(offsets[i + 1]);
 
diff --git a/distributed_vector_ole/ggm_tree.cpp b/distributed_vector_ole/ggm_tree.cpp
index 210eab5..fbe0ce6 100644
--- a/distributed_vector_ole/ggm_tree.cpp
+++ b/distributed_vector_ole/ggm_tree.cpp
@@ -39,8 +39,7 @@ namespace {
 // Allocates a tree of the given arity with the given number of leaves.
 mpc_utils::StatusOr<std::vector<std::vector<GGMTree::Block>>> AllocateLevels(
     int arity, int64_t num_leaves) {
-  int num_levels =
-      static_cast<int>(1 + std::ceil(std::log(num_leaves) / std::log(arity)));
+  int num_levels = GGMTree::NumLevels(arity, num_leaves);
   int64_t num_blocks_for_level;
   std::vector<std::vector<GGMTree::Block>> levels(num_levels);
   for (int i = num_levels - 1; i >= 0; i--) {
@@ -92,6 +91,15 @@ GGMTree::Block ComputePRG(const GGMTree::Block& seed, const AES_KEY& key) {
 
 }  // namespace
 
+int GGMTree::NumLevels(int arity, int64_t num_leaves) {
+  // Logarithms would be off by one for some powers of `arity`.
+  int num_levels = 1;
+  for (int64_t nodes = num_leaves; nodes > 1; nodes = (nodes - 1) / arity + 1) {
+    num_levels++;
+  }
+  return num_levels;
+}
+
 mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::Create(
     int64_t num_leaves, Block seed, std::vector<Block> keys) {
   int arity = static_cast<int>(keys.size());
diff --git a/distributed_vector_ole/ggm_tree.h b/distributed_vector_ole/ggm_tree.h
index 288b263..f575a15 100644
--- a/distributed_vector_ole/ggm_tree.h
+++ b/distributed_vector_ole/ggm_tree.h
@@ -79,6 +79,10 @@ class GGMTree {
       absl::Span<const std::vector<Block>> sibling_wise_xors,
       absl::Span<const Block> keys);
 
+  // Returns the number of levels (including root and leaves) of a tree with the
+  // given arity (at least 2) and number of leaves (at least 1).
+  static int NumLevels(int arity, int64_t num_leaves);
+
   // Returns the value at the `node_index`-th node at the given level.
   mpc_utils::StatusOr<Block> GetValueAtNode(int level_index,
                                             int64_t node_index) const;
-- 
2.43.0


From d95961d844d77afa98eab2a67dff4c4c34d0e199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 05/22] fix: rebuilding a GGM tree accepted negative indices
 and wrong shapes

A negative missing index, a number of keys other than the arity and too many
levels of sums led to out-of-bounds accesses or a failed assertion.
---
 distributed_vector_ole/ggm_tree.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/distributed_vector_ole/ggm_tree.cpp b/distributed_vector_ole/ggm_tree.cpp
index fbe0ce6..6f16110 100644
--- a/distributed_vector_ole/ggm_tree.cpp
+++ b/distributed_vector_ole/ggm_tree.cpp
@@ -138,6 +138,10 @@ mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::CreateFromSiblingWiseXOR(
   if (num_leaves <= 0) {
     return mpc_utils::InvalidArgumentError("`num_leaves` must be positive");
   }
+  if (missing_index < 0) {
+    return mpc_utils::InvalidArgumentError(
+        "`missing_index` must not be negative");
+  }
   if (missing_index >= num_leaves) {
     return mpc_utils::InvalidArgumentError(
         "`missing_index` must be smaller than `num_leaves`");
@@ -156,6 +160,13 @@ mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::CreateFromSiblingWiseXOR(
   if (keys.empty()) {
     return mpc_utils::InvalidArgumentError("`keys` must not be empty");
   }
+  if (static_cast<int>(keys.size()) != arity) {
+    return mpc_utils::InvalidArgumentError("`keys` must have length `arity`");
+  }
+  if (num_levels != NumLevels(arity, num_leaves)) {
+    return mpc_utils::InvalidArgumentError(
+        "Dimensions passed in `sibling_wise_xors` too large for `num_leaves`");
+  }
 
   // Construct path to `missing_index`.
   std::vector<int64_t> missing_path(num_levels);
-- 
2.43.0


From 03b632922312426322700e8fb98dde52e05bbcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 06/22] fix: evicted inputs were sent back to the bucket they
 came from

---
 distributed_vector_ole/cuckoo_hasher.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distributed_vector_ole/cuckoo_hasher.h b/distributed_vector_ole/cuckoo_hasher.h
index 0f3eef3..3b6da2e 100644
--- a/distributed_vector_ole/cuckoo_hasher.h
+++ b/distributed_vector_ole/cuckoo_hasher.h
@@ -216,6 +216,8 @@ mpc_utils::StatusOr<std::vector<int64_t>> CuckooHasher::HashCuckoo(
       if (buckets[index] == -1) {
         // Bucket empty -> simply insert.
         buckets[index] = current_element;
+        next_hash_function[index] =
+            (current_hash_function + 1) % num_hash_functions_;
         break;
       } else {
         // Bucket full -> evict element and increment hash function counter.
-- 
2.43.0


From 928b11be599e761730f59816e75bc96792d55eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 07/22] fix: small inputs got too few tries in cuckoo hashing

---
 distributed_vector_ole/cuckoo_hasher.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/distributed_vector_ole/cuckoo_hasher.h b/distributed_vector_ole/cuckoo_hasher.h
index 3b6da2e..7f058b8 100644
--- a/distributed_vector_ole/cuckoo_hasher.h
+++ b/distributed_vector_ole/cuckoo_hasher.h
@@ -43,6 +43,10 @@ namespace distributed_vector_ole {
 class CuckooHasher {
  public:
   static const int kDefaultHashFunctions = 3;
+  // Minimum number of tries for inserting an element in HashCuckoo. For small
+  // inputs, as many tries as there are inputs are not enough for evictions to
+  // settle, even if there is plenty of space.
+  static constexpr int64_t kMinInsertionTries = 100;
   // Creates a new hasher with `num_hash_functions` hash functions, using the
   // passed `seed`.
   //
@@ -76,7 +80,7 @@ class CuckooHasher {
   // Returns INVALID_ARGUMENT if `num_buckets` is not  positive or
   // `inputs.size()` is larger than `num_buckets`.
   // Returns INTERNAL if insertion fails after trying to insert an element
-  // `inputs.size()` times.
+  // `inputs.size()` times (but at least kMinInsertionTries times).
   template <typename T>
   mpc_utils::StatusOr<std::vector<int64_t>> HashCuckoo(
       absl::Span<const T> inputs, int64_t num_buckets);
@@ -199,6 +203,9 @@ mpc_utils::StatusOr<std::vector<int64_t>> CuckooHasher::HashCuckoo(
   std::vector<int64_t> buckets(num_buckets, -1);
   std::vector<int> next_hash_function(num_buckets, 0);
   int64_t num_tries = inputs.size();
+  if (num_tries < kMinInsertionTries) {
+    num_tries = kMinInsertionTries;
+  }
 
   // Hash all elements.
   ASSIGN_OR_RETURN(auto hashes, Hash(inputs, num_buckets));
-- 
2.43.0


From 2a50979098b64140a331237be1fa6f9a7f72d15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 08/22] fix: shares for empty outputs were sent in the clear

The sums sent by the value provider of the single-point sharing are masked with
the values of the respective output. With an empty output there is nothing to
mask with, and the share itself was sent. The index provider ignores these sums.
---
 distributed_vector_ole/spfss_known_index.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/distributed_vector_ole/spfss_known_index.h b/distributed_vector_ole/spfss_known_index.h
index 5765c66..7ddba53 100644
--- a/distributed_vector_ole/spfss_known_index.h
+++ b/distributed_vector_ole/spfss_known_index.h
@@ -118,6 +118,11 @@ mpc_utils::Status SPFSSKnownIndex::RunValueProviderBatched(
     context.restore();
 #pragma omp for schedule(guided)
     for (int j = 0; j < len; j++) {
+      if (outputs[j].empty()) {
+        // There is no random value to mask val_shares[j] with, and the index
+        // provider ignores this sum.
+        sums_data[j] = T(0);
+      }
       for (int64_t i = 0; i < static_cast<int64_t>(outputs[j].size()); ++i) {
         sums_data[j] += outputs[j][i];
         outputs[j][i] = -outputs[j][i];
-- 
2.43.0


From 6dbaa07f19c3167acc433c635a8e10f20ea0e010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:19 +0000
Subject: [PATCH 09/22] fix: vector OLE lost one direction when the other one
 was precomputed

An object keeps separate seeds and caches for the sender and the receiver role,
but had only one code generator and one set of sizes. Precomputing one role made
the next expansion in the other one fail ("Code generator has the wrong
dimensions") unless both happened to have the same sizes.
---
 .../distributed_vector_ole.h                  | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index c1bc688..03ecbf6 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -98,6 +98,20 @@ class DistributedVectorOLE {
                        mpc_utils::comm_channel *channel,
                        double statistical_security);
 
+  // The code generator and the sizes below belong to the role that was used
+  // last. Exchanges them with those of the other role if that is needed.
+  void UseParametersOf(bool sender) {
+    if (sender == parameters_of_sender_) {
+      return;
+    }
+    parameters_of_sender_ = sender;
+    code_generator_.swap(other_role_.code_generator);
+    std::swap(batch_size_, other_role_.batch_size);
+    std::swap(vole_seed_size_, other_role_.vole_seed_size);
+    std::swap(mpfss_seed_size_, other_role_.mpfss_seed_size);
+    std::swap(num_noise_indices_, other_role_.num_noise_indices);
+  }
+
   // Computes the code generator and sets up MPFSS buckets. Called by
   // PrecomputeSender and PrecomputeReceiver.
   mpc_utils::Status PrecomputeCommon(int64_t output_size);
@@ -172,6 +186,18 @@ class DistributedVectorOLE {
   // Number of noise indices.
   int num_noise_indices_;
 
+  // Whether the above belong to the sender or to the receiver role.
+  bool parameters_of_sender_ = true;
+
+  // The same for the role that is not in use.
+  struct {
+    Eigen::SparseMatrix<T, Eigen::ColMajor> code_generator;
+    int64_t batch_size = 0;
+    int vole_seed_size = 0;
+    int mpfss_seed_size = 0;
+    int num_noise_indices = 0;
+  } other_role_;
+
   // Whether PrecomputeSender has been called.
   bool sender_precomputation_done_;
 
@@ -240,6 +266,7 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeSender(
   if (batch_size < 1) {
     return mpc_utils::InvalidArgumentError("`batch_size` must be positive");
   }
+  UseParametersOf(/*sender=*/true);
   batch_size_ = 0;  // We're just expanding seeds, we don't want any output.
                     // We'll set it back to batch_size in the end.
   // Compute first seed using Gilboa multiplication.
@@ -303,6 +330,7 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeReceiver(
   if (batch_size < 1) {
     return mpc_utils::InvalidArgumentError("`batch_size` must be positive");
   }
+  UseParametersOf(/*sender=*/false);
   batch_size_ = 0;  // We're just expanding seeds, we don't want any output.
                     // We'll set it back to batch_size in the end.
   // Compute first seeds using Gilboa multiplication.
@@ -537,6 +565,7 @@ DistributedVectorOLE<T>::GetReceiverCached(int64_t size) {
 template <typename T>
 mpc_utils::StatusOr<typename DistributedVectorOLE<T>::SenderResult>
 DistributedVectorOLE<T>::RunSender(int64_t size) {
+  UseParametersOf(/*sender=*/true);
   // Run bootstrapping if not already done.
   if (!sender_precomputation_done_) {
     RETURN_IF_ERROR(PrecomputeSender(size));
@@ -585,6 +614,7 @@ DistributedVectorOLE<T>::RunSender(int64_t size) {
 template <typename T>
 mpc_utils::StatusOr<typename DistributedVectorOLE<T>::ReceiverResult>
 DistributedVectorOLE<T>::RunReceiver(int64_t size) {
+  UseParametersOf(/*sender=*/false);
   // Run bootstrapping if not already done.
   if (!receiver_precomputation_done_) {
     RETURN_IF_ERROR(PrecomputeReceiver(size));
-- 
2.43.0


From 8725b315ee856e75b234d20a6a2ac60aba6fcdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 10/22] fix: the index for an empty output was not ignored if
 it was negative

all_but_one_random_ot.h documents that it is.
---
 distributed_vector_ole/all_but_one_random_ot.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/distributed_vector_ole/all_but_one_random_ot.h b/distributed_vector_ole/all_but_one_random_ot.h
index 6c10b0d..a755cb1 100644
--- a/distributed_vector_ole/all_but_one_random_ot.h
+++ b/distributed_vector_ole/all_but_one_random_ot.h
@@ -57,8 +57,8 @@ class AllButOneRandomOT {
   // If `output` is empty, `index` is ignored.
   template <typename T>
   mpc_utils::Status RunReceiver(int64_t index, absl::Span<T> output) {
-    if (index < 0 ||
-        (index >= static_cast<int64_t>(output.size()) && output.size() != 0)) {
+    if (!output.empty() &&
+        (index < 0 || index >= static_cast<int64_t>(output.size()))) {
       return mpc_utils::InvalidArgumentError("`index` out of range");
     }
     return RunReceiverBatched(absl::MakeConstSpan(&index, 1),
@@ -96,9 +96,9 @@ class AllButOneRandomOT {
           "`indices` and `outputs` must have the same size");
     }
     for (int i = 0; i < static_cast<int>(outputs.size()); i++) {
-      if (indices[i] < 0 ||
-          (indices[i] >= static_cast<int64_t>(outputs[i].size()) &&
-           outputs[i].size() != 0)) {
+      if (!outputs[i].empty() &&
+          (indices[i] < 0 ||
+           indices[i] >= static_cast<int64_t>(outputs[i].size()))) {
         return mpc_utils::InvalidArgumentError(
             absl::StrCat("`indices[", i, "]` out of range"));
       }
-- 
2.43.0


From ac1a17e53211aef3089f01d5bf481427eb99d2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 11/22] fix: receivers waited for senders that had refused the
 modulus

Only the sender of an all-but-one transfer checked whether leaves can be
reduced modulo T's modulus; the receiver waited for its messages forever.
---
 .../all_but_one_random_ot.h                   | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/distributed_vector_ole/all_but_one_random_ot.h b/distributed_vector_ole/all_but_one_random_ot.h
index a755cb1..08218b4 100644
--- a/distributed_vector_ole/all_but_one_random_ot.h
+++ b/distributed_vector_ole/all_but_one_random_ot.h
@@ -108,6 +108,8 @@ class AllButOneRandomOT {
     for (int i = 0; i < static_cast<int>(outputs.size()); i++) {
       sizes[i] = outputs[i].size();
     }
+    // The sender refuses such a modulus, too.
+    RETURN_IF_ERROR(CheckModulus<T>(sizes));
     ASSIGN_OR_RETURN(auto trees, ReceiveTrees(sizes, indices, 2));
     NTLContext<T> context;
     context.save();
@@ -131,6 +133,11 @@ class AllButOneRandomOT {
       std::unique_ptr<mpc_utils::CommChannelEMPAdapter> channel_adapter,
       double statistical_security);
 
+  // Checks that T's modulus satisfies statistical security for trees with the
+  // given numbers of leaves.
+  template <typename T>
+  mpc_utils::Status CheckModulus(absl::Span<const int64_t> num_leaves);
+
   // For each element of `num_leaves`, constructs a GGMTree and obliviously
   // sends it to the client, except for the values on the path to an index
   // chosen by the client. If T is a NTL modular integer, ensures that when the
@@ -153,10 +160,8 @@ class AllButOneRandomOT {
 };
 
 template <typename T>
-mpc_utils::StatusOr<std::vector<std::unique_ptr<GGMTree>>>
-AllButOneRandomOT::SendTrees(absl::Span<const int64_t> num_leaves, int arity) {
-  int num_trees = static_cast<int>(num_leaves.size());
-  // Check the modulus to satisfy statistical security.
+mpc_utils::Status AllButOneRandomOT::CheckModulus(
+    absl::Span<const int64_t> num_leaves) {
   int64_t total_num_leaves =
       std::accumulate(num_leaves.begin(), num_leaves.end(), 0);
   // Statistical security needed for each leaf to ensure that all leaves are
@@ -168,6 +173,15 @@ AllButOneRandomOT::SendTrees(absl::Span<const int64_t> num_leaves, int arity) {
         absl::StrCat("Cannot ensure statistical security of ",
                      statistical_security_, "bits with the given modulus"));
   }
+  return mpc_utils::OkStatus();
+}
+
+template <typename T>
+mpc_utils::StatusOr<std::vector<std::unique_ptr<GGMTree>>>
+AllButOneRandomOT::SendTrees(absl::Span<const int64_t> num_leaves, int arity) {
+  int num_trees = static_cast<int>(num_leaves.size());
+  // Check the modulus to satisfy statistical security.
+  RETURN_IF_ERROR(CheckModulus<T>(num_leaves));
 
   std::vector<std::unique_ptr<GGMTree>> trees(num_trees);
   std::vector<emp::block> opt0, opt1;
-- 
2.43.0


From 05d8813916acdd939cd3e0c349834e837770fcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 12/22] fix: single-point sharing threw an exception for
 negative sizes

---
 distributed_vector_ole/spfss_known_index.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/distributed_vector_ole/spfss_known_index.h b/distributed_vector_ole/spfss_known_index.h
index 7ddba53..08142d5 100644
--- a/distributed_vector_ole/spfss_known_index.h
+++ b/distributed_vector_ole/spfss_known_index.h
@@ -60,6 +60,9 @@ class SPFSSKnownIndex {
   template <typename T>
   mpc_utils::StatusOr<std::vector<T>> RunValueProvider(T val_share,
                                                        int64_t size) {
+    if (size < 0) {
+      return mpc_utils::InvalidArgumentError("`size` must not be negative");
+    }
     std::vector<T> output(size);
     RETURN_IF_ERROR(RunValueProvider<T>(val_share, absl::MakeSpan(output)));
     return output;
@@ -82,6 +85,9 @@ class SPFSSKnownIndex {
   mpc_utils::StatusOr<std::vector<T>> RunIndexProvider(T val_share,
                                                        int64_t index,
                                                        int64_t size) {
+    if (size < 0) {
+      return mpc_utils::InvalidArgumentError("`size` must not be negative");
+    }
     std::vector<T> output(size);
     RETURN_IF_ERROR(
         RunIndexProvider<T>(val_share, index, absl::MakeSpan(output)));
-- 
2.43.0


From e0961a62555f53d777301aa345169a95116ebfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 13/22] fix: multi-point sharing accepted indices out of range

Negative indices and the one just past the end were not refused, and made
the two parties share a vector with a point in a wrong position or none.
---
 distributed_vector_ole/mpfss_known_indices.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributed_vector_ole/mpfss_known_indices.h b/distributed_vector_ole/mpfss_known_indices.h
index a6e4ac1..fb6b53e 100644
--- a/distributed_vector_ole/mpfss_known_indices.h
+++ b/distributed_vector_ole/mpfss_known_indices.h
@@ -190,7 +190,7 @@ mpc_utils::Status MPFSSKnownIndices::RunIndexProviderVectorOLE(
         "`y` and `indices` must not be empty");
   }
   for (int i = 0; i < static_cast<int>(indices.size()); i++) {
-    if (indices[i] > static_cast<int64_t>(output.size())) {
+    if (indices[i] < 0 || indices[i] >= static_cast<int64_t>(output.size())) {
       return mpc_utils::InvalidArgumentError(
           absl::StrCat("`indices[", i, "`] out of range"));
     }
-- 
2.43.0


From 22185f3702e0590821172c1b715d373cff8ca957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 14/22] fix: multi-point sharing read past correlations of a
 wrong size

---
 distributed_vector_ole/mpfss_known_indices.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/distributed_vector_ole/mpfss_known_indices.h b/distributed_vector_ole/mpfss_known_indices.h
index fb6b53e..769a75e 100644
--- a/distributed_vector_ole/mpfss_known_indices.h
+++ b/distributed_vector_ole/mpfss_known_indices.h
@@ -145,6 +145,10 @@ mpc_utils::Status MPFSSKnownIndices::RunValueProviderVectorOLE(
   }
   RETURN_IF_ERROR(UpdateBuckets(output.size(), y_len));
   int num_buckets = buckets_.size();
+  if (static_cast<int64_t>(w.size()) != num_buckets) {
+    return mpc_utils::InvalidArgumentError(
+        "`w` must have size NumBuckets(y_len)");
+  }
 
   // Receive masked and permuted y from other party and compute our share of xy
   // as (u+y)x-w.
@@ -197,6 +201,11 @@ mpc_utils::Status MPFSSKnownIndices::RunIndexProviderVectorOLE(
   }
   RETURN_IF_ERROR(UpdateBuckets(output.size(), y.size()));
   int num_buckets = buckets_.size();
+  if (static_cast<int64_t>(u.size()) != num_buckets ||
+      static_cast<int64_t>(v.size()) != num_buckets) {
+    return mpc_utils::InvalidArgumentError(
+        "`u` and `v` must have size NumBuckets(y_len)");
+  }
   // Checking for uniqueness of `indices` takes time, so we only do that if
   // cuckoo hashing fails.
   auto status = hasher_->HashCuckoo(indices, num_buckets);
-- 
2.43.0


From 36ccfeb72da89d8ec46923e4fdc578b8e4d34549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 15/22] fix: value provider of multi-point sharing accepted too
 short outputs

The index provider refuses them, and the value provider waited for it
forever.
---
 distributed_vector_ole/mpfss_known_indices.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distributed_vector_ole/mpfss_known_indices.h b/distributed_vector_ole/mpfss_known_indices.h
index 769a75e..6c12052 100644
--- a/distributed_vector_ole/mpfss_known_indices.h
+++ b/distributed_vector_ole/mpfss_known_indices.h
@@ -143,6 +143,10 @@ mpc_utils::Status MPFSSKnownIndices::RunValueProviderVectorOLE(
   if (y_len < 1) {
     return mpc_utils::InvalidArgumentError("`y_len` must be positive");
   }
+  if (static_cast<int64_t>(output.size()) < y_len) {
+    return mpc_utils::InvalidArgumentError(
+        "`output` must be at least as long as `y_len`");
+  }
   RETURN_IF_ERROR(UpdateBuckets(output.size(), y_len));
   int num_buckets = buckets_.size();
   if (static_cast<int64_t>(w.size()) != num_buckets) {
-- 
2.43.0


From 891a1ad3fbdc103ca67c4b0cb6e1465f0806c286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 16/22] fix: UpdateBuckets threw an exception for negative
 sizes

---
 distributed_vector_ole/mpfss_known_indices.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distributed_vector_ole/mpfss_known_indices.cpp b/distributed_vector_ole/mpfss_known_indices.cpp
index d7d6cbc..9fe4d76 100644
--- a/distributed_vector_ole/mpfss_known_indices.cpp
+++ b/distributed_vector_ole/mpfss_known_indices.cpp
@@ -67,6 +67,10 @@ MPFSSKnownIndices::Create(mpc_utils::comm_channel* channel,
 
 mpc_utils::Status MPFSSKnownIndices::UpdateBuckets(int64_t output_size,
                                                    int num_indices) {
+  if (output_size < 0) {
+    return mpc_utils::InvalidArgumentError(
+        "`output_size` must not be negative");
+  }
   bool needs_update =
       !cached_output_size_ || *cached_output_size_ != output_size ||
       !cached_num_indices_ || *cached_num_indices_ != num_indices;
-- 
2.43.0


From 36365640b402b659e49c2b52fa8e9c1d7f7368c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 17/22] fix: vector OLE did not refuse negative sizes after the
 precomputation

---
 distributed_vector_ole/distributed_vector_ole.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index 03ecbf6..4ac0a5a 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -565,6 +565,9 @@ DistributedVectorOLE<T>::GetReceiverCached(int64_t size) {
 template <typename T>
 mpc_utils::StatusOr<typename DistributedVectorOLE<T>::SenderResult>
 DistributedVectorOLE<T>::RunSender(int64_t size) {
+  if (size < 0) {
+    return mpc_utils::InvalidArgumentError("`size` must not be negative");
+  }
   UseParametersOf(/*sender=*/true);
   // Run bootstrapping if not already done.
   if (!sender_precomputation_done_) {
@@ -614,6 +617,9 @@ DistributedVectorOLE<T>::RunSender(int64_t size) {
 template <typename T>
 mpc_utils::StatusOr<typename DistributedVectorOLE<T>::ReceiverResult>
 DistributedVectorOLE<T>::RunReceiver(int64_t size) {
+  if (size < 0) {
+    return mpc_utils::InvalidArgumentError("`size` must not be negative");
+  }
   UseParametersOf(/*sender=*/false);
   // Run bootstrapping if not already done.
   if (!receiver_precomputation_done_) {
-- 
2.43.0


From 8f92f09d4b9fff57c001cd09664048bce1735003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 18/22] fix: vector OLE was broken after a failed
 precomputation

After a precomputation that failed once another one had succeeded, runs
expanded whatever seeds and code generator the failed one had left.
---
 distributed_vector_ole/distributed_vector_ole.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index 4ac0a5a..b249929 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -267,6 +267,8 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeSender(
     return mpc_utils::InvalidArgumentError("`batch_size` must be positive");
   }
   UseParametersOf(/*sender=*/true);
+  // The state of an earlier precomputation is gone, even if this one fails.
+  sender_precomputation_done_ = false;
   batch_size_ = 0;  // We're just expanding seeds, we don't want any output.
                     // We'll set it back to batch_size in the end.
   // Compute first seed using Gilboa multiplication.
@@ -331,6 +333,8 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeReceiver(
     return mpc_utils::InvalidArgumentError("`batch_size` must be positive");
   }
   UseParametersOf(/*sender=*/false);
+  // The state of an earlier precomputation is gone, even if this one fails.
+  receiver_precomputation_done_ = false;
   batch_size_ = 0;  // We're just expanding seeds, we don't want any output.
                     // We'll set it back to batch_size in the end.
   // Compute first seeds using Gilboa multiplication.
-- 
2.43.0


From 036f3caddf1b8c76aedf7d4f53187415fdac0b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 19/22] fix: huge batch sizes were expanded with the smallest
 noise parameters

Adding the seed sizes to a batch size close to the largest 64-bit integer
overflowed, and the first parameter set seemed to be enough for it.
---
 distributed_vector_ole/distributed_vector_ole.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index b249929..df954a9 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -291,8 +291,8 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeSender(
   // Iteratively expand seeds until we have the desired batch size.
   for (int i = 0; i < static_cast<int>(VOLEParameters::seed_size.size()) - 1;
        i++) {
-    if (VOLEParameters::output_size[i] >=
-        batch_size + mpfss_seed_size_ + vole_seed_size_) {
+    if (VOLEParameters::output_size[i] - mpfss_seed_size_ - vole_seed_size_ >=
+        batch_size) {
       // Exit early if the current output size is enough for the given batch
       // size and seed sizes.
       break;
@@ -355,8 +355,8 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeReceiver(
   // Iteratively expand seeds until we have the desired batch size.
   for (int i = 0; i < static_cast<int>(VOLEParameters::seed_size.size()) - 1;
        i++) {
-    if (VOLEParameters::output_size[i] >=
-        batch_size + vole_seed_size_ + mpfss_seed_size_) {
+    if (VOLEParameters::output_size[i] - mpfss_seed_size_ - vole_seed_size_ >=
+        batch_size) {
       // Exit early if the current output size is enough for the given batch
       // size and seed sizes.
       break;
-- 
2.43.0


From 1fecc2ab6f4e28f12b2c7b0be093a26fd548c377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:54 +0000
Subject: [PATCH 20/22] fix: multi-point sharing accepted indices repeated up
 to three times

They were refused only if cuckoo hashing failed, which it need not do for
inputs that are repeated at most as often as there are hash functions.
---
 distributed_vector_ole/mpfss_known_indices.h | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/distributed_vector_ole/mpfss_known_indices.h b/distributed_vector_ole/mpfss_known_indices.h
index 6c12052..17fc4bf 100644
--- a/distributed_vector_ole/mpfss_known_indices.h
+++ b/distributed_vector_ole/mpfss_known_indices.h
@@ -203,6 +203,10 @@ mpc_utils::Status MPFSSKnownIndices::RunIndexProviderVectorOLE(
           absl::StrCat("`indices[", i, "`] out of range"));
     }
   }
+  absl::flat_hash_set<int64_t> indices_set(indices.begin(), indices.end());
+  if (indices.size() != indices_set.size()) {
+    return mpc_utils::InvalidArgumentError("All `indices` must be unique");
+  }
   RETURN_IF_ERROR(UpdateBuckets(output.size(), y.size()));
   int num_buckets = buckets_.size();
   if (static_cast<int64_t>(u.size()) != num_buckets ||
@@ -210,19 +214,8 @@ mpc_utils::Status MPFSSKnownIndices::RunIndexProviderVectorOLE(
     return mpc_utils::InvalidArgumentError(
         "`u` and `v` must have size NumBuckets(y_len)");
   }
-  // Checking for uniqueness of `indices` takes time, so we only do that if
-  // cuckoo hashing fails.
-  auto status = hasher_->HashCuckoo(indices, num_buckets);
-  if (!status.ok() && mpc_utils::IsInternal(status.status()) &&
-      status.status().message() ==
-          "Failed to insert element, maximum number of tries exhausted") {
-    // Probably due to repeating indices.
-    absl::flat_hash_set<int64_t> indices_set(indices.begin(), indices.end());
-    if (indices.size() != indices_set.size()) {
-      return mpc_utils::InvalidArgumentError("All `indices` must be unique");
-    }
-  }
-  ASSIGN_OR_RETURN(auto hashed_inputs, std::move(status));
+  ASSIGN_OR_RETURN(auto hashed_inputs,
+                   hasher_->HashCuckoo(indices, num_buckets));
 
   // y padded with zeros and permuted according to hashed_inputs:
   // y_permuted[i] = y[j] if hashed_inputs[i] == j, and 0 if hashed_inputs[i] ==
-- 
2.43.0


From 2a72da2598c4e94cade7143f558b2225da9a8547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 21/22] fix: count every correlated transfer of a product
 towards the statistical security

---
 distributed_vector_ole/scalar_vector_gilboa_product.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/distributed_vector_ole/scalar_vector_gilboa_product.h b/distributed_vector_ole/scalar_vector_gilboa_product.h
index 2d90fb5..9fc7062 100644
--- a/distributed_vector_ole/scalar_vector_gilboa_product.h
+++ b/distributed_vector_ole/scalar_vector_gilboa_product.h
@@ -82,12 +82,13 @@ class ScalarVectorGilboaProduct {
 
   template <typename T>
   bool UseCorrelatedOT(int64_t size) {
-    // Compute statistical security needed for each element to ensure that
-    // `size` elements can be computed using correlated OT.
-    double statistical_security_per_element =
-        std::log2(double(size)) + statistical_security_;
+    // Compute statistical security needed for each hash value to ensure that
+    // `size` elements can be computed using correlated OT. Each element takes
+    // one hash value per bit.
     int packed_hash_bits = ScalarHelper<T>::SizeOf() * 8;
-    return ScalarHelper<T>::CanBeHashedInto(statistical_security_per_element,
+    double statistical_security_per_hash =
+        std::log2(double(size) * packed_hash_bits) + statistical_security_;
+    return ScalarHelper<T>::CanBeHashedInto(statistical_security_per_hash,
                                             packed_hash_bits);
   }
 
-- 
2.43.0


From dcb9328363775e31806c239ca0f0330e82fe7756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 22/22] fix: seed NTL's generator before sampling modular
 integers

---
 distributed_vector_ole/internal/scalar_helpers.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/distributed_vector_ole/internal/scalar_helpers.h b/distributed_vector_ole/internal/scalar_helpers.h
index d58eb2e..66c71a3 100644
--- a/distributed_vector_ole/internal/scalar_helpers.h
+++ b/distributed_vector_ole/internal/scalar_helpers.h
@@ -100,6 +100,19 @@ struct ScalarHelper<gf128> {
 };
 
 // NTL modular integers.
+
+// Makes sure NTL's generator in the current thread is seeded. Without an
+// explicit seed, NTL only uses the time and the IDs of the process and thread.
+inline void SeedNTLRandom() {
+  thread_local bool seeded = false;
+  if (!seeded) {
+    uint8_t seed[32];
+    RAND_bytes(seed, sizeof(seed));
+    NTL::SetSeed(seed, sizeof(seed));
+    seeded = true;
+  }
+}
+
 template <typename T, typename = int>
 struct ScalarHelperImpl {};
 // NTL::ZZ_p.
@@ -140,6 +153,7 @@ struct ScalarHelperImpl<NTL::ZZ_p> {
     return hash_bits - std::log2(double(rem)) > statistical_security;
   }
   static void Randomize(absl::Span<NTL::ZZ_p> output) {
+    SeedNTLRandom();
     NTL::Vec<NTL::ZZ_p> ntl_vec = NTL::random_vec_ZZ_p(output.size());
     for (int64_t i = 0; i < static_cast<int64_t>(output.size()); i++) {
       output[i] = std::move(ntl_vec[i]);
@@ -166,6 +180,7 @@ struct ScalarHelperImpl<NTL::zz_p> {
     return hash_bits - std::log2(double(rem)) > statistical_security;
   }
   static void Randomize(absl::Span<NTL::zz_p> output) {
+    SeedNTLRandom();
     NTL::Vec<NTL::zz_p> ntl_vec = NTL::random_vec_zz_p(output.size());
     for (int64_t i = 0; i < static_cast<int64_t>(output.size()); i++) {
       output[i] = ntl_vec[i];
-- 
2.43.0

