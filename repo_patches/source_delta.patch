From c65a5ea4d10d422c0b57f56ca6ee5ac076d004af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:57 +0000
Subject: [PATCH 01/42] fix: Lloyd keeps the position of a centroid that no
 sample is assigned to

The empty cluster branch copied the (zero) sum of positions, which moved the
centroid to the origin and broke the descent of the loss.
---
 include/ffcl/kmeans/Lloyd.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/ffcl/kmeans/Lloyd.hpp b/include/ffcl/kmeans/Lloyd.hpp
index d1ca740..c54483e 100644
--- a/include/ffcl/kmeans/Lloyd.hpp
+++ b/include/ffcl/kmeans/Lloyd.hpp
@@ -111,13 +111,9 @@ void Lloyd<SamplesIterator>::update_centroids() {
         const auto feature_index_start = centroid_index * n_features;
         const auto feature_index_end   = feature_index_start + n_features;
 
-        if (cluster_sizes[centroid_index] == 0) {
-            // For centroids with only 1 associated sample, the new position is the same as the previous one
-            std::copy(cluster_position_sums.begin() + feature_index_start,
-                      cluster_position_sums.begin() + feature_index_end,
-                      centroids_.begin() + feature_index_start);
-        } else {
-            // Compute the new centroid position for the centroid that has more than 1 associated sample
+        // A centroid without any associated sample keeps its previous position
+        if (cluster_sizes[centroid_index]) {
+            // Compute the new centroid position for the centroid that has at least 1 associated sample
             std::transform(cluster_position_sums.begin() + feature_index_start,
                            cluster_position_sums.begin() + feature_index_end,
                            centroids_.begin() + feature_index_start,
-- 
2.43.0


From 98cb83792abb546df5f3a34676d1bc97a6b77727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:06 +0000
Subject: [PATCH 02/42] fix: the second and third nearest centroid/medoid may
 be tied with the nearest one

A candidate at the same distance as the nearest one was skipped, so with tied
distances the 'second nearest' distance was the next distinct one or the numeric
maximum: invalid lower bounds in Hamerly, wrong deltas and losses in FasterPAM.
---
 include/ffcl/kmeans/KMeansUtils.hpp |  3 +--
 include/ffcl/kmedoids/PAMUtils.hpp  | 40 +++++++++--------------------
 2 files changed, 13 insertions(+), 30 deletions(-)

diff --git a/include/ffcl/kmeans/KMeansUtils.hpp b/include/ffcl/kmeans/KMeansUtils.hpp
index ef5d56c..108dafa 100644
--- a/include/ffcl/kmeans/KMeansUtils.hpp
+++ b/include/ffcl/kmeans/KMeansUtils.hpp
@@ -104,8 +104,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = second_nearest_candidate;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
             }
         }
diff --git a/include/ffcl/kmedoids/PAMUtils.hpp b/include/ffcl/kmedoids/PAMUtils.hpp
index be5c117..2926ac7 100644
--- a/include/ffcl/kmedoids/PAMUtils.hpp
+++ b/include/ffcl/kmedoids/PAMUtils.hpp
@@ -127,8 +127,7 @@ std::vector<std::size_t> samples_to_second_nearest_medoid_indices(const SamplesI
                 first_min_distance  = second_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
                 second_min_index    = idx;
             }
@@ -169,8 +168,7 @@ std::vector<std::size_t> samples_to_second_nearest_medoid_indices(
                 first_min_distance  = second_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
                 second_min_index    = idx;
             }
@@ -222,16 +220,13 @@ std::vector<std::size_t> samples_to_third_nearest_medoid_indices(const SamplesIt
                 first_min_distance  = third_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 third_min_index     = second_min_index;
                 second_min_distance = third_nearest_candidate;
                 second_min_index    = idx;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
                 third_min_index    = idx;
             }
@@ -276,16 +271,13 @@ std::vector<std::size_t> samples_to_third_nearest_medoid_indices(
                 first_min_distance  = third_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 third_min_index     = second_min_index;
                 second_min_distance = third_nearest_candidate;
                 second_min_index    = idx;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
                 third_min_index    = idx;
             }
@@ -453,8 +445,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = second_nearest_candidate;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
             }
         }
@@ -490,8 +481,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = second_nearest_candidate;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
             }
         }
@@ -537,14 +527,11 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 second_min_distance = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
             }
         }
@@ -582,14 +569,11 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 second_min_distance = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
             }
         }
-- 
2.43.0


From 690d6e38622841092eae7a1e4f9d8f7af76dbc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:37 +0000
Subject: [PATCH 03/42] fix: FasterPAM and FasterMSC skip exactly the
 candidates that are medoids

The candidate sample index was compared to the position of its nearest medoid in
the medoids vector, so samples 0..k-1 could never be tried as medoids while the
actual medoids were tried again.
---
 include/ffcl/kmedoids/FasterMSC.hpp | 4 +---
 include/ffcl/kmedoids/FasterPAM.hpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index 4af7854..7935298 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -146,11 +146,9 @@ auto FasterMSC<SamplesIterator>::total_deviation() const {
 
 template <typename SamplesIterator>
 auto FasterMSC<SamplesIterator>::step() {
-    const auto& samples_to_nearest_medoid_indices = buffers_ptr_->samples_to_nearest_medoid_indices_;
-
     for (std::size_t medoid_candidate_index = 0; medoid_candidate_index < n_samples_; ++medoid_candidate_index) {
         // execute only if the current candidate is not already selected as a medoid
-        if (medoid_candidate_index != samples_to_nearest_medoid_indices[medoid_candidate_index]) {
+        if (common::is_element_not_in(medoids_.begin(), medoids_.end(), medoid_candidate_index)) {
             // handle the case chen the number of medoids is 2
             if (medoids_.size() == 2) {
                 // the total deviation change for the best medoid index 0 or 1
diff --git a/include/ffcl/kmedoids/FasterPAM.hpp b/include/ffcl/kmedoids/FasterPAM.hpp
index 191bd33..ead8bc1 100644
--- a/include/ffcl/kmedoids/FasterPAM.hpp
+++ b/include/ffcl/kmedoids/FasterPAM.hpp
@@ -136,11 +136,9 @@ auto FasterPAM<SamplesIterator>::total_deviation() const {
 
 template <typename SamplesIterator>
 auto FasterPAM<SamplesIterator>::step() {
-    const auto& samples_to_nearest_medoid_indices = buffers_ptr_->samples_to_nearest_medoid_indices_;
-
     for (std::size_t medoid_candidate_index = 0; medoid_candidate_index < n_samples_; ++medoid_candidate_index) {
         // execute only if the current candidate is not already selected as a medoid
-        if (medoid_candidate_index != samples_to_nearest_medoid_indices[medoid_candidate_index]) {
+        if (common::is_element_not_in(medoids_.begin(), medoids_.end(), medoid_candidate_index)) {
             // the total deviation change for the best swap candidate and its index in the dataset
             const auto [best_swap_delta_td, best_swap_index] = find_best_swap(medoid_candidate_index);
 
-- 
2.43.0


From 241d43a255d31b9bdef64fb4c0e46813593b079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:37 +0000
Subject: [PATCH 04/42] fix: select_n_elements draws from the whole range

The partial shuffle only swapped among the first n_elements elements, so the
selection was always a permutation of those.
---
 include/ffcl/common/math/random/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/random/Sampling.hpp b/include/ffcl/common/math/random/Sampling.hpp
index 08c13f9..cc90804 100644
--- a/include/ffcl/common/math/random/Sampling.hpp
+++ b/include/ffcl/common/math/random/Sampling.hpp
@@ -17,7 +17,7 @@ auto select_n_elements(const Iterator& first, const Iterator& last, std::size_t
     // Perform a partial shuffle of the first n_elements elements
     for (std::size_t element_index = 0; element_index < n_elements; ++element_index) {
         std::swap(selected_elements[element_index],
-                  selected_elements[uniform_distribution{element_index, n_elements - 1}()]);
+                  selected_elements[uniform_distribution{element_index, selected_elements.size() - 1}()]);
     }
     // Resize the vector to keep only the first n_elements elements
     selected_elements.resize(n_elements);
-- 
2.43.0


From 8ef6971455e08f93ea431c2ce6b6dd8681d02d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:37 +0000
Subject: [PATCH 05/42] fix: init_spatial_uniform stays in the bounding box of
 negative features

numeric_limits::min() is the smallest positive value for floating point types.
---
 include/ffcl/common/math/random/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/random/Sampling.hpp b/include/ffcl/common/math/random/Sampling.hpp
index cc90804..098f967 100644
--- a/include/ffcl/common/math/random/Sampling.hpp
+++ b/include/ffcl/common/math/random/Sampling.hpp
@@ -125,7 +125,7 @@ auto init_spatial_uniform(const SamplesIterator& samples_range_first,
 
     // row vector buffers to keep track of min-max values
     auto min_buffer = std::vector<DataType>(n_features, std::numeric_limits<DataType>::max());
-    auto max_buffer = std::vector<DataType>(n_features, std::numeric_limits<DataType>::min());
+    auto max_buffer = std::vector<DataType>(n_features, std::numeric_limits<DataType>::lowest());
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
         for (std::size_t feature_index = 0; feature_index < n_features; ++feature_index) {
-- 
2.43.0


From 4e90b0666e0a0a12cd2882d02869480fe9febfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:37 +0000
Subject: [PATCH 06/42] fix: masked variance per feature reads every indexed
 sample

compute_variance_per_feature and argmax_variance_per_feature with a feature mask
used the first indexed sample for all of them.
---
 include/ffcl/common/math/statistics/Statistics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index c6cbf31..c180269 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -315,7 +315,7 @@ auto compute_variance_per_feature(const IndicesIterator&          indices_range_
         auto features_accumulator = std::vector<DataType>(feature_mask.size());
 
         for (std::size_t mask_index = 0; mask_index < feature_mask.size(); ++mask_index) {
-            const auto temp = samples_range_first[*indices_range_first * n_features + feature_mask[mask_index]] -
+            const auto temp = samples_range_first[indices_range_first[sample_index] * n_features + feature_mask[mask_index]] -
                               mean_per_feature[mask_index];
             variance_per_feature[mask_index] += temp * temp;
         }
@@ -417,7 +417,7 @@ std::size_t argmax_variance_per_feature(const IndicesIterator&          indices_
         auto features_accumulator = std::vector<DataType>(feature_mask.size());
 
         for (std::size_t mask_index = 0; mask_index < feature_mask.size(); ++mask_index) {
-            const auto temp = samples_range_first[*indices_range_first * n_features + feature_mask[mask_index]] -
+            const auto temp = samples_range_first[indices_range_first[sample_index] * n_features + feature_mask[mask_index]] -
                               mean_per_feature[mask_index];
             variance_per_feature[mask_index] += temp * temp;
         }
-- 
2.43.0


From 10b11fe4d0966fe8acb18323dc26d50786fcef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:37 +0000
Subject: [PATCH 07/42] fix: KDTree move constructor initialises the number of
 samples

serialize() of a moved tree wrote an indeterminate n_samples.
---
 include/ffcl/datastruct/tree/kdtree/KDTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
index 23b2ad7..f0dfd8d 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
@@ -244,6 +244,7 @@ KDTree<IndicesIterator, SamplesIterator>::KDTree(KDTree&& other) noexcept
   : options_{std::move(other.options_)}
   , samples_range_first_{std::move(other.samples_range_first_)}
   , samples_range_last_{std::move(other.samples_range_last_)}
+  , n_samples_{other.n_samples_}
   , n_features_{std::move(other.n_features_)}
   , bound_{std::move(other.bound_)}
   , root_{std::move(other.root_)} {}
-- 
2.43.0


From 19fc101c94978168d1b4d085caa21000f323eab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:52 +0000
Subject: [PATCH 08/42] fix: the silhouette of a sample alone in its cluster is
 0

As documented: the score was 1 because its cohesion is 0.
---
 include/ffcl/common/math/heuristics/SilhouetteMethod.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
index 395c49b..3742686 100644
--- a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
+++ b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
@@ -238,13 +238,18 @@ auto silhouette(const SamplesIterator&       samples_range_first,
                                               /**/ cluster_labels_range_first,
                                               /**/ cluster_labels_range_last);
 
+    const auto cluster_sizes = get_cluster_sizes(cluster_labels_range_first, cluster_labels_range_last);
+
     auto samples_silhouette_scores = std::vector<ElementType>(n_samples);
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
         const auto coh = cohesion_values[sample_index];
         const auto sep = separation_values[sample_index];
 
-        if (coh < sep) {
+        if (cluster_sizes[cluster_labels_range_first[sample_index]] == 1) {
+            samples_silhouette_scores[sample_index] = 0;
+
+        } else if (coh < sep) {
             samples_silhouette_scores[sample_index] = static_cast<ElementType>(1) - coh / sep;
 
         } else if (coh > sep) {
-- 
2.43.0


From dc2cf533e508ca1bfcde1f29a80e42b14e67f74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:31 +0000
Subject: [PATCH 09/42] fix: a WithMemory buffer that owns its visited indices
 survives a move

The buffer kept a reference to its own member, which referred to the moved-from
(or destroyed) buffer as soon as the searcher moved it: visited indices were
returned again.
---
 include/ffcl/search/buffer/WithMemory.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/ffcl/search/buffer/WithMemory.hpp b/include/ffcl/search/buffer/WithMemory.hpp
index 8f84c03..9246122 100644
--- a/include/ffcl/search/buffer/WithMemory.hpp
+++ b/include/ffcl/search/buffer/WithMemory.hpp
@@ -34,21 +34,21 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
     explicit WithMemory(BoundType&& bound, const IndexType& max_capacity = common::infinity<IndexType>())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{}
-      , visited_indices_const_reference_{visited_indices_} {}
+      , visited_indices_const_ptr_{nullptr} {}
 
     WithMemory(BoundType&&           bound,
                const VisitedIndices& visited_indices_reference,
                const IndexType&      max_capacity = common::infinity<IndexType>())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{}
-      , visited_indices_const_reference_{visited_indices_reference} {}
+      , visited_indices_const_ptr_{&visited_indices_reference} {}
 
     WithMemory(BoundType&&      bound,
                VisitedIndices&& visited_indices,
                const IndexType& max_capacity = common::infinity<IndexType>())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{std::move(visited_indices)}
-      , visited_indices_const_reference_{visited_indices_} {}
+      , visited_indices_const_ptr_{nullptr} {}
 
     WithMemory(BoundType&&                       bound,
                const VisitedIndicesIteratorType& visited_indices_first,
@@ -89,8 +89,8 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
 
     void update_impl(const IndexType& index_candidate, const DistanceType& distance_candidate) {
         // consider an update only if the candidate hasnt been visited
-        const bool is_candidate_valid =
-            visited_indices_const_reference_.find(index_candidate) == visited_indices_const_reference_.end();
+        const auto& visited_indices    = visited_indices_const_ptr_ ? *visited_indices_const_ptr_ : visited_indices_;
+        const bool  is_candidate_valid = visited_indices.find(index_candidate) == visited_indices.end();
 
         if (is_candidate_valid) {
             this->update_static_buffers(index_candidate, distance_candidate);
@@ -120,8 +120,10 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
     }
 
   private:
-    VisitedIndices        visited_indices_;
-    const VisitedIndices& visited_indices_const_reference_;
+    // the visited indices when the buffer owns them
+    VisitedIndices visited_indices_;
+    // the visited indices when the buffer only refers to them, null otherwise so that the buffer can be copied and moved
+    const VisitedIndices* visited_indices_const_ptr_;
 };
 
 // Declare and define a static_base_traits specialization for WithMemory:
-- 
2.43.0


From c41060b6b5f1d70636a150c03e059e9536d83f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:55 +0000
Subject: [PATCH 10/42] fix: the minimum spanning tree is minimal w.r.t. the
 mutual reachability distance

Only the nearest sample outside of the component was considered for each query,
which is not the closest one w.r.t. the mutual reachability distance when its own
core distance prevails.
---
 .../graph/spanning_tree/BoruvkasAlgorithm.hpp | 102 +++++++++++-------
 1 file changed, 65 insertions(+), 37 deletions(-)

diff --git a/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp b/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
index 007c037..8e3ca50 100644
--- a/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
+++ b/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
@@ -8,6 +8,8 @@
 
 #include "ffcl/search/buffer/WithUnionFind.hpp"
 
+#include "ffcl/datastruct/bounds/Ball.hpp"
+
 #include "ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp"
 #include "ffcl/search/Search.hpp"
 
@@ -203,6 +205,12 @@ class BoruvkasAlgorithm {
         UnionFindType union_find_;
     };
 
+    EdgeType shortest_mutual_reachability_edge(const search::Searcher<Indexer>& searcher,
+                                               const CoreDistancesArrayType&    core_distances,
+                                               const Forest&                    forest,
+                                               const IndexType&                 component_representative,
+                                               const IndexType&                 query_index) const;
+
     void step_sequential(const search::Searcher<Indexer>& searcher, Forest& forest) const;
 
     void step_sequential(const search::Searcher<Indexer>& searcher,
@@ -236,6 +244,55 @@ BoruvkasAlgorithm<Indexer>& BoruvkasAlgorithm<Indexer>::set_options(const Option
     return *this;
 }
 
+template <typename Indexer>
+auto BoruvkasAlgorithm<Indexer>::shortest_mutual_reachability_edge(const search::Searcher<Indexer>& searcher,
+                                                                   const CoreDistancesArrayType&    core_distances,
+                                                                   const Forest&                    forest,
+                                                                   const IndexType& component_representative,
+                                                                   const IndexType& query_index) const -> EdgeType {
+    // initialize a nearest neighbor buffer to compare the query_index with sample indices that don't belong to
+    // the same component using the UnionFind data structure
+    const auto nn_buffer_query = searcher(search::buffer::WithUnionFind(searcher.features_range_first(query_index),
+                                                                        searcher.features_range_last(query_index),
+                                                                        forest.get_union_find_const_reference(),
+                                                                        component_representative,
+                                                                        /*max_capacity=*/static_cast<IndexType>(1)));
+
+    // the furthest nearest neighbor is also the closest in this case since we query only 1 neighbor
+    const auto nearest_neighbor_index    = nn_buffer_query.furthest_index();
+    const auto nearest_neighbor_distance = nn_buffer_query.furthest_distance();
+
+    auto shortest_edge = EdgeType{
+        query_index,
+        nearest_neighbor_index,
+        std::max({core_distances[query_index], core_distances[nearest_neighbor_index], nearest_neighbor_distance})};
+
+    // The nearest neighbor is not necessarily the closest one w.r.t. the mutual reachability distance when its own core
+    // distance prevails. The closest one can then only be found in the ball delimited by that core distance.
+    if (std::get<2>(shortest_edge) > std::max(core_distances[query_index], nearest_neighbor_distance)) {
+        const auto candidates_buffer = searcher(search::buffer::WithUnionFind(
+            datastruct::bounds::BallView(searcher.features_range_first(query_index),
+                                         searcher.features_range_last(query_index),
+                                         std::get<2>(shortest_edge)),
+            forest.get_union_find_const_reference(),
+            component_representative));
+
+        for (std::size_t candidate = 0; candidate < candidates_buffer.size(); ++candidate) {
+            const auto candidate_index = candidates_buffer.indices_const_ref()[candidate];
+
+            const auto k_mutual_reachability_distance =
+                std::max({core_distances[query_index],
+                          core_distances[candidate_index],
+                          candidates_buffer.distances_const_ref()[candidate]});
+
+            if (k_mutual_reachability_distance < std::get<2>(shortest_edge)) {
+                shortest_edge = EdgeType{query_index, candidate_index, k_mutual_reachability_distance};
+            }
+        }
+    }
+    return shortest_edge;
+}
+
 template <typename Indexer>
 void BoruvkasAlgorithm<Indexer>::step_sequential(const search::Searcher<Indexer>& searcher, Forest& forest) const {
     // keep track of the shortest edge from a component's sample index to a sample index thats not within the
@@ -290,28 +347,13 @@ void BoruvkasAlgorithm<Indexer>::step_sequential(const search::Searcher<Indexer>
         components_closest_edge[component_representative] = datastruct::mst::make_default_edge<IndexType, ValueType>();
 
         for (const auto& query_index : component) {
-            // initialize a nearest neighbor buffer to compare the query_index with sample indices that don't belong to
-            // the same component using the UnionFind data structure
-            auto nn_buffer_query = searcher(search::buffer::WithUnionFind(searcher.features_range_first(query_index),
-                                                                          searcher.features_range_last(query_index),
-                                                                          forest.get_union_find_const_reference(),
-                                                                          component_representative,
-                                                                          /*max_capacity=*/static_cast<IndexType>(1)));
-
-            // the furthest nearest neighbor is also the closest in this case since we query only 1 neighbor
-            const auto nearest_neighbor_index    = nn_buffer_query.furthest_index();
-            const auto nearest_neighbor_distance = nn_buffer_query.furthest_distance();
-
-            const auto current_closest_edge_distance = std::get<2>(components_closest_edge[component_representative]);
-
-            const auto k_mutual_reachability_distance = std::max(
-                {core_distances[query_index], core_distances[nearest_neighbor_index], nearest_neighbor_distance});
+            const auto candidate_edge = shortest_mutual_reachability_edge(
+                searcher, core_distances, forest, component_representative, query_index);
 
             // update the current shortest edge if the k_mutual_reachability_distance is indeed shortest than the
             // current shortest edge distance
-            if (k_mutual_reachability_distance < current_closest_edge_distance) {
-                components_closest_edge[component_representative] =
-                    EdgeType{query_index, nearest_neighbor_index, k_mutual_reachability_distance};
+            if (std::get<2>(candidate_edge) < std::get<2>(components_closest_edge[component_representative])) {
+                components_closest_edge[component_representative] = candidate_edge;
             }
         }
     }
@@ -390,27 +432,13 @@ void BoruvkasAlgorithm<Indexer>::dual_component_step_sequential(const search::Se
     auto closest_edge = datastruct::mst::make_default_edge<IndexType, ValueType>();
 
     for (const auto& query_index : smallest_component) {
-        // initialize a nearest neighbor buffer to compare the query_index with sample indices that don't belong to
-        // the same component using the UnionFind data structure
-        auto nn_buffer_query = searcher(search::buffer::WithUnionFind(searcher.features_range_first(query_index),
-                                                                      searcher.features_range_last(query_index),
-                                                                      forest.get_union_find_const_reference(),
-                                                                      smallest_component_representative,
-                                                                      /*max_capacity=*/static_cast<IndexType>(1)));
-
-        // the furthest nearest neighbor is also the closest in this case since we query only 1 neighbor
-        const auto nearest_neighbor_index    = nn_buffer_query.furthest_index();
-        const auto nearest_neighbor_distance = nn_buffer_query.furthest_distance();
-
-        const auto current_closest_edge_distance = std::get<2>(closest_edge);
-
-        const auto k_mutual_reachability_distance =
-            std::max({core_distances[query_index], core_distances[nearest_neighbor_index], nearest_neighbor_distance});
+        const auto candidate_edge = shortest_mutual_reachability_edge(
+            searcher, core_distances, forest, smallest_component_representative, query_index);
 
         // update the current shortest edge if the k_mutual_reachability_distance is indeed shortest than the current
         // shortest edge distance
-        if (k_mutual_reachability_distance < current_closest_edge_distance) {
-            closest_edge = EdgeType{query_index, nearest_neighbor_index, k_mutual_reachability_distance};
+        if (std::get<2>(candidate_edge) < std::get<2>(closest_edge)) {
+            closest_edge = candidate_edge;
         }
     }
     // merge components based on the best edge found
-- 
2.43.0


From d3e34e3698399fe13069341a8b4dcb2cc3663cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:26 +0000
Subject: [PATCH 11/42] fix: KMeans::fit keeps the candidate with the lowest
 total deviation

Hamerly only tracks an estimation of the loss, so the candidate kept among n_init
was not the best one.
---
 include/ffcl/kmeans/KMeans.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/kmeans/KMeans.hpp b/include/ffcl/kmeans/KMeans.hpp
index cf302ce..31957a7 100644
--- a/include/ffcl/kmeans/KMeans.hpp
+++ b/include/ffcl/kmeans/KMeans.hpp
@@ -217,8 +217,13 @@ std::vector<Data> KMeans<Data>::fit(const SamplesIterator& samples_range_first,
         // final loss
         printf("%.3f\n", kmeans_algorithm.total_deviation());
 #endif
-        // save the loss for each candidate
-        candidates_losses[centroid_index] = kmeans_algorithm.total_deviation();
+        // save the loss for each candidate. It is computed from the final centroids because the algorithms that skip
+        // distance evaluations only keep track of an estimation of it.
+        const auto nearest_centroid_distances = kmeans::utils::samples_to_nearest_centroid_distances(
+            samples_range_first, samples_range_last, n_features, centroids_candidates[centroid_index]);
+
+        candidates_losses[centroid_index] = std::reduce(
+            nearest_centroid_distances.begin(), nearest_centroid_distances.end(), static_cast<Data>(0), std::plus<>());
     }
     // find the index of the centroids container with the lowest loss
     const std::size_t min_loss_index =
-- 
2.43.0


From 43527643f982c1d5259bef6bfb2f659841f5e115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:42 +0000
Subject: [PATCH 12/42] fix: the furthest bound distance of a box is not
 truncated to an integer

---
 include/ffcl/datastruct/bounds/AABBWithCentroid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
index b21ec72..e7d49d4 100644
--- a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
+++ b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
@@ -161,7 +161,7 @@ constexpr auto AABBWithCentroid<Segment, NFeatures>::compute_distance_to_centroi
 
 template <typename Segment, std::size_t NFeatures>
 constexpr auto AABBWithCentroid<Segment, NFeatures>::centroid_to_furthest_bound_distance_impl() const {
-    auto furthest_distance = 0;
+    ValueType furthest_distance = 0;
 
     for (const auto& segment : segments_) {
         const auto candidate_furthest_distance = segment.centroid_to_bound_distance();
-- 
2.43.0


From 9c32dbca1e5c071f9b0385cc32548cbee40e22b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:42 +0000
Subject: [PATCH 13/42] fix: the k shortest edges queue accepts candidates
 until it holds k edges

---
 include/ffcl/search/buffer/IndicesToBuffersMap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/search/buffer/IndicesToBuffersMap.hpp b/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
index 93917d6..7cb5764 100644
--- a/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
+++ b/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
@@ -428,7 +428,7 @@ void IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::update_priorit
     // be to find the nth_elemnts from the buffer and emplace only those to the priority queue. The first method's
     // drawback is that it requires management of the emplace/pop-ed elements. The second method's drawback is that
     // it would require a deep copy of the indices and distances of buffer.
-    if (buffer.closest_distance() < (kth_closest_edge_priority_queue_.empty()
+    if (buffer.closest_distance() < (kth_closest_edge_priority_queue_.size() < buffer.max_capacity()
                                          ? common::infinity<DistanceType>()
                                          : std::get<2>(kth_closest_edge_priority_queue_.top()))) {
         // Iterate over all the buffer indices as we dont know which elements could be valid candidates.
@@ -436,7 +436,7 @@ void IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::update_priorit
             const auto candidate_index    = buffer_indices[buffer_index];
             const auto candidate_distance = buffer_distances[buffer_index];
 
-            const auto pq_furthest_distance = kth_closest_edge_priority_queue_.empty()
+            const auto pq_furthest_distance = kth_closest_edge_priority_queue_.size() < buffer.max_capacity()
                                                   ? common::infinity<DistanceType>()
                                                   : std::get<2>(kth_closest_edge_priority_queue_.top());
 
-- 
2.43.0


From 278375b7794e2d94ea217d2e20f7f63b4838c3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:37 +0000
Subject: [PATCH 14/42] fix: partitioning and the median shift compare features
 exactly, not within an absolute epsilon

---
 include/ffcl/common/algorithms/Sorting.hpp               | 3 +--
 include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/common/algorithms/Sorting.hpp b/include/ffcl/common/algorithms/Sorting.hpp
index e70a5fe..04126e1 100644
--- a/include/ffcl/common/algorithms/Sorting.hpp
+++ b/include/ffcl/common/algorithms/Sorting.hpp
@@ -107,8 +107,7 @@ std::size_t partition_around_pivot_index(const IndicesIterator& indices_range_fi
         // left_index (!= || ==) pivot_index && pivot_index (!= || ==) right_index
 
         // pivot_value > right_value
-        if (inequality(pivot_value,
-                       samples_range_first[indices_range_first[right_index] * n_features + feature_index])) {
+        if (samples_range_first[indices_range_first[right_index] * n_features + feature_index] < pivot_value) {
             // swap left_value and right_value
             std::iter_swap(indices_range_first + left_index, indices_range_first + right_index);
             // if the pivot was swapped because left index was equal to pivot index, update it to the index it was
diff --git a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
index 487673b..5841428 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
@@ -206,7 +206,7 @@ auto shift_median_to_leftmost_equal_value(std::size_t                    median_
         // Decrement the iterators while the left range isn't empty and the neighbor value at the left of the median is
         // still equal to the cut value at the corresponding feature index
         while (left_neighbor_it >= left_indices_range.first &&
-               common::equality(samples_range_first[left_neighbor_it[0] * n_features + feature_index], cut_value)) {
+               !(samples_range_first[left_neighbor_it[0] * n_features + feature_index] < cut_value)) {
             --left_neighbor_it;
         }
         // Update the ranges accordingly
-- 
2.43.0


From 125d3fa414f71bf6ecfbcb15fa2175c6fcf17fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:56 +0000
Subject: [PATCH 15/42] fix: a cut of the single linkage tree separates the
 clusters that are merged at or above the cut level

---
 .../single_linkage_cluster_tree/SingleLinkageClusterTree.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index de72049..c8a3f2d 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -153,9 +153,10 @@ void SingleLinkageClusterTree<IndexType, ValueType>::preorder_traversal_single_l
     ClusterIndexType                   cluster_label,
     const SingleLinkageClusterNodePtr& single_linkage_cluster_node,
     std::vector<ClusterIndexType>&     flat_cluster) const {
-    // consider updating the cluster label for the descendant nodes only if we are above or at the desired cut level
+    // consider updating the cluster label for the descendant nodes only if the parent is above or at the desired cut level
     // else the same cluster label will be used for all the descendant nodes from the current node
-    if (single_linkage_cluster_node->level_ >= options_.cut_level_) {
+    if (!single_linkage_cluster_node->has_parent() ||
+        single_linkage_cluster_node->parent_->level_ >= options_.cut_level_) {
         // set the cluster label as noise if the current node is parent of less than 'min cluster size' nodes
         // else set the cluster label as the one at the current level
         cluster_label = single_linkage_cluster_node->size() < options_.min_cluster_size_
-- 
2.43.0


From 703bd557045ecc2c34af343e683c34dd19244538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:04 +0000
Subject: [PATCH 16/42] fix: division only falls back to its default for a zero
 denominator, not for small ones

---
 include/ffcl/common/Utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/Utils.hpp b/include/ffcl/common/Utils.hpp
index 51d5707..be00704 100644
--- a/include/ffcl/common/Utils.hpp
+++ b/include/ffcl/common/Utils.hpp
@@ -430,7 +430,7 @@ constexpr bool inequality(const T& a, const U& b) noexcept {
 template <typename T, typename U>
 constexpr auto division(const T& numerator, const U& denominator, const U& default_return_value = 0)
     -> std::common_type_t<T, U> {
-    if (equality(denominator, static_cast<U>(0))) {
+    if (denominator == static_cast<U>(0)) {
 #if defined(VERBOSE) && VERBOSE == true
         printf("[WARN] attempted division by zero: returning default_return_value.\n");
 #endif
-- 
2.43.0


From 2b11c1a26018ae22da58e8277f33198340736034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:56 +0000
Subject: [PATCH 17/42] fix: DBSCAN adds border samples that were first visited
 as noise to the cluster that reaches them

---
 include/ffcl/dbscan/DBSCAN.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/dbscan/DBSCAN.hpp b/include/ffcl/dbscan/DBSCAN.hpp
index b8baa24..41f12e7 100644
--- a/include/ffcl/dbscan/DBSCAN.hpp
+++ b/include/ffcl/dbscan/DBSCAN.hpp
@@ -174,12 +174,14 @@ void DBSCAN<Indexer>::predict_inner(NeighborsIndices&                neighbors_i
                 auto inner_neighbors_indices = std::move(inner_neighbors_buffer).indices();
 
                 // iterate over each neighbor's neighbors and add them to the neighbors to visit only if
-                // they havent been visited already
+                // they havent been visited already or if they have been considered as noise so far
                 std::copy_if(std::make_move_iterator(inner_neighbors_indices.begin()),
                              std::make_move_iterator(inner_neighbors_indices.end()),
                              std::back_inserter(neighbors_indices),
-                             [&visited_indices](const auto& inner_neighbor_index) {
-                                 return !visited_indices[inner_neighbor_index];
+                             [&visited_indices, &predictions](const auto& inner_neighbor_index) {
+                                 return !visited_indices[inner_neighbor_index] ||
+                                        predictions[inner_neighbor_index] ==
+                                            static_cast<LabelType>(SampleStatus::noise);
                              });
             }
         }
-- 
2.43.0


From 0c9fe9b879a38ecbaa6525385960556dbf7a262e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:16 +0000
Subject: [PATCH 18/42] fix: argmin and argmax return an index, not an index
 converted to the type of the elements

---
 include/ffcl/common/math/statistics/Statistics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index c180269..6878218 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -49,13 +49,13 @@ void min_container_inplace_left(Container& left_container, const Container& righ
 }
 
 template <typename Iterator>
-auto argmin(const Iterator& first, const Iterator& last) -> typename std::iterator_traits<Iterator>::value_type {
+std::size_t argmin(const Iterator& first, const Iterator& last) {
     auto min_it = std::min_element(first, last);
     return std::distance(first, min_it);
 }
 
 template <typename Iterator>
-auto argmax(const Iterator& first, const Iterator& last) -> typename std::iterator_traits<Iterator>::value_type {
+std::size_t argmax(const Iterator& first, const Iterator& last) {
     auto max_it = std::max_element(first, last);
     return std::distance(first, max_it);
 }
-- 
2.43.0


From 3dba265e9531d5bc01bf850ee02fc01aeb6ca429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:16 +0000
Subject: [PATCH 19/42] fix: the mean of negative integral features is not
 computed modulo the unsigned number of samples

---
 include/ffcl/common/math/statistics/Statistics.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index 6878218..02bab80 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -154,7 +154,7 @@ auto compute_mean_per_feature(const SamplesIterator& samples_range_first,
     std::transform(/**/ mean_per_feature.begin(),
                    /**/ mean_per_feature.end(),
                    /**/ mean_per_feature.begin(),
-                   [n_samples](const auto& feature) { return feature / n_samples; });
+                   [n_samples](const auto& feature) { return feature / static_cast<std::ptrdiff_t>(n_samples); });
     return mean_per_feature;
 }
 
@@ -180,7 +180,7 @@ auto compute_mean_per_feature(const IndicesIterator& indices_range_first,
     std::transform(/**/ mean_per_feature.begin(),
                    /**/ mean_per_feature.end(),
                    /**/ mean_per_feature.begin(),
-                   [n_samples](const auto& feature) { return feature / n_samples; });
+                   [n_samples](const auto& feature) { return feature / static_cast<std::ptrdiff_t>(n_samples); });
     return mean_per_feature;
 }
 
@@ -209,7 +209,7 @@ auto compute_mean_per_feature(const IndicesIterator&          indices_range_firs
         /**/ mean_per_feature.begin(),
         /**/ mean_per_feature.end(),
         /**/ mean_per_feature.begin(),
-        [n_samples](const auto& feature) { return feature / n_samples; });
+        [n_samples](const auto& feature) { return feature / static_cast<std::ptrdiff_t>(n_samples); });
     return mean_per_feature;
 }
 
-- 
2.43.0


From 34878e78bb7a7ce3489682b543c61ba12291d23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:16 +0000
Subject: [PATCH 20/42] fix: the second maximum is not the position of the
 maximum when the others have the lowest value of the type

---
 include/ffcl/common/math/statistics/Statistics.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index 02bab80..b20968d 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -97,17 +97,16 @@ auto get_second_max_index_value_pair(const Iterator& first, const Iterator& last
     if (std::distance(first, last) < 2) {
         return {max_idx, max_value};
     }
-    // Replace the maximum element with the lowest possible value
-    *max_it = std::numeric_limits<DataType>::lowest();
+    // Get the second maximum element: the greatest one before or after the maximum element
+    const auto max_before_it = std::max_element(first, max_it);
+    const auto max_after_it  = std::max_element(std::next(max_it), last);
 
-    // Get the index of the second maximum element
-    const auto     second_max_it    = std::max_element(first, last);
+    const bool is_second_max_after = max_before_it == max_it || (max_after_it != last && *max_before_it < *max_after_it);
+
+    const auto     second_max_it    = is_second_max_after ? max_after_it : max_before_it;
     std::size_t    second_max_idx   = std::distance(first, second_max_it);
     const DataType second_max_value = *second_max_it;
 
-    // Restore the original maximum value
-    *max_it = max_value;
-
     return {second_max_idx, second_max_value};
 }
 
-- 
2.43.0


From 32c066ce635aa6f38ebf05117c96a0e2d5ec1686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:16 +0000
Subject: [PATCH 21/42] fix: cluster sizes are counted in std::size_t, not in
 the type of the labels

---
 include/ffcl/common/math/heuristics/SilhouetteMethod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
index 3742686..9b5ab8e 100644
--- a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
+++ b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
@@ -39,7 +39,7 @@ auto get_cluster_sizes(const ClusterLabelsIterator& cluster_labels_range_first,
     // n_centroids = 1 + greatest_centroid_index
     const auto n_centroids = 1 + *std::max_element(cluster_labels_range_first, cluster_labels_range_last);
     // n_labels = 1 + largest_label_index
-    auto labels_histogram = std::vector<ClusterLabelType>(n_centroids);
+    auto labels_histogram = std::vector<std::size_t>(n_centroids);
 
     auto cluster_labels_range_it = cluster_labels_range_first;
 
-- 
2.43.0


From ee36a09651abac38a24065491788b7f4d303125f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:16 +0000
Subject: [PATCH 22/42] fix: remap_ranges_from_indices visits every index
 whatever the type of the indices

---
 include/ffcl/common/Utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/common/Utils.hpp b/include/ffcl/common/Utils.hpp
index be00704..7c1aac2 100644
--- a/include/ffcl/common/Utils.hpp
+++ b/include/ffcl/common/Utils.hpp
@@ -598,9 +598,9 @@ InputContainer remap_ranges_from_indices(const IndicesContainer& indices,
     }
     // Create a copy container to store the elements (overlapping indices wont be copied)
     auto swapped = flattened_matrix;
-    for (IndicesType i = 0; i < static_cast<IndicesType>(indices.size()); ++i) {
+    for (std::size_t i = 0; i < indices.size(); ++i) {
         // indices must be non overlapping
-        if (indices[i] != i) {
+        if (static_cast<std::size_t>(indices[i]) != i) {
             std::copy(flattened_matrix.begin() + indices[i] * n_features,
                       flattened_matrix.begin() + indices[i] * n_features + n_features,
                       swapped.begin() + i * n_features);
-- 
2.43.0


From 11f03ce1cd452ddefff0a0f955197890e330df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:16 +0000
Subject: [PATCH 23/42] fix: the unsigned manhattan distance from the origin
 accepts unsigned features

---
 include/ffcl/common/math/heuristics/Distances.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/common/math/heuristics/Distances.hpp b/include/ffcl/common/math/heuristics/Distances.hpp
index 827c173..51a11a7 100644
--- a/include/ffcl/common/math/heuristics/Distances.hpp
+++ b/include/ffcl/common/math/heuristics/Distances.hpp
@@ -120,8 +120,8 @@ template <typename FeaturesIterator>
 auto unsigned_manhattan_distance_from_origin(const FeaturesIterator& features_range_first,
                                              const FeaturesIterator& features_range_last)
     -> decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>()) {
-    static_assert(std::is_signed<typename std::iterator_traits<FeaturesIterator>::value_type>::value,
-                  "Input must be signed.");
+    static_assert(std::is_unsigned<typename std::iterator_traits<FeaturesIterator>::value_type>::value,
+                  "Input must be unsigned.");
 
     using ResultType = decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>());
 
-- 
2.43.0


From c4d96dc2aa81352041f56e404d550194b73ab5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:54 +0000
Subject: [PATCH 24/42] fix: the Manhattan distances from the origin return a
 value, not a reference to a temporary

---
 include/ffcl/common/math/heuristics/Distances.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/ffcl/common/math/heuristics/Distances.hpp b/include/ffcl/common/math/heuristics/Distances.hpp
index 51a11a7..606fa0d 100644
--- a/include/ffcl/common/math/heuristics/Distances.hpp
+++ b/include/ffcl/common/math/heuristics/Distances.hpp
@@ -78,11 +78,13 @@ auto euclidean_distance(const LeftFeaturesIterator&  left_features_range_first,
 template <typename FeaturesIterator>
 auto manhattan_distance_from_origin(const FeaturesIterator& features_range_first,
                                     const FeaturesIterator& features_range_last)
-    -> decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>()) {
+    -> decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>() +
+                std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>()) {
     static_assert(std::is_signed<typename std::iterator_traits<FeaturesIterator>::value_type>::value,
                   "Input must be signed.");
 
-    using ResultType = decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>());
+    using ResultType = decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>() +
+                                std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>());
 
     return std::transform_reduce(features_range_first,
                                  features_range_last,
@@ -119,11 +121,13 @@ auto manhattan_distance(const LeftFeaturesIterator&  left_features_range_first,
 template <typename FeaturesIterator>
 auto unsigned_manhattan_distance_from_origin(const FeaturesIterator& features_range_first,
                                              const FeaturesIterator& features_range_last)
-    -> decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>()) {
+    -> decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>() +
+                std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>()) {
     static_assert(std::is_unsigned<typename std::iterator_traits<FeaturesIterator>::value_type>::value,
                   "Input must be unsigned.");
 
-    using ResultType = decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>());
+    using ResultType = decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>() +
+                                std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>());
 
     return std::transform_reduce(features_range_first,
                                  features_range_last,
-- 
2.43.0


From 851e45093551980af908b7e18210c2563b05e0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:04 +0000
Subject: [PATCH 25/42] fix: min-max normalisation of integral values is not
 truncated to 0 and 1

---
 include/ffcl/common/math/statistics/Statistics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index b20968d..60ad142 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -21,7 +21,7 @@ std::vector<DataType> normalize_min_max(const Iterator& first, const Iterator& l
     auto res = std::vector<DataType>(last - first);
     // closest objects get a higher score. Distance zero -> 1
     std::transform(first, last, res.begin(), [&min, &max](const auto& dist) {
-        return static_cast<DataType>(1) - (dist - *min) / (*max - *min);
+        return static_cast<DataType>(1) - static_cast<DataType>(dist - *min) / static_cast<DataType>(*max - *min);
     });
     return res;
 }
-- 
2.43.0


From 2986e9fe7e882091ec081e44114760af27c46463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:47 +0000
Subject: [PATCH 26/42] fix: select_n_random_samples_from_indices passes the
 number of choices

---
 include/ffcl/common/math/random/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/random/Sampling.hpp b/include/ffcl/common/math/random/Sampling.hpp
index 098f967..c386be4 100644
--- a/include/ffcl/common/math/random/Sampling.hpp
+++ b/include/ffcl/common/math/random/Sampling.hpp
@@ -99,7 +99,7 @@ auto select_n_random_samples_from_indices(const IndicesIterator& index_first,
     // clip n_choices to prevent overflows
     n_choices = std::min(n_choices, n_samples);
     // return n_choices distinctive indices from the pool of indices defined by the desired indices range
-    const auto random_distinct_indices = select_n_elements(index_first, index_last);
+    const auto random_distinct_indices = select_n_elements(index_first, index_last, n_choices);
 
     auto random_samples = std::vector<DataType>(n_choices * n_features);
 
-- 
2.43.0


From be07508ea06fa53f322f19327310ef6f8215faae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:33 +0000
Subject: [PATCH 27/42] fix: FasterMSC starts from the medoid silhouette loss,
 not the sum of the nearest distances

---
 include/ffcl/kmedoids/FasterMSC.hpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index 7935298..dce1771 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -103,10 +103,16 @@ template <typename SamplesIterator>
 FasterMSC<SamplesIterator>::FasterMSC(const DatasetDescriptorType&    dataset_descriptor,
                                       const std::vector<std::size_t>& medoids)
   : FasterMSC<SamplesIterator>::FasterMSC(dataset_descriptor, medoids, common::infinity<DataType>()) {
-    // compute initial loss
-    loss_ = std::accumulate(buffers_ptr_->samples_to_nearest_medoid_distances_.begin(),
-                            buffers_ptr_->samples_to_nearest_medoid_distances_.end(),
-                            static_cast<DataType>(0));
+    // compute initial loss: the sum of the ratios between the nearest and the second nearest medoid distances
+    loss_ = std::inner_product(buffers_ptr_->samples_to_nearest_medoid_distances_.begin(),
+                               buffers_ptr_->samples_to_nearest_medoid_distances_.end(),
+                               buffers_ptr_->samples_to_second_nearest_medoid_distances_.begin(),
+                               static_cast<DataType>(0),
+                               std::plus<>(),
+                               [](const auto& distance_1, const auto& distance_2) {
+                                   return common::division(std::min(distance_1, distance_2),
+                                                           std::max(distance_1, distance_2));
+                               });
 }
 
 template <typename SamplesIterator>
@@ -123,10 +129,16 @@ template <typename SamplesIterator>
 FasterMSC<SamplesIterator>::FasterMSC(const SecondVariantType&        pairwise_distance_matrix,
                                       const std::vector<std::size_t>& medoids)
   : FasterMSC<SamplesIterator>::FasterMSC(pairwise_distance_matrix, medoids, common::infinity<DataType>()) {
-    // compute initial loss
-    loss_ = std::accumulate(buffers_ptr_->samples_to_nearest_medoid_distances_.begin(),
-                            buffers_ptr_->samples_to_nearest_medoid_distances_.end(),
-                            static_cast<DataType>(0));
+    // compute initial loss: the sum of the ratios between the nearest and the second nearest medoid distances
+    loss_ = std::inner_product(buffers_ptr_->samples_to_nearest_medoid_distances_.begin(),
+                               buffers_ptr_->samples_to_nearest_medoid_distances_.end(),
+                               buffers_ptr_->samples_to_second_nearest_medoid_distances_.begin(),
+                               static_cast<DataType>(0),
+                               std::plus<>(),
+                               [](const auto& distance_1, const auto& distance_2) {
+                                   return common::division(std::min(distance_1, distance_2),
+                                                           std::max(distance_1, distance_2));
+                               });
 }
 
 template <typename SamplesIterator>
-- 
2.43.0


From 599f7faafe14674144238c925b0ca98b7a47b2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:33 +0000
Subject: [PATCH 28/42] fix: FasterMSC does not take the medoid at position 0
 for a missing third nearest medoid

---
 include/ffcl/kmedoids/FasterMSC.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index dce1771..6daf735 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -345,7 +345,7 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
                 index_1    = best_swap_index;
                 distance_1 = distance_oc;
 
-            } else if (distance_oc < distance_3 || index_3 == common::infinity<std::size_t>()) {
+            } else if (distance_oc < distance_3) {
                 index_1    = index_2;
                 distance_1 = distance_2;
                 index_2    = best_swap_index;
@@ -385,7 +385,7 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
                 index_1    = best_swap_index;
                 distance_1 = distance_oc;
 
-            } else if (distance_oc < distance_3 || index_3 == common::infinity<std::size_t>()) {
+            } else if (distance_oc < distance_3) {
                 index_2    = best_swap_index;
                 distance_2 = distance_oc;
 
@@ -429,7 +429,7 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
                 index_2    = best_swap_index;
                 distance_2 = distance_oc;
 
-            } else if (distance_oc < distance_3 || index_3 == common::infinity<std::size_t>()) {
+            } else if (distance_oc < distance_3) {
                 index_3    = best_swap_index;
                 distance_3 = distance_oc;
 
-- 
2.43.0


From 873bedc663fb1111da29bf1e22e63d8a05ca3b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:33 +0000
Subject: [PATCH 29/42] fix: FasterMSC with two medoids keeps its cached
 distances by medoid position

---
 include/ffcl/kmedoids/FasterMSC.hpp | 40 +++++++++++++++++------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index 6daf735..90e8f81 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -482,8 +482,9 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
         auto& distance_2 = samples_to_second_nearest_medoid_distances[other_sample_index];
 
         if (other_sample_index == medoid_candidate_index) {
-            index_1    = best_swap_index;
-            distance_1 = distance_2 = 0;
+            index_1 = best_swap_index;
+            // the distances are stored by medoid position
+            (best_swap_index == 0 ? distance_1 : distance_2) = 0;
             continue;
         }
         // candidate_to_other_distance
@@ -542,16 +543,19 @@ FasterMSC<SamplesIterator>::Buffers::Buffers(const SamplesIterator&          sam
                                                                                                    /*n_closest=*/3)
                                                : std::vector<std::size_t>({})}
 
-  , samples_to_nearest_medoid_distances_{pam::utils::samples_to_nth_nearest_medoid_distances(samples_range_first,
-                                                                                             samples_range_last,
-                                                                                             n_features,
-                                                                                             medoids,
-                                                                                             /*n_closest=*/1)}
-  , samples_to_second_nearest_medoid_distances_{pam::utils::samples_to_nth_nearest_medoid_distances(samples_range_first,
-                                                                                                    samples_range_last,
-                                                                                                    n_features,
-                                                                                                    medoids,
-                                                                                                    /*n_closest=*/2)}
+  , /* stored by medoid position instead of closeness when n_medoids = 2 (K2) */
+  samples_to_nearest_medoid_distances_{pam::utils::samples_to_nth_nearest_medoid_distances(
+      samples_range_first,
+      samples_range_last,
+      n_features,
+      (medoids.size() == 2) ? std::vector<std::size_t>({medoids[0]}) : medoids,
+      /*n_closest=*/1)}
+  , samples_to_second_nearest_medoid_distances_{pam::utils::samples_to_nth_nearest_medoid_distances(
+        samples_range_first,
+        samples_range_last,
+        n_features,
+        (medoids.size() == 2) ? std::vector<std::size_t>({medoids[1]}) : medoids,
+        /*n_closest=*/(medoids.size() == 2) ? 1 : 2)}
   , /* Not required when n_medoids = 2 (K2) */
   samples_to_third_nearest_medoid_distances_{
       (medoids.size() > 2) ? pam::utils::samples_to_nth_nearest_medoid_distances(samples_range_first,
@@ -598,13 +602,15 @@ FasterMSC<SamplesIterator>::Buffers::Buffers(const SecondVariantType&        pai
                                                                                /*n_closest=*/3)
                            : std::vector<std::size_t>({})}
 
-  , samples_to_nearest_medoid_distances_{pam::utils::samples_to_nth_nearest_medoid_distances(pairwise_distance_matrix,
-                                                                                             medoids,
-                                                                                             /*n_closest=*/1)}
+  , /* stored by medoid position instead of closeness when n_medoids = 2 (K2) */
+  samples_to_nearest_medoid_distances_{pam::utils::samples_to_nth_nearest_medoid_distances(
+      pairwise_distance_matrix,
+      (medoids.size() == 2) ? std::vector<std::size_t>({medoids[0]}) : medoids,
+      /*n_closest=*/1)}
   , samples_to_second_nearest_medoid_distances_{pam::utils::samples_to_nth_nearest_medoid_distances(
         pairwise_distance_matrix,
-        medoids,
-        /*n_closest=*/2)}
+        (medoids.size() == 2) ? std::vector<std::size_t>({medoids[1]}) : medoids,
+        /*n_closest=*/(medoids.size() == 2) ? 1 : 2)}
   , /* Not required when n_medoids = 2 (K2) */
   samples_to_third_nearest_medoid_distances_{
       (medoids.size() > 2) ? pam::utils::samples_to_nth_nearest_medoid_distances(pairwise_distance_matrix,
-- 
2.43.0


From a8f854e785196fffc915569b846a105a168d451d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:33 +0000
Subject: [PATCH 30/42] fix: FasterMSC compares tied distances exactly at every
 scale

---
 include/ffcl/kmedoids/FasterMSC.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index 90e8f81..6dbac69 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -495,7 +495,7 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
 
         if (best_swap_index == 0) {
             distance_1 = distance_oc;
-            if (distance_oc < distance_2 || (common::equality(distance_oc, distance_2) && index_1 == 0)) {
+            if (distance_oc < distance_2 || (!(distance_2 < distance_oc) && index_1 == 0)) {
                 index_1 = 0;
                 loss += common::division(distance_oc, distance_2);
             } else {
@@ -504,7 +504,7 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
             }
         } else {
             distance_2 = distance_oc;
-            if (distance_oc < distance_1 || (common::equality(distance_oc, distance_1) && index_1 == 1)) {
+            if (distance_oc < distance_1 || (!(distance_1 < distance_oc) && index_1 == 1)) {
                 index_1 = 1;
                 loss += common::division(distance_oc, distance_1);
             } else {
-- 
2.43.0


From ce008ffa82ff4caf7f3427f87251fc5e1f5eb22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:33 +0000
Subject: [PATCH 31/42] fix: the first medoid is found for integral distances

---
 include/ffcl/kmedoids/PAMUtils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/kmedoids/PAMUtils.hpp b/include/ffcl/kmedoids/PAMUtils.hpp
index 2926ac7..4cc6172 100644
--- a/include/ffcl/kmedoids/PAMUtils.hpp
+++ b/include/ffcl/kmedoids/PAMUtils.hpp
@@ -701,7 +701,7 @@ std::pair<typename std::iterator_traits<SamplesIterator>::value_type, std::size_
     const std::size_t n_samples = ffcl::common::get_n_samples(samples_range_first, samples_range_last, n_features);
 
     std::size_t selected_medoid = 0;
-    auto        total_deviation = ffcl::common::infinity<DataType>();
+    auto        total_deviation = std::numeric_limits<DataType>::max();
     // choose the first medoid
     for (std::size_t medoid_candidate_idx = 0; medoid_candidate_idx < n_samples; ++medoid_candidate_idx) {
         // total deviation accumulator w.r.t. current candidate medoid and all the other points
@@ -734,7 +734,7 @@ std::pair<typename std::iterator_traits<SamplesIterator>::value_type, std::size_
     const std::size_t n_samples = pairwise_distance_matrix.n_rows();
 
     std::size_t selected_medoid = 0;
-    auto        total_deviation = ffcl::common::infinity<DataType>();
+    auto        total_deviation = std::numeric_limits<DataType>::max();
     // choose the first medoid
     for (std::size_t medoid_candidate_idx = 0; medoid_candidate_idx < n_samples; ++medoid_candidate_idx) {
         // total deviation accumulator w.r.t. current candidate medoid and all the other points
-- 
2.43.0


From 4e36e29fb74cb2c197b5885d29d3dac989c410f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:33 +0000
Subject: [PATCH 32/42] fix: the longest axis of a bound is measured without
 wrapping unsigned features

---
 include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
index 5841428..70ab873 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
@@ -17,7 +17,7 @@ namespace ffcl::datastruct::kdtree::algorithms {
 template <typename Bound>
 std::size_t select_longest_axis(const Bound& bound) {
     const auto comparison = [](const auto& lhs, const auto& rhs) {
-        return common::abs(lhs.lower_bound() - lhs.upper_bound()) < common::abs(rhs.lower_bound() - rhs.upper_bound());
+        return common::abs(lhs.upper_bound() - lhs.lower_bound()) < common::abs(rhs.upper_bound() - rhs.lower_bound());
     };
     const auto it = std::max_element(bound.segments_begin(), bound.segments_end(), comparison);
     return std::distance(bound.segments_begin(), it);
-- 
2.43.0


From c09db42f5a4134698810da90f4b55e18916a370e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:50 +0000
Subject: [PATCH 33/42] fix: pruning distance to the splitting plane wrapped
 around with unsigned features

---
 include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp b/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp
index e20740b..e46f9ef 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp
@@ -228,14 +228,18 @@ auto KDNodeView<IndicesIterator, Bound>::select_sibling_node(
         // get the value of the query according to the split dimension
         const auto query_split_value = query_buffer.centroid_begin()[parent_node->cut_axis_feature_index_];
 
+        // subtract the smallest value from the greatest one so that unsigned values don't wrap around
+        const auto axiswise_distance = query_split_value < pivot_split_value ? pivot_split_value - query_split_value
+                                                                             : query_split_value - pivot_split_value;
+
         const bool is_left_child_ret = is_left_child();
         // if the axiswise distance is equal to the current furthest nearest neighbor distance, there could be a
         // nearest neighbor to the other side of the hyperrectangle since the values that are equal to the pivot are
         // put to the right
         auto visit_sibling = [&]() {
-            return is_left_child_ret ? common::abs(pivot_split_value - query_split_value) <=
+            return is_left_child_ret ? axiswise_distance <=
                                            query_buffer.furthest_distance(parent_node->cut_axis_feature_index_)
-                                     : common::abs(pivot_split_value - query_split_value) <
+                                     : axiswise_distance <
                                            query_buffer.furthest_distance(parent_node->cut_axis_feature_index_);
         };
         return query_buffer.remaining_capacity() || visit_sibling()
-- 
2.43.0


From fe5b21afbc21ce3a25737c7de0bd967d2937db04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:50 +0000
Subject: [PATCH 34/42] fix: bounded buffers started with a zero furthest
 distance for integral distances

---
 include/ffcl/search/buffer/StaticBuffer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ffcl/search/buffer/StaticBuffer.hpp b/include/ffcl/search/buffer/StaticBuffer.hpp
index 205fd86..b619409 100644
--- a/include/ffcl/search/buffer/StaticBuffer.hpp
+++ b/include/ffcl/search/buffer/StaticBuffer.hpp
@@ -8,6 +8,7 @@
 #include "ffcl/datastruct/bounds/UnboundedBall.hpp"  // default bound
 
 #include <cstddef>
+#include <limits>
 #include <tuple>
 #include <vector>
 
@@ -47,7 +48,8 @@ class StaticBuffer {
       , closest_index_{0}
       , closest_distance_{common::infinity<DistanceType>()}
       , buffer_index_of_furthest_index_{0}
-      , furthest_distance_{common::infinity<DistanceType>()}
+      , furthest_distance_{std::numeric_limits<DistanceType>::has_infinity ? common::infinity<DistanceType>()
+                                                                           : std::numeric_limits<DistanceType>::max()}
       , max_capacity_{max_capacity} {}
 
     constexpr auto centroid_begin() const {
-- 
2.43.0


From 77369977018229638cd2eca508a02793d85dcbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:07 +0000
Subject: [PATCH 35/42] fix: serialized trees read their numbers back with full
 precision

---
 include/ffcl/datastruct/tree/kdtree/KDTree.hpp                  | 2 +-
 .../single_linkage_cluster_tree/SingleLinkageClusterTree.hpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
index f0dfd8d..cb3f528 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
@@ -451,7 +451,7 @@ void KDTree<IndicesIterator, SamplesIterator>::serialize(const fs::path& filepat
     }
     writer.EndObject();
 
-    document.Parse(buffer.GetString());
+    document.Parse<rapidjson::kParseFullPrecisionFlag>(buffer.GetString());
 
     std::ofstream output_file(filepath);
 
diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index c8a3f2d..db8a141 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -272,7 +272,7 @@ void SingleLinkageClusterTree<IndexType, ValueType>::serialize(const fs::path& f
     }
     writer.EndObject();
 
-    document.Parse(buffer.GetString());
+    document.Parse<rapidjson::kParseFullPrecisionFlag>(buffer.GetString());
 
     std::ofstream output_file(filepath);
 
-- 
2.43.0


From 5bd0d28e7bf4a919dfc8ca801b7380247a2082b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:07 +0000
Subject: [PATCH 36/42] fix: Boruvka's default edge is longer than any distance
 for integral features too

---
 .../datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp  | 8 ++++----
 .../graph/spanning_tree/MinimumSpanningTree.hpp           | 7 ++++++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp b/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
index 8e3ca50..e865f3d 100644
--- a/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
+++ b/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
@@ -328,7 +328,7 @@ void BoruvkasAlgorithm<Indexer>::step_sequential(const search::Searcher<Indexer>
     }
     // merge components based on the best edges found in each component so far
     for (const auto& [component_representative, edge] : components_closest_edge) {
-        assert(std::get<2>(edge) < common::infinity<ValueType>());
+        assert(std::get<2>(edge) < std::get<2>(datastruct::mst::make_default_edge<IndexType, ValueType>()));
         common::ignore_parameters(component_representative);
         forest.merge_components(edge);
     }
@@ -359,7 +359,7 @@ void BoruvkasAlgorithm<Indexer>::step_sequential(const search::Searcher<Indexer>
     }
     // merge components based on the best edges found in each component so far
     for (const auto& [component_representative, edge] : components_closest_edge) {
-        assert(std::get<2>(edge) < common::infinity<ValueType>());
+        assert(std::get<2>(edge) < std::get<2>(datastruct::mst::make_default_edge<IndexType, ValueType>()));
         common::ignore_parameters(component_representative);
         forest.merge_components(edge);
     }
@@ -528,7 +528,7 @@ void BoruvkasAlgorithm<Indexer>::step_dual_tree_sequential(const search::Searche
     }
     // merge components based on the best edges found in each component so far
     for (const auto& [component_representative, edge] : components_closest_edge) {
-        assert(std::get<2>(edge) < common::infinity<ValueType>());
+        assert(std::get<2>(edge) < std::get<2>(datastruct::mst::make_default_edge<IndexType, ValueType>()));
         common::ignore_parameters(component_representative);
         forest.merge_components(edge);
     }
@@ -585,7 +585,7 @@ void BoruvkasAlgorithm<Indexer>::step_dual_tree_parallel(const search::Searcher<
 
     // Sequentially merge components based on the best edges found in each component
     for (const auto& [component_representative, edge] : components_closest_edge) {
-        assert(std::get<2>(edge) < common::infinity<ValueType>());
+        assert(std::get<2>(edge) < std::get<2>(datastruct::mst::make_default_edge<IndexType, ValueType>()));
         common::ignore_parameters(component_representative);
         forest.merge_components(edge);
     }
diff --git a/include/ffcl/datastruct/graph/spanning_tree/MinimumSpanningTree.hpp b/include/ffcl/datastruct/graph/spanning_tree/MinimumSpanningTree.hpp
index 5f105ea..25ec5fd 100644
--- a/include/ffcl/datastruct/graph/spanning_tree/MinimumSpanningTree.hpp
+++ b/include/ffcl/datastruct/graph/spanning_tree/MinimumSpanningTree.hpp
@@ -3,6 +3,7 @@
 #include "ffcl/common/Utils.hpp"
 
 #include <algorithm>
+#include <limits>
 #include <tuple>
 #include <vector>
 
@@ -23,7 +24,11 @@ constexpr auto make_edge(const Index& index_1, const Index& index_2, const Dista
 
 template <typename Index, typename Distance>
 constexpr auto make_default_edge() {
-    return make_edge(common::infinity<Index>(), common::infinity<Index>(), common::infinity<Distance>());
+    // an integral distance has no infinity: the greatest value stands for it
+    return make_edge(common::infinity<Index>(),
+                     common::infinity<Index>(),
+                     std::numeric_limits<Distance>::has_infinity ? common::infinity<Distance>()
+                                                                 : std::numeric_limits<Distance>::max());
 }
 
 template <typename Index, typename Distance>
-- 
2.43.0


From b78bd98dd5c3bbe450602f0870a4a228db3c77fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:07 +0000
Subject: [PATCH 37/42] fix: bucket size and maximum depth are written as the
 unsigned numbers they are

---
 include/ffcl/datastruct/tree/kdtree/KDTree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
index cb3f528..6c8f313 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
@@ -110,10 +110,10 @@ class KDTree {
             writer.StartObject();
             {
                 writer.String("bucket_size");
-                writer.Int64(bucket_size_);
+                writer.Uint64(bucket_size_);
 
                 writer.String("max_depth");
-                writer.Int64(max_depth_);
+                writer.Uint64(max_depth_);
             }
             writer.EndObject();
         }
-- 
2.43.0


From 9fdc02513ff296584a2b388b513cb530a52cd894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:13 +0000
Subject: [PATCH 38/42] fix: AABBWithCentroid of a fixed number of features was
 cast to the dynamic type

---
 include/ffcl/datastruct/bounds/AABBWithCentroid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
index e7d49d4..8090dba 100644
--- a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
+++ b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
@@ -11,7 +11,7 @@
 namespace ffcl::datastruct::bounds {
 
 template <typename Segment, std::size_t NFeatures = 0>
-class AABBWithCentroid : public StaticBoundWithCentroid<AABBWithCentroid<Segment>> {
+class AABBWithCentroid : public StaticBoundWithCentroid<AABBWithCentroid<Segment, NFeatures>> {
     static_assert(common::is_crtp_of<Segment, segment::StaticSegment>::value,
                   "Provided a Segment that does not inherit from segment::StaticSegment<Derived>");
 
-- 
2.43.0


From b9c45daa14262064f13289b55dea763201a98a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:43 +0000
Subject: [PATCH 39/42] fix: unsigned features of 2^63 or more were serialized
 as negative numbers

---
 include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp | 6 +++++-
 include/ffcl/datastruct/tree/kdtree/KDTree.hpp     | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp b/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp
index e46f9ef..3d3671c 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp
@@ -291,7 +291,11 @@ void KDNodeView<IndicesIterator, Bound>::serialize(rapidjson::Writer<rapidjson::
     for (auto subrange_index_it = indices_range_first; subrange_index_it != indices_range_last; ++subrange_index_it) {
         writer.StartArray();
         for (std::size_t feature_index = 0; feature_index < reference_n_features; ++feature_index) {
-            if constexpr (std::is_integral_v<DataType>) {
+            if constexpr (std::is_unsigned_v<DataType>) {
+                writer.Uint64(
+                    reference_samples_range_first[*subrange_index_it * reference_n_features + feature_index]);
+
+            } else if constexpr (std::is_integral_v<DataType>) {
                 writer.Int64(reference_samples_range_first[*subrange_index_it * reference_n_features + feature_index]);
 
             } else if constexpr (std::is_floating_point_v<DataType>) {
diff --git a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
index 6c8f313..5fe1a1f 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
@@ -434,7 +434,11 @@ void KDTree<IndicesIterator, SamplesIterator>::serialize(const fs::path& filepat
         for (std::size_t feature_index = 0; feature_index < n_features_; ++feature_index) {
             writer.StartArray();
 
-            if constexpr (std::is_integral_v<DataType>) {
+            if constexpr (std::is_unsigned_v<DataType>) {
+                writer.Uint64(bound_.segment_at(feature_index).lower_bound());
+                writer.Uint64(bound_.segment_at(feature_index).upper_bound());
+
+            } else if constexpr (std::is_integral_v<DataType>) {
                 writer.Int64(bound_.segment_at(feature_index).lower_bound());
                 writer.Int64(bound_.segment_at(feature_index).upper_bound());
 
-- 
2.43.0


From cca99fc7ec3ae05ccb0977d8089304e03466132e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:43 +0000
Subject: [PATCH 40/42] fix: the highest variance axis of two samples was
 chosen from the whole dataset

---
 include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
index 70ab873..eaaf51b 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
@@ -88,7 +88,8 @@ std::size_t select_largest_variance_axis(const IndicesIterator& indices_range_fi
     // select the axis according to the dimension with the most spread between 2 points
     if (n_samples == 2) {
         // otherwise apply the bounding box method
-        auto bound = make_tight_bound<SamplesIterator, Bound>(samples_range_first, samples_range_last, n_features);
+        auto bound = make_tight_bound<IndicesIterator, SamplesIterator, Bound>(
+            indices_range_first, indices_range_last, samples_range_first, samples_range_last, n_features);
 
         return select_longest_axis(bound);
     }
@@ -147,7 +148,8 @@ std::size_t select_largest_variance_axis(const IndicesIterator&          indices
     // select the axis according to the dimension with the most spread between 2 points
     if (n_samples == 2) {
         // otherwise apply the bounding box method
-        auto bound = make_tight_bound<SamplesIterator, Bound>(samples_range_first, samples_range_last, n_features);
+        auto bound = make_tight_bound<IndicesIterator, SamplesIterator, Bound>(
+            indices_range_first, indices_range_last, samples_range_first, samples_range_last, n_features);
 
         return select_longest_axis(bound, feature_mask);
     }
-- 
2.43.0


From 273ca5628995be643a7834d2e3552fa6a723466c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:43 +0000
Subject: [PATCH 41/42] fix: dual tree searches lost the excluded samples when
 they were passed as a temporary

---
 include/ffcl/search/buffer/IndicesToBuffersMap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ffcl/search/buffer/IndicesToBuffersMap.hpp b/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
index 7cb5764..e38592a 100644
--- a/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
+++ b/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
@@ -314,9 +314,10 @@ constexpr auto IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::find
     auto index_to_buffer_it = queries_to_buffers_map_.find(index);
     // If the current index does not have an associated buffer in the map,
     if (index_to_buffer_it == queries_to_buffers_map_.end()) {
+        // the arguments are shared by the buffers of all the queries: they must not be moved from
         auto buffer = BufferType(/**/ features_range_first,
                                  /**/ features_range_last,
-                                 /**/ std::forward<BufferArgs>(buffer_args)...);
+                                 /**/ buffer_args...);
         // Attempt to insert the newly created buffer into the map. If an element with the same
         // index already exists, emplace does nothing. Otherwise, it inserts the new element.
         // The method returns a pair, where the first element is an iterator to the inserted element
-- 
2.43.0


From f2bc933d498db626deea3ec030ea9bcb8729cdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:07 +0000
Subject: [PATCH 42/42] fix: cluster tree nodes only observe their parent, so
 that released hierarchies free their memory

---
 .../CondensedClusterNode.hpp                  | 26 +++++++++++++++++--
 .../SingleLinkageClusterNode.hpp              | 26 +++++++++++++++++--
 .../SingleLinkageClusterTree.hpp              |  2 +-
 3 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
index ee2593e..ef3cd89 100644
--- a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
+++ b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
@@ -5,6 +5,8 @@
 #include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp"
 
 #include <memory>
+#include <utility>
+#include <vector>
 
 namespace ffcl::datastruct {
 
@@ -24,6 +26,8 @@ struct CondensedClusterNode {
 
     CondensedClusterNode(SingleLinkageClusterNodePtr single_linkage_cluster_node);
 
+    ~CondensedClusterNode();
+
     bool is_leaf() const;
 
     bool& is_selected();
@@ -46,7 +50,9 @@ struct CondensedClusterNode {
     // selected cluster if marked as true if shallower cluster nodes are also marked as selected.
     bool is_selected_;
     // parent pointer used to parse from the leaves to the root and the left/right ones for the opposite direction
-    NodePtr parent_, left_, right_;
+    // the children are owned by their parent, which is therefore only observed by them (avoids ownership cycles)
+    std::weak_ptr<NodeType> parent_;
+    NodePtr                 left_, right_;
 };
 
 template <typename IndexType, typename ValueType>
@@ -54,11 +60,27 @@ CondensedClusterNode<IndexType, ValueType>::CondensedClusterNode(
     SingleLinkageClusterNodePtr single_linkage_cluster_node)
   : single_linkage_cluster_node_root_{single_linkage_cluster_node}
   , lambda_min_{single_linkage_cluster_node_root_->has_parent()
-                    ? common::division(1, single_linkage_cluster_node_root_->parent_->level_)
+                    ? common::division(1, single_linkage_cluster_node_root_->parent_.lock()->level_)
                     : 0}
   , stability_{0}
   , is_selected_{false} {}
 
+template <typename IndexType, typename ValueType>
+CondensedClusterNode<IndexType, ValueType>::~CondensedClusterNode() {
+    // releases the descendants iteratively: the depth of the tree can be as large as the number of samples
+    std::vector<NodePtr> released_nodes = {std::move(left_), std::move(right_)};
+
+    while (!released_nodes.empty()) {
+        const auto node = std::move(released_nodes.back());
+        released_nodes.pop_back();
+        // steal the children of a node only if it is about to be destroyed
+        if (node && node.use_count() == 1) {
+            released_nodes.emplace_back(std::move(node->left_));
+            released_nodes.emplace_back(std::move(node->right_));
+        }
+    }
+}
+
 template <typename IndexType, typename ValueType>
 bool CondensedClusterNode<IndexType, ValueType>::is_leaf() const {
     return left_ == nullptr && right_ == nullptr;
diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp
index fe44a12..133a269 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp
@@ -5,6 +5,8 @@
 #include <cstdio>
 #include <memory>
 #include <numeric>
+#include <utility>
+#include <vector>
 
 #include "rapidjson/writer.h"
 
@@ -23,6 +25,8 @@ struct SingleLinkageClusterNode {
 
     SingleLinkageClusterNode(const IndexType& representative, const ValueType& level = 0, std::size_t cluster_size = 1);
 
+    ~SingleLinkageClusterNode();
+
     bool is_leaf() const;
 
     std::size_t size() const;
@@ -38,7 +42,9 @@ struct SingleLinkageClusterNode {
     // the number of nodes that this node is an ancestor of (counting itself)
     std::size_t cluster_size_;
     // parent pointer used to parse from the leaves to the root and the left/right ones for the opposite direction
-    NodePtr parent_, left_, right_;
+    // the children are owned by their parent, which is therefore only observed by them (avoids ownership cycles)
+    std::weak_ptr<NodeType> parent_;
+    NodePtr                 left_, right_;
 };
 
 template <typename IndexType, typename ValueType>
@@ -49,6 +55,22 @@ SingleLinkageClusterNode<IndexType, ValueType>::SingleLinkageClusterNode(const I
   , level_{level}
   , cluster_size_{cluster_size} {}
 
+template <typename IndexType, typename ValueType>
+SingleLinkageClusterNode<IndexType, ValueType>::~SingleLinkageClusterNode() {
+    // releases the descendants iteratively: the depth of the tree can be as large as the number of samples
+    std::vector<NodePtr> released_nodes = {std::move(left_), std::move(right_)};
+
+    while (!released_nodes.empty()) {
+        const auto node = std::move(released_nodes.back());
+        released_nodes.pop_back();
+        // steal the children of a node only if it is about to be destroyed
+        if (node && node.use_count() == 1) {
+            released_nodes.emplace_back(std::move(node->left_));
+            released_nodes.emplace_back(std::move(node->right_));
+        }
+    }
+}
+
 template <typename IndexType, typename ValueType>
 bool SingleLinkageClusterNode<IndexType, ValueType>::is_leaf() const {
     // could do level_ == 0 but that might require performing float equality
@@ -62,7 +84,7 @@ std::size_t SingleLinkageClusterNode<IndexType, ValueType>::size() const {
 
 template <typename IndexType, typename ValueType>
 bool SingleLinkageClusterNode<IndexType, ValueType>::has_parent() const {
-    return parent_ != nullptr;
+    return !parent_.expired();
 }
 
 template <typename IndexType, typename ValueType>
diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index db8a141..95d7eef 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -156,7 +156,7 @@ void SingleLinkageClusterTree<IndexType, ValueType>::preorder_traversal_single_l
     // consider updating the cluster label for the descendant nodes only if the parent is above or at the desired cut level
     // else the same cluster label will be used for all the descendant nodes from the current node
     if (!single_linkage_cluster_node->has_parent() ||
-        single_linkage_cluster_node->parent_->level_ >= options_.cut_level_) {
+        single_linkage_cluster_node->parent_.lock()->level_ >= options_.cut_level_) {
         // set the cluster label as noise if the current node is parent of less than 'min cluster size' nodes
         // else set the cluster label as the one at the current level
         cluster_label = single_linkage_cluster_node->size() < options_.min_cluster_size_
-- 
2.43.0

