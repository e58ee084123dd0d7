From b4392db94018732554d28fa167e0243487b274fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:49 +0000
Subject: [PATCH 01/54] fix: WithMemory kept a reference to its own member,
 dangling once the buffer was moved

---
 include/ffcl/search/buffer/WithMemory.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/ffcl/search/buffer/WithMemory.hpp b/include/ffcl/search/buffer/WithMemory.hpp
index 8f84c03..087b5c8 100644
--- a/include/ffcl/search/buffer/WithMemory.hpp
+++ b/include/ffcl/search/buffer/WithMemory.hpp
@@ -34,21 +34,21 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
     explicit WithMemory(BoundType&& bound, const IndexType& max_capacity = common::infinity<IndexType>())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{}
-      , visited_indices_const_reference_{visited_indices_} {}
+      , external_visited_indices_ptr_{nullptr} {}
 
     WithMemory(BoundType&&           bound,
                const VisitedIndices& visited_indices_reference,
                const IndexType&      max_capacity = common::infinity<IndexType>())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{}
-      , visited_indices_const_reference_{visited_indices_reference} {}
+      , external_visited_indices_ptr_{&visited_indices_reference} {}
 
     WithMemory(BoundType&&      bound,
                VisitedIndices&& visited_indices,
                const IndexType& max_capacity = common::infinity<IndexType>())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{std::move(visited_indices)}
-      , visited_indices_const_reference_{visited_indices_} {}
+      , external_visited_indices_ptr_{nullptr} {}
 
     WithMemory(BoundType&&                       bound,
                const VisitedIndicesIteratorType& visited_indices_first,
@@ -89,8 +89,10 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
 
     void update_impl(const IndexType& index_candidate, const DistanceType& distance_candidate) {
         // consider an update only if the candidate hasnt been visited
-        const bool is_candidate_valid =
-            visited_indices_const_reference_.find(index_candidate) == visited_indices_const_reference_.end();
+        const auto& visited_indices =
+            external_visited_indices_ptr_ ? *external_visited_indices_ptr_ : visited_indices_;
+
+        const bool is_candidate_valid = visited_indices.find(index_candidate) == visited_indices.end();
 
         if (is_candidate_valid) {
             this->update_static_buffers(index_candidate, distance_candidate);
@@ -120,8 +122,11 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
     }
 
   private:
-    VisitedIndices        visited_indices_;
-    const VisitedIndices& visited_indices_const_reference_;
+    // Owned by the buffer. Not used if external_visited_indices_ptr_ is set.
+    VisitedIndices visited_indices_;
+    // Points to the indices owned by the caller, nullptr if the buffer owns them: a reference to visited_indices_ would
+    // dangle as soon as the buffer is copied or moved.
+    const VisitedIndices* external_visited_indices_ptr_;
 };
 
 // Declare and define a static_base_traits specialization for WithMemory:
-- 
2.43.0


From 0719f79e1325e25412fb8283f226d4cb3731ff2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:51 +0000
Subject: [PATCH 02/54] fix: partition_around_pivot_index mis-ordered values
 closer together than the machine epsilon

The surrounding comparisons are exact, the two in the middle used an absolute
epsilon, so that quickselect and quicksort left such values out of order.
---
 include/ffcl/common/algorithms/Sorting.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/ffcl/common/algorithms/Sorting.hpp b/include/ffcl/common/algorithms/Sorting.hpp
index e70a5fe..de81e3b 100644
--- a/include/ffcl/common/algorithms/Sorting.hpp
+++ b/include/ffcl/common/algorithms/Sorting.hpp
@@ -107,8 +107,7 @@ std::size_t partition_around_pivot_index(const IndicesIterator& indices_range_fi
         // left_index (!= || ==) pivot_index && pivot_index (!= || ==) right_index
 
         // pivot_value > right_value
-        if (inequality(pivot_value,
-                       samples_range_first[indices_range_first[right_index] * n_features + feature_index])) {
+        if (samples_range_first[indices_range_first[right_index] * n_features + feature_index] < pivot_value) {
             // swap left_value and right_value
             std::iter_swap(indices_range_first + left_index, indices_range_first + right_index);
             // if the pivot was swapped because left index was equal to pivot index, update it to the index it was
@@ -123,8 +122,7 @@ std::size_t partition_around_pivot_index(const IndicesIterator& indices_range_fi
         // else if pivot_value == right_value
         else {
             // if left_value == pivot_value
-            if (equality(samples_range_first[indices_range_first[left_index] * n_features + feature_index],
-                         pivot_value)) {
+            if (!(pivot_value < samples_range_first[indices_range_first[left_index] * n_features + feature_index])) {
                 // dont swap if the left_index == pivot_index
                 if (static_cast<std::size_t>(left_index) != pivot_index) {
                     // swap the ranges so that the range of the left index is put at the right of the pivot
-- 
2.43.0


From ee6c55b60a86c367b81708df673d90da20ac6af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:51 +0000
Subject: [PATCH 03/54] fix: the kd-tree median was shifted over values within
 epsilon of the cut value, not only equal ones

The left subtree could then hold samples above the cut value and the right one
samples below it, and nearest neighbour searches pruned the wrong side.
---
 include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
index 487673b..c8d5a5f 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
@@ -206,7 +206,7 @@ auto shift_median_to_leftmost_equal_value(std::size_t                    median_
         // Decrement the iterators while the left range isn't empty and the neighbor value at the left of the median is
         // still equal to the cut value at the corresponding feature index
         while (left_neighbor_it >= left_indices_range.first &&
-               common::equality(samples_range_first[left_neighbor_it[0] * n_features + feature_index], cut_value)) {
+               samples_range_first[left_neighbor_it[0] * n_features + feature_index] == cut_value) {
             --left_neighbor_it;
         }
         // Update the ranges accordingly
-- 
2.43.0


From 436586f7542f41ff5c2c007110f14fbff9dbe40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:22 +0000
Subject: [PATCH 04/54] fix: a KDTree built with the default options never
 split

The default depth limit was meant to be unlimited but
std::numeric_limits<std::size_t>::infinity() is 0, so the tree was a single leaf
whatever the bucket size.
---
 include/ffcl/datastruct/tree/kdtree/KDTree.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
index 23b2ad7..9b16f91 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
@@ -17,6 +17,7 @@
 #include <algorithm>
 #include <array>
 #include <cstddef>  // std::size_t
+#include <limits>
 #include <memory>
 #include <tuple>
 
@@ -60,7 +61,7 @@ class KDTree {
     struct Options {
         Options()
           : bucket_size_{40}
-          , max_depth_{common::infinity<std::size_t>()}
+          , max_depth_{std::numeric_limits<std::size_t>::max()}
           , axis_selection_policy_ptr_{std::make_shared<
                 kdtree::policy::HighestVarianceBuild<IndicesIteratorType, SamplesIteratorType, BoundType>>()}
           , splitting_rule_policy_ptr_{
@@ -113,7 +114,7 @@ class KDTree {
                 writer.Int64(bucket_size_);
 
                 writer.String("max_depth");
-                writer.Int64(max_depth_);
+                writer.Uint64(max_depth_);
             }
             writer.EndObject();
         }
-- 
2.43.0


From 69f1b400069379e5cd980d4d41660ccce9844fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:20 +0000
Subject: [PATCH 05/54] fix: the left-rounded centre of an integer range was
 off by one for negative even sums

(-4 + 0) / 2 gave -3: the result was moved to the left even when nothing had been rounded.
---
 include/ffcl/common/Utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/Utils.hpp b/include/ffcl/common/Utils.hpp
index 51d5707..30a777c 100644
--- a/include/ffcl/common/Utils.hpp
+++ b/include/ffcl/common/Utils.hpp
@@ -447,7 +447,7 @@ constexpr auto compute_center_with_left_rounding(const T& lower, const U& upper)
     const auto lower_plus_upper = lower + upper;
 
     if constexpr (std::is_integral_v<std::common_type_t<T, U>>) {
-        return lower_plus_upper < 0 ? lower_plus_upper / 2 - 1 : lower_plus_upper / 2;
+        return lower_plus_upper < 0 ? (lower_plus_upper - 1) / 2 : lower_plus_upper / 2;
 
     } else {
         // For floating point, regular calculation suffices
-- 
2.43.0


From dad849c28ea5025252831ce4bc225b9162102e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:20 +0000
Subject: [PATCH 06/54] fix:
 AABBWithCentroid::centroid_to_furthest_bound_distance truncated the distance
 to an integer

---
 include/ffcl/datastruct/bounds/AABBWithCentroid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
index b21ec72..e7d49d4 100644
--- a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
+++ b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
@@ -161,7 +161,7 @@ constexpr auto AABBWithCentroid<Segment, NFeatures>::compute_distance_to_centroi
 
 template <typename Segment, std::size_t NFeatures>
 constexpr auto AABBWithCentroid<Segment, NFeatures>::centroid_to_furthest_bound_distance_impl() const {
-    auto furthest_distance = 0;
+    ValueType furthest_distance = 0;
 
     for (const auto& segment : segments_) {
         const auto candidate_furthest_distance = segment.centroid_to_bound_distance();
-- 
2.43.0


From 9fa2bd834acb11e0942b0ea8818f765edc47acd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:20 +0000
Subject: [PATCH 07/54] fix: LowerBoundAndLength::update_lower_bound also moved
 the upper bound

---
 include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp b/include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp
index 989ec1d..d856355 100644
--- a/include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp
+++ b/include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp
@@ -47,6 +47,8 @@ constexpr auto LowerBoundAndLength<Value>::lower_bound_impl() const {
 
 template <typename Value>
 void LowerBoundAndLength<Value>::update_lower_bound_impl(const ValueType& new_lower_bound) {
+    // the upper bound stays where it is
+    segment_representation_.second += segment_representation_.first - new_lower_bound;
     segment_representation_.first = new_lower_bound;
 }
 
-- 
2.43.0


From 31655952c10ddfb0e86506e90946e7c4e95d5695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:44 +0000
Subject: [PATCH 08/54] fix: manhattan distances from the origin returned a
 dangling reference

The return type was decltype(std::declval<T>()), an rvalue reference to the
temporary result; the unsigned variant also rejected unsigned values.
---
 include/ffcl/common/math/heuristics/Distances.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ffcl/common/math/heuristics/Distances.hpp b/include/ffcl/common/math/heuristics/Distances.hpp
index 827c173..1413acf 100644
--- a/include/ffcl/common/math/heuristics/Distances.hpp
+++ b/include/ffcl/common/math/heuristics/Distances.hpp
@@ -78,11 +78,11 @@ auto euclidean_distance(const LeftFeaturesIterator&  left_features_range_first,
 template <typename FeaturesIterator>
 auto manhattan_distance_from_origin(const FeaturesIterator& features_range_first,
                                     const FeaturesIterator& features_range_last)
-    -> decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>()) {
+    -> typename std::iterator_traits<FeaturesIterator>::value_type {
     static_assert(std::is_signed<typename std::iterator_traits<FeaturesIterator>::value_type>::value,
                   "Input must be signed.");
 
-    using ResultType = decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>());
+    using ResultType = typename std::iterator_traits<FeaturesIterator>::value_type;
 
     return std::transform_reduce(features_range_first,
                                  features_range_last,
@@ -119,11 +119,11 @@ auto manhattan_distance(const LeftFeaturesIterator&  left_features_range_first,
 template <typename FeaturesIterator>
 auto unsigned_manhattan_distance_from_origin(const FeaturesIterator& features_range_first,
                                              const FeaturesIterator& features_range_last)
-    -> decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>()) {
-    static_assert(std::is_signed<typename std::iterator_traits<FeaturesIterator>::value_type>::value,
-                  "Input must be signed.");
+    -> typename std::iterator_traits<FeaturesIterator>::value_type {
+    static_assert(std::is_unsigned_v<typename std::iterator_traits<FeaturesIterator>::value_type>,
+                  "Input must be unsigned integer.");
 
-    using ResultType = decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>());
+    using ResultType = typename std::iterator_traits<FeaturesIterator>::value_type;
 
     return std::transform_reduce(features_range_first,
                                  features_range_last,
-- 
2.43.0


From 563afacd4b2a4336b5f2767e34baf2c9afb88d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:54 +0000
Subject: [PATCH 09/54] fix: dual-tree search dropped edges while fewer than k
 had been found

An edge longer than the current longest one was rejected even if the queue of
the k shortest edges was not full.
---
 .../ffcl/search/buffer/IndicesToBuffersMap.hpp   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/ffcl/search/buffer/IndicesToBuffersMap.hpp b/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
index 93917d6..5ef1945 100644
--- a/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
+++ b/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
@@ -428,19 +428,19 @@ void IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::update_priorit
     // be to find the nth_elemnts from the buffer and emplace only those to the priority queue. The first method's
     // drawback is that it requires management of the emplace/pop-ed elements. The second method's drawback is that
     // it would require a deep copy of the indices and distances of buffer.
-    if (buffer.closest_distance() < (kth_closest_edge_priority_queue_.empty()
-                                         ? common::infinity<DistanceType>()
-                                         : std::get<2>(kth_closest_edge_priority_queue_.top()))) {
+    // Any candidate is valid as long as the priority queue is not full.
+    const auto is_valid_candidate = [this, &buffer = buffer](const DistanceType& candidate_distance) {
+        return kth_closest_edge_priority_queue_.empty() ||
+               kth_closest_edge_priority_queue_.size() < buffer.max_capacity() ||
+               candidate_distance < std::get<2>(kth_closest_edge_priority_queue_.top());
+    };
+    if (is_valid_candidate(buffer.closest_distance())) {
         // Iterate over all the buffer indices as we dont know which elements could be valid candidates.
         for (std::size_t buffer_index = 0; buffer_index < buffer.size(); ++buffer_index) {
             const auto candidate_index    = buffer_indices[buffer_index];
             const auto candidate_distance = buffer_distances[buffer_index];
 
-            const auto pq_furthest_distance = kth_closest_edge_priority_queue_.empty()
-                                                  ? common::infinity<DistanceType>()
-                                                  : std::get<2>(kth_closest_edge_priority_queue_.top());
-
-            if (candidate_distance < pq_furthest_distance) {
+            if (is_valid_candidate(candidate_distance)) {
                 // Insert the combination and check if it was newly inserted.
                 if (priority_queue_visited_combinations_set_.insert({query_index, candidate_index}).second) {
                     kth_closest_edge_priority_queue_.emplace(query_index, candidate_index, candidate_distance);
-- 
2.43.0


From 7e5833b4c664d8598a3aa01c39e7b6ee2fdfb195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:58 +0000
Subject: [PATCH 10/54] fix: masked feature variances read every indexed
 sample, not the first one n times

---
 include/ffcl/common/math/statistics/Statistics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index c6cbf31..c180269 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -315,7 +315,7 @@ auto compute_variance_per_feature(const IndicesIterator&          indices_range_
         auto features_accumulator = std::vector<DataType>(feature_mask.size());
 
         for (std::size_t mask_index = 0; mask_index < feature_mask.size(); ++mask_index) {
-            const auto temp = samples_range_first[*indices_range_first * n_features + feature_mask[mask_index]] -
+            const auto temp = samples_range_first[indices_range_first[sample_index] * n_features + feature_mask[mask_index]] -
                               mean_per_feature[mask_index];
             variance_per_feature[mask_index] += temp * temp;
         }
@@ -417,7 +417,7 @@ std::size_t argmax_variance_per_feature(const IndicesIterator&          indices_
         auto features_accumulator = std::vector<DataType>(feature_mask.size());
 
         for (std::size_t mask_index = 0; mask_index < feature_mask.size(); ++mask_index) {
-            const auto temp = samples_range_first[*indices_range_first * n_features + feature_mask[mask_index]] -
+            const auto temp = samples_range_first[indices_range_first[sample_index] * n_features + feature_mask[mask_index]] -
                               mean_per_feature[mask_index];
             variance_per_feature[mask_index] += temp * temp;
         }
-- 
2.43.0


From 843b8999a390f2cf1ad5e8d7e0e0137fbff8889a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:58 +0000
Subject: [PATCH 11/54] fix: mean of signed integer features no longer divides
 by an unsigned count

---
 include/ffcl/common/math/statistics/Statistics.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index c180269..cdde5cf 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -154,7 +154,7 @@ auto compute_mean_per_feature(const SamplesIterator& samples_range_first,
     std::transform(/**/ mean_per_feature.begin(),
                    /**/ mean_per_feature.end(),
                    /**/ mean_per_feature.begin(),
-                   [n_samples](const auto& feature) { return feature / n_samples; });
+                   [n_samples](const auto& feature) { return feature / static_cast<DataType>(n_samples); });
     return mean_per_feature;
 }
 
@@ -180,7 +180,7 @@ auto compute_mean_per_feature(const IndicesIterator& indices_range_first,
     std::transform(/**/ mean_per_feature.begin(),
                    /**/ mean_per_feature.end(),
                    /**/ mean_per_feature.begin(),
-                   [n_samples](const auto& feature) { return feature / n_samples; });
+                   [n_samples](const auto& feature) { return feature / static_cast<DataType>(n_samples); });
     return mean_per_feature;
 }
 
@@ -209,7 +209,7 @@ auto compute_mean_per_feature(const IndicesIterator&          indices_range_firs
         /**/ mean_per_feature.begin(),
         /**/ mean_per_feature.end(),
         /**/ mean_per_feature.begin(),
-        [n_samples](const auto& feature) { return feature / n_samples; });
+        [n_samples](const auto& feature) { return feature / static_cast<DataType>(n_samples); });
     return mean_per_feature;
 }
 
-- 
2.43.0


From a229c0248ac096a16ba61d756cbb68d2bbcf8000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:58 +0000
Subject: [PATCH 12/54] fix: normalize_min_max divides in the result type, not
 in integers

---
 include/ffcl/common/math/statistics/Statistics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index cdde5cf..b597506 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -21,7 +21,7 @@ std::vector<DataType> normalize_min_max(const Iterator& first, const Iterator& l
     auto res = std::vector<DataType>(last - first);
     // closest objects get a higher score. Distance zero -> 1
     std::transform(first, last, res.begin(), [&min, &max](const auto& dist) {
-        return static_cast<DataType>(1) - (dist - *min) / (*max - *min);
+        return static_cast<DataType>(1) - static_cast<DataType>(dist - *min) / static_cast<DataType>(*max - *min);
     });
     return res;
 }
-- 
2.43.0


From 0bdf51ac2e73f785ebf81e8f03b9a994f7f9535b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:58 +0000
Subject: [PATCH 13/54] fix: second maximum is searched among the other
 elements instead of overwriting the maximum

---
 .../ffcl/common/math/statistics/Statistics.hpp   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index b597506..1b6cfa8 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -97,16 +97,16 @@ auto get_second_max_index_value_pair(const Iterator& first, const Iterator& last
     if (std::distance(first, last) < 2) {
         return {max_idx, max_value};
     }
-    // Replace the maximum element with the lowest possible value
-    *max_it = std::numeric_limits<DataType>::lowest();
+    // Get the maximum of the elements on each side of the maximum element
+    const auto left_max_it  = std::max_element(first, max_it);
+    const auto right_max_it = std::max_element(std::next(max_it), last);
 
-    // Get the index of the second maximum element
-    const auto     second_max_it    = std::max_element(first, last);
-    std::size_t    second_max_idx   = std::distance(first, second_max_it);
-    const DataType second_max_value = *second_max_it;
+    // Keep the left one unless it doesn't exist or the right one is strictly greater
+    const auto second_max_it =
+        (left_max_it == max_it || (right_max_it != last && *left_max_it < *right_max_it)) ? right_max_it : left_max_it;
 
-    // Restore the original maximum value
-    *max_it = max_value;
+    const std::size_t second_max_idx   = std::distance(first, second_max_it);
+    const DataType    second_max_value = *second_max_it;
 
     return {second_max_idx, second_max_value};
 }
-- 
2.43.0


From 21c4bdad02741ae86f536158da672b1fa042968f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:58 +0000
Subject: [PATCH 14/54] fix: argmin and argmax return the index as std::size_t
 instead of the value type

---
 include/ffcl/common/math/statistics/Statistics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index 1b6cfa8..ac00d3d 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -49,13 +49,13 @@ void min_container_inplace_left(Container& left_container, const Container& righ
 }
 
 template <typename Iterator>
-auto argmin(const Iterator& first, const Iterator& last) -> typename std::iterator_traits<Iterator>::value_type {
+std::size_t argmin(const Iterator& first, const Iterator& last) {
     auto min_it = std::min_element(first, last);
     return std::distance(first, min_it);
 }
 
 template <typename Iterator>
-auto argmax(const Iterator& first, const Iterator& last) -> typename std::iterator_traits<Iterator>::value_type {
+std::size_t argmax(const Iterator& first, const Iterator& last) {
     auto max_it = std::max_element(first, last);
     return std::distance(first, max_it);
 }
-- 
2.43.0


From dff1bd4dc889703a8715a351ff613aecdf9b1879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:20 +0000
Subject: [PATCH 15/54] fix: silhouette score of a sample alone in its cluster
 is 0

---
 include/ffcl/common/math/heuristics/SilhouetteMethod.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
index 395c49b..d46cc6b 100644
--- a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
+++ b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
@@ -238,9 +238,15 @@ auto silhouette(const SamplesIterator&       samples_range_first,
                                               /**/ cluster_labels_range_first,
                                               /**/ cluster_labels_range_last);
 
+    const auto cluster_sizes = get_cluster_sizes(cluster_labels_range_first, cluster_labels_range_last);
+
     auto samples_silhouette_scores = std::vector<ElementType>(n_samples);
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
+        // the score of a sample that is alone in its cluster is left at zero
+        if (cluster_sizes[cluster_labels_range_first[sample_index]] == 1) {
+            continue;
+        }
         const auto coh = cohesion_values[sample_index];
         const auto sep = separation_values[sample_index];
 
-- 
2.43.0


From 7af9db01233362d086d03992ccdb50adf4416c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:20 +0000
Subject: [PATCH 16/54] fix: cluster sizes are counted in std::size_t, not in
 the label type

---
 include/ffcl/common/math/heuristics/SilhouetteMethod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
index d46cc6b..b30b9a4 100644
--- a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
+++ b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
@@ -39,7 +39,7 @@ auto get_cluster_sizes(const ClusterLabelsIterator& cluster_labels_range_first,
     // n_centroids = 1 + greatest_centroid_index
     const auto n_centroids = 1 + *std::max_element(cluster_labels_range_first, cluster_labels_range_last);
     // n_labels = 1 + largest_label_index
-    auto labels_histogram = std::vector<ClusterLabelType>(n_centroids);
+    auto labels_histogram = std::vector<std::size_t>(n_centroids);
 
     auto cluster_labels_range_it = cluster_labels_range_first;
 
-- 
2.43.0


From 84cb75ab672dcde91b2d973fe0fd963901833802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:26 +0000
Subject: [PATCH 17/54] fix: random selection draws from all the elements, not
 only from the first n

---
 include/ffcl/common/math/random/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/random/Sampling.hpp b/include/ffcl/common/math/random/Sampling.hpp
index 08c13f9..cc90804 100644
--- a/include/ffcl/common/math/random/Sampling.hpp
+++ b/include/ffcl/common/math/random/Sampling.hpp
@@ -17,7 +17,7 @@ auto select_n_elements(const Iterator& first, const Iterator& last, std::size_t
     // Perform a partial shuffle of the first n_elements elements
     for (std::size_t element_index = 0; element_index < n_elements; ++element_index) {
         std::swap(selected_elements[element_index],
-                  selected_elements[uniform_distribution{element_index, n_elements - 1}()]);
+                  selected_elements[uniform_distribution{element_index, selected_elements.size() - 1}()]);
     }
     // Resize the vector to keep only the first n_elements elements
     selected_elements.resize(n_elements);
-- 
2.43.0


From 9f8f625c0cbcbb875305459419dffeb43e15942a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:26 +0000
Subject: [PATCH 18/54] fix: select_n_random_samples_from_indices did not pass
 the number of choices (could not be instantiated)

---
 include/ffcl/common/math/random/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/random/Sampling.hpp b/include/ffcl/common/math/random/Sampling.hpp
index cc90804..f86327d 100644
--- a/include/ffcl/common/math/random/Sampling.hpp
+++ b/include/ffcl/common/math/random/Sampling.hpp
@@ -99,7 +99,7 @@ auto select_n_random_samples_from_indices(const IndicesIterator& index_first,
     // clip n_choices to prevent overflows
     n_choices = std::min(n_choices, n_samples);
     // return n_choices distinctive indices from the pool of indices defined by the desired indices range
-    const auto random_distinct_indices = select_n_elements(index_first, index_last);
+    const auto random_distinct_indices = select_n_elements(index_first, index_last, n_choices);
 
     auto random_samples = std::vector<DataType>(n_choices * n_features);
 
-- 
2.43.0


From 5cd2d41e4ff83815c3c78dea9020fcf118b0ffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:26 +0000
Subject: [PATCH 19/54] fix: init_spatial_uniform computed a wrong upper bound
 for negative features

---
 include/ffcl/common/math/random/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/random/Sampling.hpp b/include/ffcl/common/math/random/Sampling.hpp
index f86327d..c386be4 100644
--- a/include/ffcl/common/math/random/Sampling.hpp
+++ b/include/ffcl/common/math/random/Sampling.hpp
@@ -125,7 +125,7 @@ auto init_spatial_uniform(const SamplesIterator& samples_range_first,
 
     // row vector buffers to keep track of min-max values
     auto min_buffer = std::vector<DataType>(n_features, std::numeric_limits<DataType>::max());
-    auto max_buffer = std::vector<DataType>(n_features, std::numeric_limits<DataType>::min());
+    auto max_buffer = std::vector<DataType>(n_features, std::numeric_limits<DataType>::lowest());
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
         for (std::size_t feature_index = 0; feature_index < n_features; ++feature_index) {
-- 
2.43.0


From 11b08c28d32cc8c1948bc9a7308a44737e95f265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:41 +0000
Subject: [PATCH 20/54] fix: with core distances the edges of the spanning tree
 are the closest in mutual reachability distance

---
 .../graph/spanning_tree/BoruvkasAlgorithm.hpp | 88 +++++++++++--------
 1 file changed, 51 insertions(+), 37 deletions(-)

diff --git a/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp b/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
index 007c037..4790866 100644
--- a/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
+++ b/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
@@ -203,6 +203,13 @@ class BoruvkasAlgorithm {
         UnionFindType union_find_;
     };
 
+    // the edge with the smallest k-mutual reachability distance from the query to a sample of another component
+    EdgeType closest_mutual_reachability_edge(const search::Searcher<Indexer>& searcher,
+                                              const CoreDistancesArrayType&    core_distances,
+                                              const Forest&                    forest,
+                                              const IndexType&                 component_representative,
+                                              const IndexType&                 query_index) const;
+
     void step_sequential(const search::Searcher<Indexer>& searcher, Forest& forest) const;
 
     void step_sequential(const search::Searcher<Indexer>& searcher,
@@ -236,6 +243,42 @@ BoruvkasAlgorithm<Indexer>& BoruvkasAlgorithm<Indexer>::set_options(const Option
     return *this;
 }
 
+template <typename Indexer>
+typename BoruvkasAlgorithm<Indexer>::EdgeType BoruvkasAlgorithm<Indexer>::closest_mutual_reachability_edge(
+    const search::Searcher<Indexer>& searcher,
+    const CoreDistancesArrayType&    core_distances,
+    const Forest&                    forest,
+    const IndexType&                 component_representative,
+    const IndexType&                 query_index) const {
+    auto closest_edge = datastruct::mst::make_default_edge<IndexType, ValueType>();
+
+    // the nearest neighbor doesn't necessarily have the smallest mutual reachability distance: widen the search until
+    // no sample that is further away can have a smaller one
+    for (IndexType n_neighbors = 1;; n_neighbors *= 2) {
+        const auto nn_buffer_query = searcher(search::buffer::WithUnionFind(searcher.features_range_first(query_index),
+                                                                            searcher.features_range_last(query_index),
+                                                                            forest.get_union_find_const_reference(),
+                                                                            component_representative,
+                                                                            /*max_capacity=*/n_neighbors));
+
+        const auto indices   = nn_buffer_query.indices();
+        const auto distances = nn_buffer_query.distances();
+
+        for (std::size_t neighbor = 0; neighbor < indices.size(); ++neighbor) {
+            const auto k_mutual_reachability_distance =
+                std::max({core_distances[query_index], core_distances[indices[neighbor]], distances[neighbor]});
+
+            if (k_mutual_reachability_distance < std::get<2>(closest_edge)) {
+                closest_edge = EdgeType{query_index, indices[neighbor], k_mutual_reachability_distance};
+            }
+        }
+        if (indices.size() < n_neighbors ||
+            std::get<2>(closest_edge) <= std::max(core_distances[query_index], nn_buffer_query.furthest_distance())) {
+            return closest_edge;
+        }
+    }
+}
+
 template <typename Indexer>
 void BoruvkasAlgorithm<Indexer>::step_sequential(const search::Searcher<Indexer>& searcher, Forest& forest) const {
     // keep track of the shortest edge from a component's sample index to a sample index thats not within the
@@ -290,28 +333,13 @@ void BoruvkasAlgorithm<Indexer>::step_sequential(const search::Searcher<Indexer>
         components_closest_edge[component_representative] = datastruct::mst::make_default_edge<IndexType, ValueType>();
 
         for (const auto& query_index : component) {
-            // initialize a nearest neighbor buffer to compare the query_index with sample indices that don't belong to
-            // the same component using the UnionFind data structure
-            auto nn_buffer_query = searcher(search::buffer::WithUnionFind(searcher.features_range_first(query_index),
-                                                                          searcher.features_range_last(query_index),
-                                                                          forest.get_union_find_const_reference(),
-                                                                          component_representative,
-                                                                          /*max_capacity=*/static_cast<IndexType>(1)));
-
-            // the furthest nearest neighbor is also the closest in this case since we query only 1 neighbor
-            const auto nearest_neighbor_index    = nn_buffer_query.furthest_index();
-            const auto nearest_neighbor_distance = nn_buffer_query.furthest_distance();
-
-            const auto current_closest_edge_distance = std::get<2>(components_closest_edge[component_representative]);
-
-            const auto k_mutual_reachability_distance = std::max(
-                {core_distances[query_index], core_distances[nearest_neighbor_index], nearest_neighbor_distance});
+            const auto candidate_edge = closest_mutual_reachability_edge(
+                searcher, core_distances, forest, component_representative, query_index);
 
             // update the current shortest edge if the k_mutual_reachability_distance is indeed shortest than the
             // current shortest edge distance
-            if (k_mutual_reachability_distance < current_closest_edge_distance) {
-                components_closest_edge[component_representative] =
-                    EdgeType{query_index, nearest_neighbor_index, k_mutual_reachability_distance};
+            if (std::get<2>(candidate_edge) < std::get<2>(components_closest_edge[component_representative])) {
+                components_closest_edge[component_representative] = candidate_edge;
             }
         }
     }
@@ -390,27 +418,13 @@ void BoruvkasAlgorithm<Indexer>::dual_component_step_sequential(const search::Se
     auto closest_edge = datastruct::mst::make_default_edge<IndexType, ValueType>();
 
     for (const auto& query_index : smallest_component) {
-        // initialize a nearest neighbor buffer to compare the query_index with sample indices that don't belong to
-        // the same component using the UnionFind data structure
-        auto nn_buffer_query = searcher(search::buffer::WithUnionFind(searcher.features_range_first(query_index),
-                                                                      searcher.features_range_last(query_index),
-                                                                      forest.get_union_find_const_reference(),
-                                                                      smallest_component_representative,
-                                                                      /*max_capacity=*/static_cast<IndexType>(1)));
-
-        // the furthest nearest neighbor is also the closest in this case since we query only 1 neighbor
-        const auto nearest_neighbor_index    = nn_buffer_query.furthest_index();
-        const auto nearest_neighbor_distance = nn_buffer_query.furthest_distance();
-
-        const auto current_closest_edge_distance = std::get<2>(closest_edge);
-
-        const auto k_mutual_reachability_distance =
-            std::max({core_distances[query_index], core_distances[nearest_neighbor_index], nearest_neighbor_distance});
+        const auto candidate_edge = closest_mutual_reachability_edge(
+            searcher, core_distances, forest, smallest_component_representative, query_index);
 
         // update the current shortest edge if the k_mutual_reachability_distance is indeed shortest than the current
         // shortest edge distance
-        if (k_mutual_reachability_distance < current_closest_edge_distance) {
-            closest_edge = EdgeType{query_index, nearest_neighbor_index, k_mutual_reachability_distance};
+        if (std::get<2>(candidate_edge) < std::get<2>(closest_edge)) {
+            closest_edge = candidate_edge;
         }
     }
     // merge components based on the best edge found
-- 
2.43.0


From 982eb192960e52e0c2d0c26fe92342dccecdb94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:42 +0000
Subject: [PATCH 21/54] fix: clusters separated by the cut level no longer
 share their parent's label

---
 .../SingleLinkageClusterTree.hpp                           | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index de72049..a0b326e 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -153,9 +153,10 @@ void SingleLinkageClusterTree<IndexType, ValueType>::preorder_traversal_single_l
     ClusterIndexType                   cluster_label,
     const SingleLinkageClusterNodePtr& single_linkage_cluster_node,
     std::vector<ClusterIndexType>&     flat_cluster) const {
-    // consider updating the cluster label for the descendant nodes only if we are above or at the desired cut level
-    // else the same cluster label will be used for all the descendant nodes from the current node
-    if (single_linkage_cluster_node->level_ >= options_.cut_level_) {
+    // update the cluster label if the current node is separated from its sibling, which is when its parent is above or at
+    // the desired cut level, else the same cluster label will be used for all the descendant nodes from the parent node
+    if (!single_linkage_cluster_node->has_parent() ||
+        single_linkage_cluster_node->parent_->level_ >= options_.cut_level_) {
         // set the cluster label as noise if the current node is parent of less than 'min cluster size' nodes
         // else set the cluster label as the one at the current level
         cluster_label = single_linkage_cluster_node->size() < options_.min_cluster_size_
-- 
2.43.0


From ee9342a371ea03cdb1ab8a016b4fb0e06ab6d612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:42 +0000
Subject: [PATCH 22/54] fix: the label of the cluster represented by sample 0
 no longer equals the noise label

---
 .../single_linkage_cluster_tree/SingleLinkageClusterTree.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index a0b326e..96f7c1c 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -138,7 +138,8 @@ template <typename IndexType, typename ValueType>
 auto SingleLinkageClusterTree<IndexType, ValueType>::extract_flat_clusters() const {
     auto flat_cluster = std::vector<ClusterIndexType>(root_->size());
 
-    preorder_traversal_single_linkage_clustering(root_->representative_, root_, flat_cluster);
+    // the cluster labels begin from 1, with 0 denoting noise
+    preorder_traversal_single_linkage_clustering(root_->representative_ + 1, root_, flat_cluster);
 
     return flat_cluster;
 }
@@ -161,7 +162,7 @@ void SingleLinkageClusterTree<IndexType, ValueType>::preorder_traversal_single_l
         // else set the cluster label as the one at the current level
         cluster_label = single_linkage_cluster_node->size() < options_.min_cluster_size_
                             ? 0
-                            : single_linkage_cluster_node->representative_;
+                            : single_linkage_cluster_node->representative_ + 1;
     }
     // continue to traverse the tree if the current node is not leaf
     // a single linkage cluster node is guaranteed to have a left and a right child if its not leaf
-- 
2.43.0


From 35c56ff58767cfa2cd3e186a7c37ba7eef54abe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:42 +0000
Subject: [PATCH 23/54] fix: samples at distance zero persist in their cluster
 at the largest density instead of density zero

---
 .../tree/condensed_cluster_tree/CondensedClusterNode.hpp      | 4 +++-
 .../tree/condensed_cluster_tree/CondensedClusterTree.hpp      | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
index ee2593e..02827ae 100644
--- a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
+++ b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
@@ -54,7 +54,9 @@ CondensedClusterNode<IndexType, ValueType>::CondensedClusterNode(
     SingleLinkageClusterNodePtr single_linkage_cluster_node)
   : single_linkage_cluster_node_root_{single_linkage_cluster_node}
   , lambda_min_{single_linkage_cluster_node_root_->has_parent()
-                    ? common::division(1, single_linkage_cluster_node_root_->parent_->level_)
+                    ? common::division(1,
+                                       single_linkage_cluster_node_root_->parent_->level_,
+                                       std::numeric_limits<ValueType>::max())
                     : 0}
   , stability_{0}
   , is_selected_{false} {}
diff --git a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp
index fd6628a..22ebec4 100644
--- a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp
@@ -152,7 +152,8 @@ void CondensedClusterTree<IndexType, ValueType>::preorder_traversal_build(
             single_linkage_cluster_node->right_->size() >= options_.min_cluster_size_;
 
         // the lambda value needs to be computed for any of the if/else branches
-        const auto lambda_value = common::division(1, single_linkage_cluster_node->level_);
+        const auto lambda_value =
+            common::division(1, single_linkage_cluster_node->level_, std::numeric_limits<ValueType>::max());
 
         // if both children are split candidates (they hold enough samples to be considered as their own cluster), we
         // consider the event as a true split and split the condensed cluster node in two new condensed cluster nodes
-- 
2.43.0


From 1d09ee56097b75f2e3ebc350d49f62efd7e36a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:16 +0000
Subject: [PATCH 24/54] fix: border samples visited before their cluster are no
 longer left as noise

---
 include/ffcl/dbscan/DBSCAN.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/dbscan/DBSCAN.hpp b/include/ffcl/dbscan/DBSCAN.hpp
index b8baa24..acb171f 100644
--- a/include/ffcl/dbscan/DBSCAN.hpp
+++ b/include/ffcl/dbscan/DBSCAN.hpp
@@ -174,12 +174,14 @@ void DBSCAN<Indexer>::predict_inner(NeighborsIndices&                neighbors_i
                 auto inner_neighbors_indices = std::move(inner_neighbors_buffer).indices();
 
                 // iterate over each neighbor's neighbors and add them to the neighbors to visit only if
-                // they havent been visited already
+                // they havent been assigned to a cluster already. A sample that was visited and considered as noise is
+                // at the border of the current cluster
                 std::copy_if(std::make_move_iterator(inner_neighbors_indices.begin()),
                              std::make_move_iterator(inner_neighbors_indices.end()),
                              std::back_inserter(neighbors_indices),
-                             [&visited_indices](const auto& inner_neighbor_index) {
-                                 return !visited_indices[inner_neighbor_index];
+                             [&predictions](const auto& inner_neighbor_index) {
+                                 return predictions[inner_neighbor_index] ==
+                                        static_cast<LabelType>(SampleStatus::noise);
                              });
             }
         }
-- 
2.43.0


From 94f9163e083d25dd8035714d6108398e68baee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:56 +0000
Subject: [PATCH 25/54] fix: samples outside of the indexed range no longer
 initiate a cluster

---
 include/ffcl/dbscan/DBSCAN.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/ffcl/dbscan/DBSCAN.hpp b/include/ffcl/dbscan/DBSCAN.hpp
index acb171f..70bddb4 100644
--- a/include/ffcl/dbscan/DBSCAN.hpp
+++ b/include/ffcl/dbscan/DBSCAN.hpp
@@ -10,6 +10,7 @@
 
 #include "ffcl/datastruct/vector/FeaturesVector.hpp"
 
+#include <algorithm>
 #include <cstddef>
 #include <functional>
 #include <memory>
@@ -130,14 +131,17 @@ auto DBSCAN<Indexer>::predict(Indexer&& indexer) const {
             // the ball view object is passed to a buffer that's used by the searcher to query and accumulate the
             // nearby objects
             auto nn_buffer_query = searcher(search::buffer::Unsorted(std::move(ball_view)));
-            // if the nearby samples caught in the ball are dense enough
-            if (nn_buffer_query.size() > options_.min_samples_) {
+            // we retrieve the nearby samples indices
+            auto neighbors_indices = std::move(nn_buffer_query).indices();
+            // if the nearby samples caught in the ball are dense enough and the sample is part of the indexed samples,
+            // which is when its found in its own neighborhood
+            if (neighbors_indices.size() > options_.min_samples_ &&
+                std::find(neighbors_indices.begin(), neighbors_indices.end(), entry_point_candidate_index) !=
+                    neighbors_indices.end()) {
                 // we get a new cluster
                 ++cluster_label;
                 // and assign the cluster label to the initial sample that formed a new cluster
                 predictions[entry_point_candidate_index] = cluster_label;
-                // we retrieve the nearby samples indices
-                auto neighbors_indices = std::move(nn_buffer_query).indices();
                 // neighbors_indices will be populated with all the nearby samples that satisfy the density criterion
                 predict_inner(neighbors_indices, visited_indices, predictions, cluster_label, searcher);
             } else {
-- 
2.43.0


From d812a8f48f8e5cabf296455517f670b02fccef6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:32 +0000
Subject: [PATCH 26/54] fix: Lloyd no longer moves the centroid of an empty
 cluster to the origin

---
 include/ffcl/kmeans/Lloyd.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/ffcl/kmeans/Lloyd.hpp b/include/ffcl/kmeans/Lloyd.hpp
index d1ca740..000f987 100644
--- a/include/ffcl/kmeans/Lloyd.hpp
+++ b/include/ffcl/kmeans/Lloyd.hpp
@@ -111,13 +111,9 @@ void Lloyd<SamplesIterator>::update_centroids() {
         const auto feature_index_start = centroid_index * n_features;
         const auto feature_index_end   = feature_index_start + n_features;
 
-        if (cluster_sizes[centroid_index] == 0) {
-            // For centroids with only 1 associated sample, the new position is the same as the previous one
-            std::copy(cluster_position_sums.begin() + feature_index_start,
-                      cluster_position_sums.begin() + feature_index_end,
-                      centroids_.begin() + feature_index_start);
-        } else {
-            // Compute the new centroid position for the centroid that has more than 1 associated sample
+        // For centroids without associated samples, the new position is the same as the previous one
+        if (cluster_sizes[centroid_index]) {
+            // Compute the new centroid position for the centroid that has at least 1 associated sample
             std::transform(cluster_position_sums.begin() + feature_index_start,
                            cluster_position_sums.begin() + feature_index_end,
                            centroids_.begin() + feature_index_start,
-- 
2.43.0


From 10a2073cdb88b450dc044746ef0d92ee8e3197f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:32 +0000
Subject: [PATCH 27/54] fix: the distance to the second nearest centroid no
 longer skips a centroid as close as the nearest one

---
 include/ffcl/kmeans/KMeansUtils.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ffcl/kmeans/KMeansUtils.hpp b/include/ffcl/kmeans/KMeansUtils.hpp
index ef5d56c..108dafa 100644
--- a/include/ffcl/kmeans/KMeansUtils.hpp
+++ b/include/ffcl/kmeans/KMeansUtils.hpp
@@ -104,8 +104,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = second_nearest_candidate;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
             }
         }
-- 
2.43.0


From 543f658d05fc7e94c9ff98db85f72b1a58fb134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:32 +0000
Subject: [PATCH 28/54] fix: nearest centroids of integer samples are found
 (infinity is 0 for integers)

---
 include/ffcl/kmeans/Hamerly.hpp     | 2 +-
 include/ffcl/kmeans/KMeansUtils.hpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ffcl/kmeans/Hamerly.hpp b/include/ffcl/kmeans/Hamerly.hpp
index 244daf3..4e7fa01 100644
--- a/include/ffcl/kmeans/Hamerly.hpp
+++ b/include/ffcl/kmeans/Hamerly.hpp
@@ -152,7 +152,7 @@ void Hamerly<SamplesIterator>::swap_bounds() {
 
             // second bound test
             if (samples_to_nearest_centroid_distances[sample_index] > upper_bound_comparison) {
-                auto lower_bound = common::infinity<DataType>();
+                auto lower_bound = std::numeric_limits<DataType>::max();
 
                 const std::size_t n_centroids = common::get_n_samples(centroids_.begin(), centroids_.end(), n_features);
 
diff --git a/include/ffcl/kmeans/KMeansUtils.hpp b/include/ffcl/kmeans/KMeansUtils.hpp
index 108dafa..f492c44 100644
--- a/include/ffcl/kmeans/KMeansUtils.hpp
+++ b/include/ffcl/kmeans/KMeansUtils.hpp
@@ -21,7 +21,7 @@ std::vector<std::size_t> samples_to_nearest_centroid_indices(
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
         // distance buffer for a given data sample to each cluster
-        auto        min_distance = ffcl::common::infinity<DataType>();
+        auto        min_distance = std::numeric_limits<DataType>::max();
         std::size_t min_index    = 0;
 
         for (std::size_t centroid_index = 0; centroid_index < n_centroids; ++centroid_index) {
@@ -56,7 +56,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
     auto nearest_centroid_distances = std::vector<DataType>(n_samples);
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
-        auto min_distance = ffcl::common::infinity<DataType>();
+        auto min_distance = std::numeric_limits<DataType>::max();
 
         for (std::size_t centroid_index = 0; centroid_index < n_centroids; ++centroid_index) {
             const auto nearest_candidate = ffcl::common::math::heuristics::auto_distance(
@@ -173,7 +173,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> nearest_
     auto neighbor_distances = std::vector<DataType>(n_rows);
 
     for (std::size_t row_index = 0; row_index < n_rows; ++row_index) {
-        auto min_distance = ffcl::common::infinity<DataType>();
+        auto min_distance = std::numeric_limits<DataType>::max();
 
         for (std::size_t other_row_index = 0; other_row_index < n_rows; ++other_row_index) {
             if (row_index != other_row_index) {
-- 
2.43.0


From b60936020b41e0f1d065f2560649ef40de434c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:14 +0000
Subject: [PATCH 29/54] fix: the total deviation of Hamerly is the one of its
 current centroids

---
 include/ffcl/kmeans/Hamerly.hpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/ffcl/kmeans/Hamerly.hpp b/include/ffcl/kmeans/Hamerly.hpp
index 4e7fa01..f9e6277 100644
--- a/include/ffcl/kmeans/Hamerly.hpp
+++ b/include/ffcl/kmeans/Hamerly.hpp
@@ -62,12 +62,13 @@ class Hamerly {
 
     void update_centroids_velocities(const std::vector<DataType>& previous_centroids);
 
-    auto update_bounds();
+    void update_bounds();
 
     DatasetDescriptorType    dataset_descriptor_;
     std::vector<DataType>    centroids_;
     std::unique_ptr<Buffers> buffers_ptr_;
     DataType                 loss_;
+    bool                     is_loss_up_to_date_ = true;
 };
 
 template <typename SamplesIterator>
@@ -92,6 +93,19 @@ Hamerly<SamplesIterator>::Hamerly(const DatasetDescriptorType& dataset_descripto
 
 template <typename SamplesIterator>
 auto Hamerly<SamplesIterator>::total_deviation() const {
+    // the buffers only contain bounds once a step has been made so the loss is computed from the current centroids
+    if (!is_loss_up_to_date_) {
+        const auto samples_to_nearest_centroid_distances =
+            kmeans::utils::samples_to_nearest_centroid_distances(std::get<0>(dataset_descriptor_),
+                                                                 std::get<1>(dataset_descriptor_),
+                                                                 std::get<2>(dataset_descriptor_),
+                                                                 centroids_);
+
+        return std::reduce(samples_to_nearest_centroid_distances.begin(),
+                           samples_to_nearest_centroid_distances.end(),
+                           static_cast<DataType>(0),
+                           std::plus<>());
+    }
     return loss_;
 }
 
@@ -109,8 +123,10 @@ auto Hamerly<SamplesIterator>::step() {
     // upate the centroids velocities based on the previous centroids and the updated centroids
     update_centroids_velocities(previous_centroids);
 
-    // recompute the loss w.r.t. the updated buffers
-    loss_ = update_bounds();
+    // update the bounds w.r.t. the velocities of the centroids
+    update_bounds();
+
+    is_loss_up_to_date_ = false;
 
     return centroids_;
 }
@@ -146,8 +162,6 @@ void Hamerly<SamplesIterator>::swap_bounds() {
                 centroids_.begin() + assigned_centroid_index * n_features,
                 centroids_.begin() + assigned_centroid_index * n_features + n_features);
 
-            const auto previous_assigned_centroid_distance = samples_to_nearest_centroid_distances[sample_index];
-
             samples_to_nearest_centroid_distances[sample_index] = upper_bound;
 
             // second bound test
@@ -205,10 +219,6 @@ void Hamerly<SamplesIterator>::swap_bounds() {
                                    samples_range_first + sample_index * n_features,
                                    cluster_position_sums.begin() + assigned_centroid_index * n_features,
                                    std::plus<>());
-
-                    // update the loss by removing its previous contribution and adding the new one
-                    loss_ -= previous_assigned_centroid_distance;
-                    loss_ += upper_bound;
                 }
             }
         }
@@ -258,7 +268,7 @@ void Hamerly<SamplesIterator>::update_centroids_velocities(const std::vector<Dat
 }
 
 template <typename SamplesIterator>
-auto Hamerly<SamplesIterator>::update_bounds() {
+void Hamerly<SamplesIterator>::update_bounds() {
     const auto [furthest_moving_centroid_index, furthest_moving_centroid_distance] =
         common::math::statistics::get_max_index_value_pair(buffers_ptr_->centroid_velocities_.begin(),
                                                            buffers_ptr_->centroid_velocities_.end());
@@ -287,8 +297,6 @@ auto Hamerly<SamplesIterator>::update_bounds() {
     }
     buffers_ptr_->centroid_to_nearest_centroid_distances_ = kmeans::utils::nearest_neighbor_distances(
         centroids_.begin(), centroids_.end(), std::get<2>(dataset_descriptor_));
-
-    return loss_;
 }
 
 template <typename SamplesIterator>
-- 
2.43.0


From ed60fcd76f2bc2b0dad0b8a4ac1180d50c21705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:11 +0000
Subject: [PATCH 30/54] fix: the second and third nearest medoids no longer
 skip medoids at equal distances

---
 include/ffcl/kmedoids/PAMUtils.hpp | 40 +++++++++---------------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/include/ffcl/kmedoids/PAMUtils.hpp b/include/ffcl/kmedoids/PAMUtils.hpp
index be5c117..2926ac7 100644
--- a/include/ffcl/kmedoids/PAMUtils.hpp
+++ b/include/ffcl/kmedoids/PAMUtils.hpp
@@ -127,8 +127,7 @@ std::vector<std::size_t> samples_to_second_nearest_medoid_indices(const SamplesI
                 first_min_distance  = second_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
                 second_min_index    = idx;
             }
@@ -169,8 +168,7 @@ std::vector<std::size_t> samples_to_second_nearest_medoid_indices(
                 first_min_distance  = second_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
                 second_min_index    = idx;
             }
@@ -222,16 +220,13 @@ std::vector<std::size_t> samples_to_third_nearest_medoid_indices(const SamplesIt
                 first_min_distance  = third_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 third_min_index     = second_min_index;
                 second_min_distance = third_nearest_candidate;
                 second_min_index    = idx;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
                 third_min_index    = idx;
             }
@@ -276,16 +271,13 @@ std::vector<std::size_t> samples_to_third_nearest_medoid_indices(
                 first_min_distance  = third_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 third_min_index     = second_min_index;
                 second_min_distance = third_nearest_candidate;
                 second_min_index    = idx;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
                 third_min_index    = idx;
             }
@@ -453,8 +445,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = second_nearest_candidate;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
             }
         }
@@ -490,8 +481,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = second_nearest_candidate;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
             }
         }
@@ -537,14 +527,11 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 second_min_distance = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
             }
         }
@@ -582,14 +569,11 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 second_min_distance = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
             }
         }
-- 
2.43.0


From f15f504fa93a442627c0d12fcf699879f9207e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:11 +0000
Subject: [PATCH 31/54] fix: the first medoid of integer samples is found
 (infinity is 0 for integers)

---
 include/ffcl/kmedoids/PAMUtils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/kmedoids/PAMUtils.hpp b/include/ffcl/kmedoids/PAMUtils.hpp
index 2926ac7..4cc6172 100644
--- a/include/ffcl/kmedoids/PAMUtils.hpp
+++ b/include/ffcl/kmedoids/PAMUtils.hpp
@@ -701,7 +701,7 @@ std::pair<typename std::iterator_traits<SamplesIterator>::value_type, std::size_
     const std::size_t n_samples = ffcl::common::get_n_samples(samples_range_first, samples_range_last, n_features);
 
     std::size_t selected_medoid = 0;
-    auto        total_deviation = ffcl::common::infinity<DataType>();
+    auto        total_deviation = std::numeric_limits<DataType>::max();
     // choose the first medoid
     for (std::size_t medoid_candidate_idx = 0; medoid_candidate_idx < n_samples; ++medoid_candidate_idx) {
         // total deviation accumulator w.r.t. current candidate medoid and all the other points
@@ -734,7 +734,7 @@ std::pair<typename std::iterator_traits<SamplesIterator>::value_type, std::size_
     const std::size_t n_samples = pairwise_distance_matrix.n_rows();
 
     std::size_t selected_medoid = 0;
-    auto        total_deviation = ffcl::common::infinity<DataType>();
+    auto        total_deviation = std::numeric_limits<DataType>::max();
     // choose the first medoid
     for (std::size_t medoid_candidate_idx = 0; medoid_candidate_idx < n_samples; ++medoid_candidate_idx) {
         // total deviation accumulator w.r.t. current candidate medoid and all the other points
-- 
2.43.0


From 1a40f60841276d62fbb991de6a4f8b7500644637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:11 +0000
Subject: [PATCH 32/54] fix: FasterPAM considers every sample that is not a
 medoid (a sample index was compared with a position among the medoids)

---
 include/ffcl/kmedoids/FasterPAM.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterPAM.hpp b/include/ffcl/kmedoids/FasterPAM.hpp
index 191bd33..ead8bc1 100644
--- a/include/ffcl/kmedoids/FasterPAM.hpp
+++ b/include/ffcl/kmedoids/FasterPAM.hpp
@@ -136,11 +136,9 @@ auto FasterPAM<SamplesIterator>::total_deviation() const {
 
 template <typename SamplesIterator>
 auto FasterPAM<SamplesIterator>::step() {
-    const auto& samples_to_nearest_medoid_indices = buffers_ptr_->samples_to_nearest_medoid_indices_;
-
     for (std::size_t medoid_candidate_index = 0; medoid_candidate_index < n_samples_; ++medoid_candidate_index) {
         // execute only if the current candidate is not already selected as a medoid
-        if (medoid_candidate_index != samples_to_nearest_medoid_indices[medoid_candidate_index]) {
+        if (common::is_element_not_in(medoids_.begin(), medoids_.end(), medoid_candidate_index)) {
             // the total deviation change for the best swap candidate and its index in the dataset
             const auto [best_swap_delta_td, best_swap_index] = find_best_swap(medoid_candidate_index);
 
-- 
2.43.0


From cc0a081a74be63ad8fc52af19ccdba1090c1cba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:43 +0000
Subject: [PATCH 33/54] fix: FasterMSC considers every sample that is not a
 medoid (a sample index was compared with a position among the medoids)

---
 include/ffcl/kmedoids/FasterMSC.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index 4af7854..7935298 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -146,11 +146,9 @@ auto FasterMSC<SamplesIterator>::total_deviation() const {
 
 template <typename SamplesIterator>
 auto FasterMSC<SamplesIterator>::step() {
-    const auto& samples_to_nearest_medoid_indices = buffers_ptr_->samples_to_nearest_medoid_indices_;
-
     for (std::size_t medoid_candidate_index = 0; medoid_candidate_index < n_samples_; ++medoid_candidate_index) {
         // execute only if the current candidate is not already selected as a medoid
-        if (medoid_candidate_index != samples_to_nearest_medoid_indices[medoid_candidate_index]) {
+        if (common::is_element_not_in(medoids_.begin(), medoids_.end(), medoid_candidate_index)) {
             // handle the case chen the number of medoids is 2
             if (medoids_.size() == 2) {
                 // the total deviation change for the best medoid index 0 or 1
-- 
2.43.0


From c28b18fc5da66fd85f22cb1bff24bacdd82a95bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:43 +0000
Subject: [PATCH 34/54] fix: FasterMSC no longer takes position 0 among the
 medoids for a missing third nearest medoid

---
 include/ffcl/kmedoids/FasterMSC.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index 7935298..24d36d4 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -333,7 +333,7 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
                 index_1    = best_swap_index;
                 distance_1 = distance_oc;
 
-            } else if (distance_oc < distance_3 || index_3 == common::infinity<std::size_t>()) {
+            } else if (distance_oc < distance_3) {
                 index_1    = index_2;
                 distance_1 = distance_2;
                 index_2    = best_swap_index;
@@ -373,7 +373,7 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
                 index_1    = best_swap_index;
                 distance_1 = distance_oc;
 
-            } else if (distance_oc < distance_3 || index_3 == common::infinity<std::size_t>()) {
+            } else if (distance_oc < distance_3) {
                 index_2    = best_swap_index;
                 distance_2 = distance_oc;
 
@@ -417,7 +417,7 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
                 index_2    = best_swap_index;
                 distance_2 = distance_oc;
 
-            } else if (distance_oc < distance_3 || index_3 == common::infinity<std::size_t>()) {
+            } else if (distance_oc < distance_3) {
                 index_3    = best_swap_index;
                 distance_3 = distance_oc;
 
-- 
2.43.0


From 81fcf27e3104715ca53c34bf84fe2b85046cf980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:43 +0000
Subject: [PATCH 35/54] fix: the initial loss of FasterMSC is the one that its
 swaps update, not a sum of distances

---
 include/ffcl/kmedoids/FasterMSC.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index 24d36d4..2ff3797 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -104,9 +104,15 @@ FasterMSC<SamplesIterator>::FasterMSC(const DatasetDescriptorType&    dataset_de
                                       const std::vector<std::size_t>& medoids)
   : FasterMSC<SamplesIterator>::FasterMSC(dataset_descriptor, medoids, common::infinity<DataType>()) {
     // compute initial loss
-    loss_ = std::accumulate(buffers_ptr_->samples_to_nearest_medoid_distances_.begin(),
-                            buffers_ptr_->samples_to_nearest_medoid_distances_.end(),
-                            static_cast<DataType>(0));
+    loss_ = std::inner_product(
+        buffers_ptr_->samples_to_nearest_medoid_distances_.begin(),
+        buffers_ptr_->samples_to_nearest_medoid_distances_.end(),
+        buffers_ptr_->samples_to_second_nearest_medoid_distances_.begin(),
+        static_cast<DataType>(0),
+        std::plus<>(),
+        [](const auto& distance_1, const auto& distance_2) {
+            return common::division(std::min(distance_1, distance_2), std::max(distance_1, distance_2));
+        });
 }
 
 template <typename SamplesIterator>
@@ -124,9 +130,15 @@ FasterMSC<SamplesIterator>::FasterMSC(const SecondVariantType&        pairwise_d
                                       const std::vector<std::size_t>& medoids)
   : FasterMSC<SamplesIterator>::FasterMSC(pairwise_distance_matrix, medoids, common::infinity<DataType>()) {
     // compute initial loss
-    loss_ = std::accumulate(buffers_ptr_->samples_to_nearest_medoid_distances_.begin(),
-                            buffers_ptr_->samples_to_nearest_medoid_distances_.end(),
-                            static_cast<DataType>(0));
+    loss_ = std::inner_product(
+        buffers_ptr_->samples_to_nearest_medoid_distances_.begin(),
+        buffers_ptr_->samples_to_nearest_medoid_distances_.end(),
+        buffers_ptr_->samples_to_second_nearest_medoid_distances_.begin(),
+        static_cast<DataType>(0),
+        std::plus<>(),
+        [](const auto& distance_1, const auto& distance_2) {
+            return common::division(std::min(distance_1, distance_2), std::max(distance_1, distance_2));
+        });
 }
 
 template <typename SamplesIterator>
-- 
2.43.0


From 742d73352378d844f00ff897bcdeb01049fdcd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:43 +0000
Subject: [PATCH 36/54] fix: FasterMSC keeps the distances to two medoids by
 medoid position, as its swaps expect

---
 include/ffcl/kmedoids/FasterMSC.hpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index 2ff3797..7ea0588 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -75,6 +75,9 @@ class FasterMSC {
 
         void update_losses_with_closest_medoid_removal(std::size_t n_medoids);
 
+        // store the distances by medoid position instead of closeness when n_medoids = 2 (K2)
+        void order_distances_by_medoid_position_k2(std::size_t n_medoids);
+
         std::vector<std::size_t> samples_to_nearest_medoid_indices_;
         std::vector<std::size_t> samples_to_second_nearest_medoid_indices_;
         std::vector<std::size_t> samples_to_third_nearest_medoid_indices_;
@@ -482,8 +485,8 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
         auto& distance_2 = samples_to_second_nearest_medoid_distances[other_sample_index];
 
         if (other_sample_index == medoid_candidate_index) {
-            index_1    = best_swap_index;
-            distance_1 = distance_2 = 0;
+            index_1 = best_swap_index;
+            (best_swap_index == 0 ? distance_1 : distance_2) = 0;
             continue;
         }
         // candidate_to_other_distance
@@ -569,7 +572,9 @@ FasterMSC<SamplesIterator>::Buffers::Buffers(const SamplesIterator&          sam
                                                 samples_to_second_nearest_medoid_distances_,
                                                 samples_to_third_nearest_medoid_distances_,
                                                 medoids.size())
-                                          : std::vector<DataType>({})} {}
+                                          : std::vector<DataType>({})} {
+    order_distances_by_medoid_position_k2(medoids.size());
+}
 
 template <typename SamplesIterator>
 FasterMSC<SamplesIterator>::Buffers::Buffers(const DatasetDescriptorType&    dataset_descriptor,
@@ -620,7 +625,21 @@ FasterMSC<SamplesIterator>::Buffers::Buffers(const SecondVariantType&        pai
                                                 samples_to_second_nearest_medoid_distances_,
                                                 samples_to_third_nearest_medoid_distances_,
                                                 medoids.size())
-                                          : std::vector<DataType>({})} {}
+                                          : std::vector<DataType>({})} {
+    order_distances_by_medoid_position_k2(medoids.size());
+}
+
+template <typename SamplesIterator>
+void FasterMSC<SamplesIterator>::Buffers::order_distances_by_medoid_position_k2(std::size_t n_medoids) {
+    if (n_medoids == 2) {
+        for (std::size_t sample_index = 0; sample_index < samples_to_nearest_medoid_indices_.size(); ++sample_index) {
+            if (samples_to_nearest_medoid_indices_[sample_index] == 1) {
+                std::swap(samples_to_nearest_medoid_distances_[sample_index],
+                          samples_to_second_nearest_medoid_distances_[sample_index]);
+            }
+        }
+    }
+}
 
 template <typename SamplesIterator>
 void FasterMSC<SamplesIterator>::Buffers::update_losses_with_closest_medoid_removal(std::size_t n_medoids) {
-- 
2.43.0


From afcdb2b38987249ac482b8d39fd6f379976c8838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:25 +0000
Subject: [PATCH 37/54] fix: a KDTree keeps its number of samples when it is
 moved

---
 include/ffcl/datastruct/tree/kdtree/KDTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
index 9b16f91..81f7c44 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
@@ -245,6 +245,7 @@ KDTree<IndicesIterator, SamplesIterator>::KDTree(KDTree&& other) noexcept
   : options_{std::move(other.options_)}
   , samples_range_first_{std::move(other.samples_range_first_)}
   , samples_range_last_{std::move(other.samples_range_last_)}
+  , n_samples_{std::move(other.n_samples_)}
   , n_features_{std::move(other.n_features_)}
   , bound_{std::move(other.bound_)}
   , root_{std::move(other.root_)} {}
-- 
2.43.0


From de8223095f04b7517aab6cef4cc4a169a3d2bd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:25 +0000
Subject: [PATCH 38/54] fix: trees are serialized without rounding their values
 on the way to the file

---
 include/ffcl/datastruct/tree/kdtree/KDTree.hpp                  | 2 +-
 .../single_linkage_cluster_tree/SingleLinkageClusterTree.hpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
index 81f7c44..c24d53d 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
@@ -452,7 +452,7 @@ void KDTree<IndicesIterator, SamplesIterator>::serialize(const fs::path& filepat
     }
     writer.EndObject();
 
-    document.Parse(buffer.GetString());
+    document.Parse<rapidjson::kParseFullPrecisionFlag>(buffer.GetString());
 
     std::ofstream output_file(filepath);
 
diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index 96f7c1c..1e23c3a 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -273,7 +273,7 @@ void SingleLinkageClusterTree<IndexType, ValueType>::serialize(const fs::path& f
     }
     writer.EndObject();
 
-    document.Parse(buffer.GetString());
+    document.Parse<rapidjson::kParseFullPrecisionFlag>(buffer.GetString());
 
     std::ofstream output_file(filepath);
 
-- 
2.43.0


From 2dee0f03782e3eb3f725a6112da26e1382a712fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:56 +0000
Subject: [PATCH 39/54] fix: the longest axis among masked features is one of
 the mask even when all their sides are zero

---
 include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
index c8d5a5f..76617be 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
@@ -30,7 +30,7 @@ std::size_t select_longest_axis(const Bound& bound, const std::vector<std::size_
     static_assert(std::is_trivial_v<DataType>, "DataType must be trivial.");
 
     // feature index of the greatest range dimension in the kd bounding box at the indices of the feature_mask
-    std::size_t current_max_range_feature_index = 0;
+    std::size_t current_max_range_feature_index = feature_mask.front();
     DataType    current_max_range               = 0;
 
     // "feature_index"s are only the ones specified in the feature_mask
-- 
2.43.0


From 7c2f19d8ebe24b3771adc5a64883d8bf89820728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:56 +0000
Subject: [PATCH 40/54] fix: the axis of two samples is the one along which
 these two are furthest apart, not the whole dataset

---
 include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
index 76617be..d279725 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
@@ -88,7 +88,8 @@ std::size_t select_largest_variance_axis(const IndicesIterator& indices_range_fi
     // select the axis according to the dimension with the most spread between 2 points
     if (n_samples == 2) {
         // otherwise apply the bounding box method
-        auto bound = make_tight_bound<SamplesIterator, Bound>(samples_range_first, samples_range_last, n_features);
+        auto bound = make_tight_bound<IndicesIterator, SamplesIterator, Bound>(
+            indices_range_first, indices_range_last, samples_range_first, samples_range_last, n_features);
 
         return select_longest_axis(bound);
     }
@@ -147,7 +148,8 @@ std::size_t select_largest_variance_axis(const IndicesIterator&          indices
     // select the axis according to the dimension with the most spread between 2 points
     if (n_samples == 2) {
         // otherwise apply the bounding box method
-        auto bound = make_tight_bound<SamplesIterator, Bound>(samples_range_first, samples_range_last, n_features);
+        auto bound = make_tight_bound<IndicesIterator, SamplesIterator, Bound>(
+            indices_range_first, indices_range_last, samples_range_first, samples_range_last, n_features);
 
         return select_longest_axis(bound, feature_mask);
     }
-- 
2.43.0


From b508c2a71a9514c13ed7a7d3f419633f639fbe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:56 +0000
Subject: [PATCH 41/54] fix: the random axis of a single sample is one of the
 masked features

---
 include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
index d279725..d89f798 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
@@ -153,8 +153,8 @@ std::size_t select_largest_variance_axis(const IndicesIterator&          indices
 
         return select_longest_axis(bound, feature_mask);
     }
-    // return a random axis if theres only one sample left
-    return common::math::random::uniform_distribution<std::size_t>(0, n_features - 1)();
+    // return a random axis of the mask if theres only one sample left
+    return feature_mask[common::math::random::uniform_distribution<std::size_t>(0, feature_mask.size() - 1)()];
 }
 template <typename ForwardedIndicesIteratorPair, typename SamplesIterator>
 auto shift_median_to_leftmost_equal_value(std::size_t                    median_index,
-- 
2.43.0


From 962cb861cea26d20a0a07de407013b12ccbaedd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:46 +0000
Subject: [PATCH 42/54] fix: a box with centroid of a fixed number of features
 derives from the base of its own type

---
 include/ffcl/datastruct/bounds/AABBWithCentroid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
index e7d49d4..8090dba 100644
--- a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
+++ b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
@@ -11,7 +11,7 @@
 namespace ffcl::datastruct::bounds {
 
 template <typename Segment, std::size_t NFeatures = 0>
-class AABBWithCentroid : public StaticBoundWithCentroid<AABBWithCentroid<Segment>> {
+class AABBWithCentroid : public StaticBoundWithCentroid<AABBWithCentroid<Segment, NFeatures>> {
     static_assert(common::is_crtp_of<Segment, segment::StaticSegment>::value,
                   "Provided a Segment that does not inherit from segment::StaticSegment<Derived>");
 
-- 
2.43.0


From 1ffcde33a17117ae3be4865365bca41aa750fc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:26 +0000
Subject: [PATCH 43/54] fix: the axiswise distance to a cut does not wrap
 around for unsigned samples

---
 include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp b/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp
index e20740b..9b8c7e8 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp
@@ -233,10 +233,14 @@ auto KDNodeView<IndicesIterator, Bound>::select_sibling_node(
         // nearest neighbor to the other side of the hyperrectangle since the values that are equal to the pivot are
         // put to the right
         auto visit_sibling = [&]() {
-            return is_left_child_ret ? common::abs(pivot_split_value - query_split_value) <=
-                                           query_buffer.furthest_distance(parent_node->cut_axis_feature_index_)
-                                     : common::abs(pivot_split_value - query_split_value) <
-                                           query_buffer.furthest_distance(parent_node->cut_axis_feature_index_);
+            // the smaller value is subtracted from the greater one so that unsigned values do not wrap around
+            const auto axiswise_distance = pivot_split_value < query_split_value
+                                               ? query_split_value - pivot_split_value
+                                               : pivot_split_value - query_split_value;
+
+            return is_left_child_ret
+                       ? axiswise_distance <= query_buffer.furthest_distance(parent_node->cut_axis_feature_index_)
+                       : axiswise_distance < query_buffer.furthest_distance(parent_node->cut_axis_feature_index_);
         };
         return query_buffer.remaining_capacity() || visit_sibling()
                    ? (is_left_child_ret ? parent_node->right_ : parent_node->left_)
-- 
2.43.0


From c44e11d2a7f401944ae126a1f7598cd994038db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:26 +0000
Subject: [PATCH 44/54] fix: the longest side of a box of unsigned samples does
 not wrap around

---
 include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
index d89f798..938f3ba 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
@@ -17,7 +17,7 @@ namespace ffcl::datastruct::kdtree::algorithms {
 template <typename Bound>
 std::size_t select_longest_axis(const Bound& bound) {
     const auto comparison = [](const auto& lhs, const auto& rhs) {
-        return common::abs(lhs.lower_bound() - lhs.upper_bound()) < common::abs(rhs.lower_bound() - rhs.upper_bound());
+        return lhs.upper_bound() - lhs.lower_bound() < rhs.upper_bound() - rhs.lower_bound();
     };
     const auto it = std::max_element(bound.segments_begin(), bound.segments_end(), comparison);
     return std::distance(bound.segments_begin(), it);
-- 
2.43.0


From dd3349573ca145a0eac75ab6d5a5102c3004ffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:07 +0000
Subject: [PATCH 45/54] fix: the spanning tree of integer samples, whose type
 has no infinity, is found

---
 include/ffcl/common/Utils.hpp                             | 6 ++++++
 .../datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp  | 8 ++++----
 .../graph/spanning_tree/MinimumSpanningTree.hpp           | 2 +-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/ffcl/common/Utils.hpp b/include/ffcl/common/Utils.hpp
index 30a777c..fbb67ce 100644
--- a/include/ffcl/common/Utils.hpp
+++ b/include/ffcl/common/Utils.hpp
@@ -395,6 +395,12 @@ static constexpr T infinity() {
     return std::numeric_limits<T>::infinity();
 }
 
+// The value that no other value of T exceeds: infinity if T has one, the maximum of T otherwise.
+template <typename T>
+static constexpr T upper_limit() {
+    return std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max();
+}
+
 template <typename T>
 constexpr T abs(const T& x) {
     if constexpr (std::is_integral_v<T>) {
diff --git a/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp b/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
index 4790866..0350810 100644
--- a/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
+++ b/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
@@ -314,7 +314,7 @@ void BoruvkasAlgorithm<Indexer>::step_sequential(const search::Searcher<Indexer>
     }
     // merge components based on the best edges found in each component so far
     for (const auto& [component_representative, edge] : components_closest_edge) {
-        assert(std::get<2>(edge) < common::infinity<ValueType>());
+        assert(std::get<2>(edge) < common::upper_limit<ValueType>());
         common::ignore_parameters(component_representative);
         forest.merge_components(edge);
     }
@@ -345,7 +345,7 @@ void BoruvkasAlgorithm<Indexer>::step_sequential(const search::Searcher<Indexer>
     }
     // merge components based on the best edges found in each component so far
     for (const auto& [component_representative, edge] : components_closest_edge) {
-        assert(std::get<2>(edge) < common::infinity<ValueType>());
+        assert(std::get<2>(edge) < common::upper_limit<ValueType>());
         common::ignore_parameters(component_representative);
         forest.merge_components(edge);
     }
@@ -514,7 +514,7 @@ void BoruvkasAlgorithm<Indexer>::step_dual_tree_sequential(const search::Searche
     }
     // merge components based on the best edges found in each component so far
     for (const auto& [component_representative, edge] : components_closest_edge) {
-        assert(std::get<2>(edge) < common::infinity<ValueType>());
+        assert(std::get<2>(edge) < common::upper_limit<ValueType>());
         common::ignore_parameters(component_representative);
         forest.merge_components(edge);
     }
@@ -571,7 +571,7 @@ void BoruvkasAlgorithm<Indexer>::step_dual_tree_parallel(const search::Searcher<
 
     // Sequentially merge components based on the best edges found in each component
     for (const auto& [component_representative, edge] : components_closest_edge) {
-        assert(std::get<2>(edge) < common::infinity<ValueType>());
+        assert(std::get<2>(edge) < common::upper_limit<ValueType>());
         common::ignore_parameters(component_representative);
         forest.merge_components(edge);
     }
diff --git a/include/ffcl/datastruct/graph/spanning_tree/MinimumSpanningTree.hpp b/include/ffcl/datastruct/graph/spanning_tree/MinimumSpanningTree.hpp
index 5f105ea..ccf5ef2 100644
--- a/include/ffcl/datastruct/graph/spanning_tree/MinimumSpanningTree.hpp
+++ b/include/ffcl/datastruct/graph/spanning_tree/MinimumSpanningTree.hpp
@@ -23,7 +23,7 @@ constexpr auto make_edge(const Index& index_1, const Index& index_2, const Dista
 
 template <typename Index, typename Distance>
 constexpr auto make_default_edge() {
-    return make_edge(common::infinity<Index>(), common::infinity<Index>(), common::infinity<Distance>());
+    return make_edge(common::infinity<Index>(), common::infinity<Index>(), common::upper_limit<Distance>());
 }
 
 template <typename Index, typename Distance>
-- 
2.43.0


From af7c5d2b25507ea852219aa10970152f656ea526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:28 +0000
Subject: [PATCH 46/54] fix: the dual tree search of integer samples, whose
 type has no infinity, does not prune what it has not visited

---
 include/ffcl/search/ClosestPairOfSamples.hpp       | 2 +-
 include/ffcl/search/buffer/IndicesToBuffersMap.hpp | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ffcl/search/ClosestPairOfSamples.hpp b/include/ffcl/search/ClosestPairOfSamples.hpp
index 57de4dc..298f905 100644
--- a/include/ffcl/search/ClosestPairOfSamples.hpp
+++ b/include/ffcl/search/ClosestPairOfSamples.hpp
@@ -35,7 +35,7 @@ auto simple_dual_set_shortest_edge(
                                 typename std::iterator_traits<SamplesIterator>::value_type>& initial_shortest_edge =
         datastruct::mst::make_edge(common::infinity<typename std::iterator_traits<IndicesIterator>::value_type>(),
                                    common::infinity<typename std::iterator_traits<IndicesIterator>::value_type>(),
-                                   common::infinity<typename std::iterator_traits<SamplesIterator>::value_type>()))
+                                   common::upper_limit<typename std::iterator_traits<SamplesIterator>::value_type>()))
     -> datastruct::mst::Edge<typename std::iterator_traits<IndicesIterator>::value_type,
                              typename std::iterator_traits<SamplesIterator>::value_type> {
     common::ignore_parameters(samples_range_last, other_samples_range_last);
diff --git a/include/ffcl/search/buffer/IndicesToBuffersMap.hpp b/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
index 5ef1945..f809815 100644
--- a/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
+++ b/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
@@ -151,12 +151,12 @@ class IndicesToBuffersMap {
         }
 
         auto compute_adjusted_bound(const DistanceType& node_diameter) const -> DistanceType {
-            return (closest_limit < common::infinity<DistanceType>() - node_diameter)
+            return (closest_limit < common::upper_limit<DistanceType>() - node_diameter)
                        ? std::min(furthest_limit, closest_limit + node_diameter)
-                       : common::infinity<DistanceType>();
+                       : common::upper_limit<DistanceType>();
         }
 
-        DistanceType closest_limit  = common::infinity<DistanceType>();
+        DistanceType closest_limit  = common::upper_limit<DistanceType>();
         DistanceType furthest_limit = 0;
     };
 
@@ -364,7 +364,7 @@ auto IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::query_node_fur
 template <typename Buffer, typename QueryIndexer, typename ReferenceIndexer>
 auto IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::update_bounds_limits(const QueryNodePtr& query_node)
     -> typename std::unordered_map<QueryNodePtr, BoundsLimits>::iterator {
-    static constexpr auto infinity = common::infinity<DistanceType>();
+    static constexpr auto infinity = common::upper_limit<DistanceType>();
 
     // Try to emplace if the 'query_node' key is not already present. Return 'first' to discard the bool (not) inserted.
     auto query_node_to_bound_limits_it = query_nodes_to_bounds_limits_map_.emplace(query_node, BoundsLimits{}).first;
-- 
2.43.0


From 85658a16e57fd0c13c2fada6a414adb7d28e1577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:28 +0000
Subject: [PATCH 47/54] fix: the separation of integer samples is the smallest
 over the other clusters

---
 include/ffcl/common/math/heuristics/SilhouetteMethod.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
index b30b9a4..b1320f9 100644
--- a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
+++ b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
@@ -182,10 +182,10 @@ auto separation(const SamplesIterator&       samples_range_first,
                            // if cluster size is zero, set distance mean to infinity so that it doesnt
                            // get picked otherwise normalize by dividing normally
                            return (cluster_size ? distance / static_cast<ElementType>(cluster_size)
-                                                : common::infinity<ElementType>());
+                                                : common::upper_limit<ElementType>());
                        });
         // set the current cluster index distance value to infinity so that it doesnt get chosen
-        sample_to_other_cluster_samples_distance_mean[centroid_index] = common::infinity<ElementType>();
+        sample_to_other_cluster_samples_distance_mean[centroid_index] = common::upper_limit<ElementType>();
         // normalise the sum of the distances from the current sample to all the other samples in the same cluster
         samples_separation_scores[sample_index] = *std::min_element(
             sample_to_other_cluster_samples_distance_mean.begin(), sample_to_other_cluster_samples_distance_mean.end());
-- 
2.43.0


From ec43dfcfebe2d40d8790a6b05108ee03290c31c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:28 +0000
Subject: [PATCH 48/54] fix: the single linkage tree of integer samples is not
 cut by default

---
 .../single_linkage_cluster_tree/SingleLinkageClusterTree.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index 1e23c3a..f2fff68 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -56,7 +56,7 @@ class SingleLinkageClusterTree {
             return *this;
         }
 
-        ValueType   cut_level_        = common::infinity<ValueType>();
+        ValueType   cut_level_        = common::upper_limit<ValueType>();
         std::size_t min_cluster_size_ = 1;
     };
 
-- 
2.43.0


From f13afcc4acd17c022052f039bd1e01b3d072b518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:19 +0000
Subject: [PATCH 49/54] fix: an unlimited search of integer samples, whose type
 has no infinity, does not prune while nothing is found

---
 include/ffcl/search/buffer/StaticBuffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/search/buffer/StaticBuffer.hpp b/include/ffcl/search/buffer/StaticBuffer.hpp
index 205fd86..346b84f 100644
--- a/include/ffcl/search/buffer/StaticBuffer.hpp
+++ b/include/ffcl/search/buffer/StaticBuffer.hpp
@@ -45,9 +45,9 @@ class StaticBuffer {
       , indices_{}
       , distances_{}
       , closest_index_{0}
-      , closest_distance_{common::infinity<DistanceType>()}
+      , closest_distance_{common::upper_limit<DistanceType>()}
       , buffer_index_of_furthest_index_{0}
-      , furthest_distance_{common::infinity<DistanceType>()}
+      , furthest_distance_{common::upper_limit<DistanceType>()}
       , max_capacity_{max_capacity} {}
 
     constexpr auto centroid_begin() const {
-- 
2.43.0


From 380222ed761eca38d2181ea99181d9cf0dd0d0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:08 +0000
Subject: [PATCH 50/54] fix: the distance between two balls of unsigned samples
 that meet is zero

---
 .../datastruct/bounds/distances/MinDistance.hpp    | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/ffcl/datastruct/bounds/distances/MinDistance.hpp b/include/ffcl/datastruct/bounds/distances/MinDistance.hpp
index e3c4085..1e29e98 100644
--- a/include/ffcl/datastruct/bounds/distances/MinDistance.hpp
+++ b/include/ffcl/datastruct/bounds/distances/MinDistance.hpp
@@ -60,9 +60,10 @@ constexpr auto min_distance(const Ball<FirstValue, NFeatures>&  first_ball,
                                                                             second_ball.centroid_begin(),
                                                                             second_ball.centroid_begin());
 
-    return std::max(static_cast<ValueType>(0),
-                    centroids_distance - (first_ball.centroid_to_furthest_bound_distance() +
-                                          second_ball.centroid_to_furthest_bound_distance()));
+    const auto radii_sum =
+        first_ball.centroid_to_furthest_bound_distance() + second_ball.centroid_to_furthest_bound_distance();
+
+    return static_cast<ValueType>(centroids_distance > radii_sum ? centroids_distance - radii_sum : 0);
 }
 
 template <typename FirstFeaturesIterator, typename SecondFeaturesIterator>
@@ -76,9 +77,10 @@ constexpr auto min_distance(const BallView<FirstFeaturesIterator>&  first_ball_v
                                                                             second_ball_view.centroid_begin(),
                                                                             second_ball_view.centroid_begin());
 
-    return std::max(static_cast<ValueType>(0),
-                    centroids_distance - (first_ball_view.centroid_to_furthest_bound_distance() +
-                                          second_ball_view.centroid_to_furthest_bound_distance()));
+    const auto radii_sum =
+        first_ball_view.centroid_to_furthest_bound_distance() + second_ball_view.centroid_to_furthest_bound_distance();
+
+    return static_cast<ValueType>(centroids_distance > radii_sum ? centroids_distance - radii_sum : 0);
 }
 
 template <typename FirstValue, typename SecondValue, std::size_t NFeatures = 0>
-- 
2.43.0


From c22abd7c8106aa173a753056de087b4c46334596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:37 +0000
Subject: [PATCH 51/54] fix: the unsigned values of a serialized tree are
 written as such

---
 include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp        | 5 ++++-
 include/ffcl/datastruct/tree/kdtree/KDTree.hpp            | 8 ++++++--
 .../SingleLinkageClusterNode.hpp                          | 5 ++++-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp b/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp
index 9b8c7e8..8fb07e0 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp
@@ -291,7 +291,10 @@ void KDNodeView<IndicesIterator, Bound>::serialize(rapidjson::Writer<rapidjson::
     for (auto subrange_index_it = indices_range_first; subrange_index_it != indices_range_last; ++subrange_index_it) {
         writer.StartArray();
         for (std::size_t feature_index = 0; feature_index < reference_n_features; ++feature_index) {
-            if constexpr (std::is_integral_v<DataType>) {
+            if constexpr (std::is_integral_v<DataType> && std::is_unsigned_v<DataType>) {
+                writer.Uint64(reference_samples_range_first[*subrange_index_it * reference_n_features + feature_index]);
+
+            } else if constexpr (std::is_integral_v<DataType>) {
                 writer.Int64(reference_samples_range_first[*subrange_index_it * reference_n_features + feature_index]);
 
             } else if constexpr (std::is_floating_point_v<DataType>) {
diff --git a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
index c24d53d..0878331 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
@@ -111,7 +111,7 @@ class KDTree {
             writer.StartObject();
             {
                 writer.String("bucket_size");
-                writer.Int64(bucket_size_);
+                writer.Uint64(bucket_size_);
 
                 writer.String("max_depth");
                 writer.Uint64(max_depth_);
@@ -435,7 +435,11 @@ void KDTree<IndicesIterator, SamplesIterator>::serialize(const fs::path& filepat
         for (std::size_t feature_index = 0; feature_index < n_features_; ++feature_index) {
             writer.StartArray();
 
-            if constexpr (std::is_integral_v<DataType>) {
+            if constexpr (std::is_integral_v<DataType> && std::is_unsigned_v<DataType>) {
+                writer.Uint64(bound_.segment_at(feature_index).lower_bound());
+                writer.Uint64(bound_.segment_at(feature_index).upper_bound());
+
+            } else if constexpr (std::is_integral_v<DataType>) {
                 writer.Int64(bound_.segment_at(feature_index).lower_bound());
                 writer.Int64(bound_.segment_at(feature_index).upper_bound());
 
diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp
index fe44a12..dc16add 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp
@@ -75,7 +75,10 @@ void SingleLinkageClusterNode<IndexType, ValueType>::serialize(
     writer.Int64(representative_);
 
     writer.String("level");
-    if constexpr (std::is_integral_v<ValueType>) {
+    if constexpr (std::is_integral_v<ValueType> && std::is_unsigned_v<ValueType>) {
+        writer.Uint64(level_);
+
+    } else if constexpr (std::is_integral_v<ValueType>) {
         writer.Int64(level_);
 
     } else if constexpr (std::is_floating_point_v<ValueType>) {
-- 
2.43.0


From e687a5cf391d8c4906cdc9b8d347f0a7b00eb26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:28 +0000
Subject: [PATCH 52/54] fix: the lower bounds of Hamerly's algorithm do not
 wrap around for unsigned samples

---
 include/ffcl/kmeans/Hamerly.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/kmeans/Hamerly.hpp b/include/ffcl/kmeans/Hamerly.hpp
index f9e6277..8503c93 100644
--- a/include/ffcl/kmeans/Hamerly.hpp
+++ b/include/ffcl/kmeans/Hamerly.hpp
@@ -291,9 +291,12 @@ void Hamerly<SamplesIterator>::update_bounds() {
         // move the upper bound by the same distance its assigned centroid has moved
         samples_to_nearest_centroid_distances[sample_index] += centroid_velocities[assigned_centroid_index];
 
-        samples_to_second_nearest_centroid_distances[sample_index] -=
-            (assigned_centroid_index == furthest_moving_centroid_index) ? second_furthest_moving_centroid_distance
-                                                                        : furthest_moving_centroid_distance;
+        const auto furthest_move = (assigned_centroid_index == furthest_moving_centroid_index)
+                                       ? second_furthest_moving_centroid_distance
+                                       : furthest_moving_centroid_distance;
+        // the lower bound is a distance so it doesn't get lower than zero
+        auto& lower_bound = samples_to_second_nearest_centroid_distances[sample_index];
+        lower_bound       = lower_bound > furthest_move ? lower_bound - furthest_move : 0;
     }
     buffers_ptr_->centroid_to_nearest_centroid_distances_ = kmeans::utils::nearest_neighbor_distances(
         centroids_.begin(), centroids_.end(), std::get<2>(dataset_descriptor_));
-- 
2.43.0


From a584c2c2f64a00033cf6da038036fdd42b72a769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:54 +0000
Subject: [PATCH 53/54] fix: FasterPAM swaps the medoids of unsigned samples
 when it lowers the total deviation

---
 include/ffcl/kmedoids/FasterPAM.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ffcl/kmedoids/FasterPAM.hpp b/include/ffcl/kmedoids/FasterPAM.hpp
index ead8bc1..007991f 100644
--- a/include/ffcl/kmedoids/FasterPAM.hpp
+++ b/include/ffcl/kmedoids/FasterPAM.hpp
@@ -195,7 +195,11 @@ auto FasterPAM<SamplesIterator>::find_best_swap(std::size_t medoid_candidate_ind
     const auto [best_swap_index, best_swap_distance] =
         common::math::statistics::get_min_index_value_pair(delta_td_mi.begin(), delta_td_mi.end());
 
-    return std::make_pair(delta_td_xc + best_swap_distance, best_swap_index);
+    // the variation is negative for an improvement, which an unsigned type doesn't represent
+    using DeltaType = typename std::
+        conditional_t<std::is_unsigned_v<DataType>, std::make_signed<DataType>, std::common_type<DataType>>::type;
+
+    return std::make_pair(static_cast<DeltaType>(delta_td_xc + best_swap_distance), best_swap_index);
 }
 
 template <typename SamplesIterator>
-- 
2.43.0


From c24b153dbff7ad8d1146256a071bf18a3b14d543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:56 +0000
Subject: [PATCH 54/54] fix: the border of an unbounded ball of integer samples
 is not at its centre

---
 include/ffcl/datastruct/bounds/UnboundedBall.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ffcl/datastruct/bounds/UnboundedBall.hpp b/include/ffcl/datastruct/bounds/UnboundedBall.hpp
index aa366ad..fa3550b 100644
--- a/include/ffcl/datastruct/bounds/UnboundedBall.hpp
+++ b/include/ffcl/datastruct/bounds/UnboundedBall.hpp
@@ -55,7 +55,7 @@ UnboundedBall<Value, NFeatures>::UnboundedBall(CentroidType&& centroid) noexcept
 
 template <typename Value, std::size_t NFeatures>
 constexpr auto UnboundedBall<Value, NFeatures>::diameter_impl() const {
-    return common::infinity<ValueType>();
+    return common::upper_limit<ValueType>();
 }
 
 template <typename Value, std::size_t NFeatures>
@@ -93,13 +93,13 @@ constexpr auto UnboundedBall<Value, NFeatures>::compute_distance_to_centroid_if_
 
 template <typename Value, std::size_t NFeatures>
 constexpr auto UnboundedBall<Value, NFeatures>::centroid_to_furthest_bound_distance_impl() const {
-    return common::infinity<ValueType>();
+    return common::upper_limit<ValueType>();
 }
 
 template <typename Value, std::size_t NFeatures>
 constexpr auto UnboundedBall<Value, NFeatures>::centroid_to_bound_distance_impl(std::size_t feature_index) const {
     common::ignore_parameters(feature_index);
-    return common::infinity<ValueType>();
+    return common::upper_limit<ValueType>();
 }
 
 template <typename Value, std::size_t NFeatures>
@@ -198,13 +198,13 @@ constexpr auto UnboundedBallView<FeaturesIterator>::compute_distance_to_centroid
 
 template <typename FeaturesIterator>
 constexpr auto UnboundedBallView<FeaturesIterator>::centroid_to_furthest_bound_distance_impl() const {
-    return common::infinity<ValueType>();
+    return common::upper_limit<ValueType>();
 }
 
 template <typename FeaturesIterator>
 constexpr auto UnboundedBallView<FeaturesIterator>::centroid_to_bound_distance_impl(std::size_t feature_index) const {
     common::ignore_parameters(feature_index);
-    return common::infinity<ValueType>();
+    return common::upper_limit<ValueType>();
 }
 
 template <typename FeaturesIterator>
-- 
2.43.0

