# Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py).
def P(id, title, statement, over, text, why, files, mech, note, na=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _note=note, _na=na)

I = "include/ffcl/"
PROPS = [
P("P01", "Selection, partition and sort of an index range are correct and lossless",
  "Partitioning, selecting the k-th smallest, sorting and taking the median of three of a range of sample indices along one feature gives the documented order of the feature's values, whatever the values (duplicates, extremes, values closer together than machine epsilon), the initial order and the pivot. The index range stays a permutation of what was passed in, and only the chosen feature matters.",
  ["inputs"], "all datasets, feature indices, pivots and ranks",
  "The tests sort random data; ties, near-equal values and pivot positions that only matter in combination are not reached systematically.",
  [I+"common/algorithms/Sorting.hpp"], [("partition_around_pivot_index", I+"common/algorithms/Sorting.hpp:48"), ("quickselect", I+"common/algorithms/Sorting.hpp:152"), ("quicksort", I+"common/algorithms/Sorting.hpp:199"), ("median_index_of_three", I+"common/algorithms/Sorting.hpp:14")],
  "bounded symbolic execution of the four functions on small index ranges; every assertion decided by z3"),
P("P02", "A KD-tree holds every indexed sample exactly once, ordered and enclosed",
  "After construction every indexed sample is in exactly one node, inner nodes hold one sample and split the rest so that the left side is <= and the right side >= along the cut feature, and each node's box encloses all samples below it (the root's box tightly). A leaf holds more samples than the bucket size only where the depth limit stopped the split (there is no limit by default), a feature mask restricts the cut features, and building never modifies the dataset or loses indices.",
  ["inputs", "configurations"], "all datasets (ties included), bucket sizes, depth limits, axis selection policies and masks",
  "The tests build trees on a few files and check search results only; a misplaced sample is visible only for particular queries.",
  [I+"datastruct/tree/kdtree/KDTree.hpp", I+"datastruct/tree/kdtree/KDTreeAlgorithms.hpp", I+"datastruct/tree/kdtree/KDNodeView.hpp", I+"datastruct/tree/kdtree/policy/AxisSelectionPolicy.hpp", I+"datastruct/tree/kdtree/policy/SplittingRulePolicy.hpp", I+"datastruct/Interval.hpp"],
  [("build", I+"datastruct/tree/kdtree/KDTree.hpp:303"), ("quickselect_median, shift_median_to_leftmost_equal_value", I+"datastruct/tree/kdtree/KDTreeAlgorithms.hpp:158"), ("make_tight_bound", I+"datastruct/Interval.hpp")],
  "the tree is built symbolically and walked; all structural assertions decided by z3"),
P("P03", "k-nearest-neighbour search is exact",
  "A nearest-neighbour query returns min(k, number of indexed samples) distinct indexed samples with their true distances to the query, and no sample left out is closer than one returned. The reported closest and furthest neighbours are the extremes of the result, for one query or a batch, whatever the tree's shape.",
  ["inputs", "configurations"], "all datasets, queries, k and tree options",
  "Tests compare with brute force on a few datasets; pruning errors show up only for particular relative positions of query, cut planes and current worst neighbour.",
  [I+"search/Search.hpp", I+"search/TreeTraverser.hpp", I+"search/buffer/Unsorted.hpp", I+"search/buffer/StaticBuffer.hpp", I+"datastruct/tree/kdtree/KDNodeView.hpp", I+"datastruct/bounds/UnboundedBall.hpp"],
  [("TreeTraverser recursion and pruning", I+"search/TreeTraverser.hpp"), ("select_sibling_node", I+"datastruct/tree/kdtree/KDNodeView.hpp"), ("update_static_buffers", I+"search/buffer/StaticBuffer.hpp:139")],
  "tree construction and search executed symbolically, compared with a brute-force oracle inside the same query"),
P("P04", "Radius and box searches return exactly the samples inside",
  "A search bounded by a ball returns exactly the indexed samples strictly closer to its centre than the radius, and one bounded by a box exactly those with every coordinate within the box (borders included), each with its true distance to the centre. With a result limit k it returns the k closest of them.",
  ["inputs", "configurations"], "all datasets, centres, radii, boxes, limits and tree options",
  "Tests use fixed radii on a few datasets; samples on the border and prunes near the border are not covered.",
  [I+"search/TreeTraverser.hpp", I+"datastruct/bounds/Ball.hpp", I+"datastruct/bounds/AABBWithCentroid.hpp", I+"search/buffer/Unsorted.hpp", I+"datastruct/tree/kdtree/KDNodeView.hpp"],
  [("compute_distance_to_centroid_if_within_bounds", I+"datastruct/bounds/Ball.hpp"), ("centroid_to_bound_distance pruning", I+"datastruct/tree/kdtree/KDNodeView.hpp")],
  "as P03 with bounded queries; samples exactly on the border are in the value tables"),
P("P05", "Filtered searches never return excluded samples and stay exact",
  "A search that excludes a set of visited samples, or the samples of one union-find component (named by its representative or any of its samples), returns the k nearest among the remaining samples and never an excluded one. This holds whether the exclusion set is owned by the search buffer or referenced, and after the buffer has been moved.",
  ["inputs", "histories"], "all datasets, exclusion sets, merge histories and k",
  "Tests exclude only the query itself; general exclusion sets interact with pruning and with object lifetime.",
  [I+"search/buffer/WithMemory.hpp", I+"search/buffer/WithUnionFind.hpp", I+"search/TreeTraverser.hpp", I+"datastruct/UnionFind.hpp"],
  [("WithMemory::update_impl", I+"search/buffer/WithMemory.hpp"), ("WithUnionFind::update_impl", I+"search/buffer/WithUnionFind.hpp:48")],
  "as P03 with symbolic exclusion sets and merge sequences"),
P("P06", "The dual-tree search finds the k-th shortest edge between two sample sets",
  "The dual-tree search between a query tree and a reference tree returns an edge from a query sample to a reference sample, weighted with their distance, that is the k-th shortest of all such edges. With a union-find it returns the shortest edge leaving the query component. The closest pair functions that build their own trees (dual_set_shortest_edge, dual_set_shortest_distance, sequential_dual_set_shortest_edge) give the shortest edge between the two sets, and so does dual_tree_shortest_edge_with_core_distances; simple_dual_set_shortest_edge gives the shorter of the edge it is handed and the shortest edge between samples at different places.",
  ["inputs", "configurations"], "all datasets, splits into query and reference samples, k and tree options",
  "Tests compare a handful of random sets; wrong pruning between node pairs shows only for particular layouts.",
  [I+"search/DualTreeTraverser.hpp", I+"search/TreeTraverser.hpp", I+"search/buffer/IndicesToBuffersMap.hpp", I+"search/ClosestPairOfSamples.hpp", I+"datastruct/bounds/distances/MinDistance.hpp"],
  [("dual_tree_shortest_edge", I+"search/TreeTraverser.hpp"), ("node bound cache", I+"search/buffer/IndicesToBuffersMap.hpp:150"), ("min_distance", I+"datastruct/bounds/distances/MinDistance.hpp")],
  "both trees built and traversed symbolically, compared with all pairs"),
P("P07", "Union-find keeps exactly the partition its merges describe",
  "After any sequence of merges, two elements have the same representative exactly if a chain of merges connects them. A representative is a member of its component and represents itself, asking for it (which compresses paths) never changes the partition or the answer, and merge returns the representative of the merged component. A union-find started from given labels represents the partition of those labels.",
  ["histories"], "all merge and find histories, and all valid initial labels",
  "Tests perform one fixed merge sequence; rank updates and path compression only interact in particular histories.",
  [I+"datastruct/UnionFind.hpp"], [("find, merge", I+"datastruct/UnionFind.hpp")],
  "symbolic merge histories against a relabelling model of the partition"),
P("P08", "Bounds report correct containment, centres and distances",
  "Segments, boxes (with and without centroid), balls and unbounded balls contain exactly the samples within them, report their centre and the distance from the centre to the border, and give the distance from a sample or another bound to their closest point, zero when they touch or overlap. The tight box of a dataset touches a sample on every side. Changing one end of a segment leaves the other end.",
  ["inputs"], "all bounds, samples and pairs of bounds",
  "Tests use random boxes away from the borders; degenerate, touching and nested bounds and integer rounding are not covered.",
  [I+"datastruct/bounds/AABB.hpp", I+"datastruct/bounds/AABBWithCentroid.hpp", I+"datastruct/bounds/Ball.hpp", I+"datastruct/bounds/UnboundedBall.hpp", I+"datastruct/bounds/segment/LowerBoundAndLength.hpp", I+"datastruct/bounds/segment/LowerBoundAndUpperBound.hpp", I+"datastruct/bounds/distances/MinDistance.hpp"],
  [("is_in_bounds, distance", I+"datastruct/bounds/AABBWithCentroid.hpp"), ("min_distance", I+"datastruct/bounds/distances/MinDistance.hpp")],
  "symbolic bounds against definitions written out in the harness"),
P("P09", "Distances compute their definition and behave as distances",
  "Euclidean, squared Euclidean, Manhattan (signed and unsigned), cosine similarity and Levenshtein return the value of their definition for any two vectors, and likewise the distances from the origin. They are symmetric, zero exactly for equal vectors and obey the triangle inequality where they are metrics; cosine similarity with a zero vector is infinity. The automatic distance is Euclidean for floating point, Manhattan for integers.",
  ["inputs"], "all pairs and triples of vectors",
  "The tests compare a few random vectors; unsigned wrap-around, zero vectors and non-symmetric errors need particular inputs.",
  [I+"common/math/heuristics/Distances.hpp"], [("euclidean, manhattan, unsigned_manhattan, cosine, levenshtein, auto_distance", I+"common/math/heuristics/Distances.hpp")],
  "symbolic vectors against the definitions evaluated in double precision, full-matrix recurrence for Levenshtein"),
P("P10", "A bounded search buffer holds the k best candidates offered so far",
  "After any sequence of candidate updates, a search buffer holds the min(k, accepted) candidates with the smallest distances, each with its own distance, and reports their closest, furthest, size and remaining capacity. Buffers with a visited set or a union-find accept only candidates outside it; k = 0 means unlimited. Searching a subset of samples through the buffer gives the same as offering them one by one.",
  ["histories", "inputs"], "all sequences of candidates, capacities and exclusion sets",
  "The furthest element is tracked incrementally; only particular orders of improving and tied candidates expose a stale value.",
  [I+"search/buffer/Unsorted.hpp", I+"search/buffer/StaticBuffer.hpp", I+"search/buffer/WithMemory.hpp", I+"search/buffer/WithUnionFind.hpp"],
  [("update, partial_search", I+"search/buffer/Unsorted.hpp"), ("update_static_buffers", I+"search/buffer/StaticBuffer.hpp:139")],
  "symbolic candidate sequences; the buffer is compared with the set of candidates after each update"),
P("P11", "Distance matrices, transposition, translation and reordering are exact",
  "A pairwise distance matrix, precomputed or evaluated on demand, holds in row i, column j the distance between samples i and j: symmetric with a zero diagonal. Transposing puts element (i, j) at (j, i) and twice gives the original, in the plain and in the blocked version. Translating expresses a vector relative to another. Reordering samples by a list of indices returns exactly those samples in that order.",
  ["inputs"], "all datasets, sizes and index lists",
  "The tests do not compare matrices or transposes with their definition for sizes that are not multiples of the block.",
  [I+"datastruct/matrix/PairwiseDistanceMatrix.hpp", I+"datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp", I+"common/math/linear_algebra/Transpose.hpp", I+"common/math/linear_algebra/Translation.hpp", I+"common/Utils.hpp"],
  [("operator()", I+"datastruct/matrix/PairwiseDistanceMatrix.hpp"), ("transpose, transpose_parallel_openmp", I+"common/math/linear_algebra/Transpose.hpp"), ("remap_ranges_from_indices", I+"common/Utils.hpp")],
  "symbolic values (all 32-bit patterns for transposition) against the definitions"),
P("P12", "Summary statistics return the value of their definition",
  "Means and (sample) variances per feature are those of exactly the selected samples and features, and the feature with the largest variance is the one among the selected whose variance is largest. argmin, argmax, the extreme pairs, the second largest and the n-th smallest value give an index together with the value found there, whatever the value type or ties, and leave the data as it was. Normalisation maps smallest to 1 and largest to 0 linearly, or divides by the sum.",
  ["inputs"], "all value ranges, sample selections and feature masks, signed, unsigned and floating point",
  "The tests use one random dataset of doubles; subsets with masks, negative integers, unsigned values and ties are not covered.",
  [I+"common/math/statistics/Statistics.hpp"], [("compute_mean_per_feature, compute_variance_per_feature, argmax_variance_per_feature, get_second_max_index_value_pair, find_nth_smallest_index_and_element, normalize_min_max", I+"common/math/statistics/Statistics.hpp")],
  "symbolic ranges and index subsets against the definitions evaluated in double precision"),
P("P13", "Silhouette scores follow their definition",
  "For every sample, the cohesion is the mean distance to the other samples of its cluster, the separation the smallest mean distance to the samples of another non-empty cluster, and the silhouette (b - a) / max(a, b): between -1 and 1, and 0 for a sample alone in its cluster. The average silhouette is the mean of the scores, and the cluster sizes count the samples of each label.",
  ["inputs"], "all datasets and labellings, with empty and single-sample clusters",
  "The only test prints average scores for a few datasets and asserts nothing about them.",
  [I+"common/math/heuristics/SilhouetteMethod.hpp"], [("cohesion, separation, silhouette", I+"common/math/heuristics/SilhouetteMethod.hpp")],
  "symbolic samples and labels against the formulas in double precision"),
P("P14", "Random selection is valid, unbiased by position and follows the weights",
  "Whatever the random draws, selecting n elements (from a range, an interval, a dataset or an index list) returns n distinct ones, and any element may be selected. Centroids initialised spatially lie within the extent of the samples. A weighted draw returns an index with probability proportional to its weight, so never one of weight zero. k-means++ returns samples, and none twice while other samples remain.",
  ["inputs", "schedules"], "all datasets, weights, numbers of choices and random draws",
  "Tests draw from one seed and check sizes; impossible or wrong outcomes depend on particular draws.",
  [I+"common/math/random/Sampling.hpp", I+"common/math/random/VosesAliasMethod.hpp", I+"common/math/random/Distributions.hpp", I+"kmeans/KMeansPlusPlus.hpp"],
  [("select_n_elements, init_spatial_uniform", I+"common/math/random/Sampling.hpp"), ("init, sample", I+"common/math/random/VosesAliasMethod.hpp"), ("make_centroids", I+"kmeans/KMeansPlusPlus.hpp")],
  "random draws are solver variables; 'any element may be selected' is decided by satisfiability over all paths"),
P("P15", "Boruvka's algorithm returns a minimum spanning tree of the samples",
  "For every dataset indexed by a KD-tree, with duplicates and ties as well, Boruvka's algorithm (k_nearest_neighbors of 1) returns exactly n - 1 edges between samples without a cycle, each weighted with the distance between its ends, and no two samples are closer than the longest edge on the path between them (so the total length is minimal). Sorting the edges, copying or moving, keeps them and orders them by weight.",
  ["inputs"], "all datasets and KD-tree shapes",
  "The tests write trees of fixed datasets to files and do not compare them with a minimum.",
  [I+"datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp", I+"datastruct/graph/spanning_tree/MinimumSpanningTree.hpp", I+"datastruct/UnionFind.hpp"],
  [("make_tree", I+"datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"), ("sort, sort_copy", I+"datastruct/graph/spanning_tree/MinimumSpanningTree.hpp")],
  "symbolic samples; the cycle property over all pairs is decided against all pairwise distances"),
P("P16", "Core distances and the mutual reachability spanning tree are exact",
  "The core distance of a sample is the distance to its k-th nearest sample, itself included (the furthest when there are fewer than k). With k_nearest_neighbors k > 1 Boruvka's algorithm returns a spanning tree whose edges are weighted with the mutual reachability distance of their ends, the largest of their distance and their two core distances, and which is minimal in that distance.",
  ["inputs"], "all datasets and k, also k larger than the dataset",
  "No test compares core distances or the tree weights with a reference; a tree that is not minimal changes the clusters only slightly.",
  [I+"datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp", I+"datastruct/graph/spanning_tree/MinimumSpanningTree.hpp"],
  [("make_tree, make_core_distances", I+"datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp")],
  "symbolic samples; core distances by rank counting, minimality by the cycle property"),
P("P17", "The single linkage tree and its cut follow the spanning tree",
  "The single linkage tree of a spanning tree has one leaf per sample, and two samples first meet in a node whose level is the longest edge on the path between them; sizes, parents and representatives agree with the leaves, and levels never decrease upwards. Cutting it gives one label per sample: noise (0) exactly for the samples whose cluster at the cut has fewer than min_cluster_size samples, and for the others the same label exactly when they meet below the cut level. Without a cut there is one cluster.",
  ["inputs"], "all trees, weights (ties as well), cut levels and minimum sizes",
  "The tests only write the labels of fixed datasets to files.",
  [I+"datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp", I+"datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp", I+"datastruct/UnionFind.hpp"],
  [("build, extract_flat_clusters", I+"datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp")],
  "symbolic tree shapes, weights and cut levels against the minimax path distance"),
P("P18", "HDBSCAN selects the most stable clusters of the hierarchy",
  "The condensed tree splits a cluster exactly where both parts have at least min_cluster_size samples, and a cluster's stability is the sum over its samples of 1/(level at which the sample leaves it) - 1/(level at which it was born). The labels are those of the shallowest selected clusters, where a cluster is selected when the best selection below it is not more stable (or the leaf clusters, on request), and the root only when allowed or a leaf. Labels count from 1 without a gap, 0 for samples in no selected cluster. HDBSCAN is this on the mutual reachability spanning tree: clusters have the minimum size, and no outside sample joins one before its own samples do.",
  ["inputs"], "all hierarchies, minimum sizes and options",
  "The tests only write the labels of fixed datasets to files.",
  [I+"datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp", I+"datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp", I+"hdbscan/HDBSCAN.hpp"],
  [("preorder_traversal_build, select_subtree, extract_flat_clusters", I+"datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp"), ("predict", I+"hdbscan/HDBSCAN.hpp")],
  "symbolic weights against the definition evaluated on the single linkage tree; end to end against brute-force mutual reachability"),
P("P19", "DBSCAN labels are the density-connected components",
  "A sample is dense when more than min_samples indexed samples (itself included) lie strictly within the radius. Every dense sample has a label other than 0, two dense samples have the same one exactly when they are connected through dense samples within the radius of each other, a sample that is not dense but within the radius of a dense one has the label of such a one, and every other sample, also one that is not indexed, is noise (0). Labels count from 1 without a gap. This holds whatever the order of the samples and the shape of the tree.",
  ["inputs"], "all datasets, sample orders, radii, densities and index subsets",
  "The tests only write the labels of fixed datasets to files.",
  [I+"dbscan/DBSCAN.hpp"], [("predict, predict_inner", I+"dbscan/DBSCAN.hpp")],
  "symbolic samples and radius against the transitive closure of the density relation"),
P("P20", "KMeans predicts the nearest centroid and its distance",
  "For every sample, predict returns the index of a centroid such that no other is closer, and forward the distance to it (euclidean for floating point, Manhattan for integer data), for the centroids given to the constructor or found by fit, and for signed, unsigned and floating point data.",
  ["inputs"], "all samples and centroids, ties as well",
  "The tests write the predictions of one float dataset to files.",
  [I+"kmeans/KMeans.hpp", I+"kmeans/KMeansUtils.hpp"], [("predict, forward", I+"kmeans/KMeans.hpp"), ("samples_to_nearest_centroid_indices, samples_to_nearest_centroid_distances", I+"kmeans/KMeansUtils.hpp")],
  "symbolic samples and centroids against all distances"),
P("P21", "KMeans fitting makes exact k-means steps and returns the best attempt",
  "Every step of Lloyd's and of Hamerly's algorithm moves each centroid to the mean of the samples nearest to it (ties may go to any nearest centroid) and leaves a centroid without samples where it is, however many steps came before; so the sum of squared distances never grows. total_deviation is the sum of the distances of all samples to the nearest of the current centroids. fit makes max_iter such steps from the given centroids, or with early stopping ends as soon as patience + 1 steps in a row moved no coordinate by more than the tolerance; with several attempts it returns the one with the smallest total distance, and predict then uses the centroids returned.",
  ["inputs", "histories"], "all datasets, initial centroids and numbers of steps",
  "The tests write the centroids of one dataset to files; bounds that skip samples wrongly only show after particular movements.",
  [I+"kmeans/Lloyd.hpp", I+"kmeans/Hamerly.hpp", I+"kmeans/KMeans.hpp", I+"kmeans/KMeansUtils.hpp"],
  [("step", I+"kmeans/Lloyd.hpp"), ("swap_bounds, update_bounds", I+"kmeans/Hamerly.hpp"), ("fit", I+"kmeans/KMeans.hpp")],
  "symbolic samples and centroids; each step is compared with the definition for every assignment that the ties allow; fit's own control is checked over an algorithm with arbitrary steps and losses"),
P("P22", "KMedoids predicts the nearest medoid and its distance",
  "For every sample, predict returns the position of a medoid such that no other is closer, and forward the distance to it (euclidean for floating point, Manhattan for integer data), alike from the samples and from a precomputed pairwise distance matrix. The first, second and third nearest medoids of a sample are different medoids at the first, second and third smallest distance, medoids at equal distances included; the first medoid proposed is the sample with the smallest total deviation.",
  ["inputs"], "all samples and medoids, ties as well",
  "The tests write the predictions of one float dataset to files.",
  [I+"kmedoids/KMedoids.hpp", I+"kmedoids/PAMUtils.hpp"], [("predict, forward", I+"kmedoids/KMedoids.hpp"), ("samples_to_nth_nearest_medoid_indices, samples_to_nth_nearest_medoid_distances, first_medoid_td_index_pair, medoids_to_centroids", I+"kmedoids/PAMUtils.hpp")],
  "symbolic samples and medoids against all distances, sorted"),
P("P23", "KMedoids (FasterPAM) ends where no swap lowers the total deviation",
  "For two medoids or more, every step of FasterPAM leaves as many different samples as medoids, never raises the total deviation (the sum of the distances to the nearest medoid), and keeps the medoids unchanged only when exchanging no medoid for no other sample would lower it; total_deviation is the deviation of the current medoids, however many steps came before. fit makes max_iter steps, or with early stopping ends as soon as patience + 1 steps in a row changed nothing, returns the medoids of the attempt with the smallest loss, and gives the same guarantees from samples, with or without a precomputed matrix, and from a given matrix.",
  ["inputs", "histories"], "all datasets whose sums of distances are exact, initial medoids and numbers of steps",
  "The tests write the medoids of one dataset to files; a stale second nearest medoid only shows after particular swaps.",
  [I+"kmedoids/FasterPAM.hpp", I+"kmedoids/KMedoids.hpp", I+"kmedoids/PAMUtils.hpp"],
  [("step, find_best_swap, swap_buffers", I+"kmedoids/FasterPAM.hpp"), ("fit", I+"kmedoids/KMedoids.hpp"), ("compute_losses_with_closest_medoid_removal", I+"kmedoids/PAMUtils.hpp")],
  "symbolic samples and medoids; after each step the deviation of the medoids and of all their swaps is recomputed from the definition; fit's own control is checked over an algorithm with arbitrary steps and losses"),
P("P24", "FasterMSC improves the medoid silhouette step by step",
  "For two medoids or more and floating point data, every step of FasterMSC leaves as many different samples as medoids and never raises its loss, the sum over the samples of the distance to the nearest medoid over the distance to the second nearest one; total_deviation is that loss for the current medoids, before the first and after any number of steps; and where ratios of distances are exact, medoids stay unchanged only when exchanging no medoid for no other sample would lower the loss.",
  ["inputs", "histories"], "all datasets, initial medoids and numbers of steps",
  "The tests write the medoids of one dataset to files.",
  [I+"kmedoids/FasterMSC.hpp", I+"kmedoids/PAMUtils.hpp"],
  [("step, find_best_swap, find_best_swap_k2, swap_buffers, swap_buffers_k2", I+"kmedoids/FasterMSC.hpp"), ("compute_losses_with_silhouette_medoid_removal", I+"kmedoids/PAMUtils.hpp")],
  "symbolic samples and medoids; after each step the loss of the medoids and of all their swaps is recomputed from the definition"),
P("P25", "Serialized trees hold exactly what the tree holds",
  "KDTree::serialize and SingleLinkageClusterTree::serialize write a JSON object from which the tree can be rebuilt exactly: for a k-d tree the number of samples and features, the bucket size and depth limit, the bounding box, and per node the cut feature and the samples stored in it, in order, with the children nested; for a linkage tree the representative, level and size of each node with the children nested. Every number reads back as the value in memory, and a copied or moved tree writes the same.",
  ["inputs"], "all trees, values and element types",
  "The tests write files of fixed datasets that nothing reads back.",
  [I+"datastruct/tree/kdtree/KDTree.hpp", I+"datastruct/tree/kdtree/KDNodeView.hpp", I+"datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"],
  [("serialize", I+"datastruct/tree/kdtree/KDTree.hpp"), ("serialize", I+"datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp")],
  "rapidjson is executed on the tree of symbolic values; the text written to a stand-in file is parsed and compared node by node"),
P("P26", "Container and scalar helpers compute what they say",
  "are_containers_equal is true exactly when both sides are as long and no pair of elements differs (for floating point: by more than the tolerance, the machine epsilon by default); count_matches and count_matches_for_value count the positions with equal elements (equal to the value); is_element_in / is_element_not_in and their _first variants decide membership; permutation_from_indices gives element indices[i] at i; to_type converts each element in order; division gives the quotient, or the given default for a zero denominator; the integer centre rounds down; get_n_samples gives the number of rows; features vectors and masks hold the values they were made of, a default mask all features in order.",
  ["inputs"], "all ranges and values",
  "The tests use these helpers as oracles and never check them over their input space.",
  [I+"common/Utils.hpp", I+"datastruct/vector/FeaturesVector.hpp", I+"datastruct/vector/FeaturesMask.hpp"],
  [("are_containers_equal", I+"common/Utils.hpp"), ("FeaturesMask", I+"datastruct/vector/FeaturesMask.hpp")],
  "the helpers are executed on symbolic ranges and compared with branch-free definitions"),
P("P27", "Kd-tree cuts follow the axis selection policy",
  "A kd-tree cuts each node along the feature its axis selection policy names, and the policy is asked with that node's samples, depth and box. The cyclic policy takes the features (of the mask, in its order, if one is given) in turn with the depth; the spread policy the longest side of the node's box among the allowed features; the variance policy the allowed feature that varies most over a random draw of the node's samples (at least three of them, the sampling rate's share of larger nodes), for two samples the feature along which they are furthest apart, for one sample any allowed feature. No policy ever names a feature outside a given mask or changes the samples or their order.",
  ["inputs", "configurations"], "all boxes, samples, masks, depths and draws",
  "The tests only check that trees of random data can be searched; searches stay right whatever axis is cut.",
  [I+"datastruct/tree/kdtree/KDTree.hpp", I+"datastruct/tree/kdtree/policy/AxisSelectionPolicy.hpp"],
  [("AxisSelectionPolicy", I+"datastruct/tree/kdtree/policy/AxisSelectionPolicy.hpp")],
  "the policies are executed on symbolic boxes and samples with symbolic random draws, trees are walked and every cut compared with the policy's definition"),
P("P28", "Several threads race on nothing and find what one thread finds",
  "In the multithreaded build (OpenMP, THREADS_ENABLED) transposition, the pairwise distance matrix and the attempts of KMeans and KMedoids give, for any number of threads and any order in which they run, exactly the result one thread gives, and no thread touches memory another one writes. In any build several threads may at the same time search one index through its Searcher, predict with one fitted model, look up one distance matrix, and fit models, build trees and draw random numbers of their own over the same samples: none races with another, and each finds what it would find alone. (UnionFind::find compresses paths and is not meant to be shared.)",
  ["schedules", "inputs"], "all numbers of threads, orders and samples",
  "The tests are built without threads; a race would show in them only by luck.",
  [I+"common/math/linear_algebra/Transpose.hpp", I+"datastruct/matrix/PairwiseDistanceMatrix.hpp", I+"kmeans/KMeans.hpp", I+"kmedoids/KMedoids.hpp", I+"search/Search.hpp", I+"common/math/random/Distributions.hpp"],
  [("#pragma omp parallel for", I+"kmeans/KMeans.hpp"), ("#pragma omp parallel for", I+"kmedoids/KMedoids.hpp"), ("thread_local_mersenne_engine", I+"common/math/random/Distributions.hpp")],
  "the code compiled with OpenMP is executed thread after thread for a symbolic number of threads, order and samples; every access is checked against those of the other threads and the results against those of one thread"),
P("P29", "Requests documented as invalid are refused with an exception",
  "Asking for the n-th nearest medoids throws when n is 0, exceeds the number of medoids or is above 3, asking for nearest, second or third nearest medoids throws when there are no medoids (so do predict and forward of a KMedoids that has none), permuting or reordering with a number of indices that differs from the number of elements or rows throws, and so does a Vose's alias distribution without weights. No such request is answered, and no valid one (0 elements or 1 medoid included) is refused.",
  ["inputs"], "all sizes and ranks within the bounds",
  "No test makes an invalid request.",
  [I+"kmedoids/PAMUtils.hpp", I+"kmedoids/KMedoids.hpp", I+"common/Utils.hpp", I+"common/math/random/VosesAliasMethod.hpp"],
  [("samples_to_nth_nearest_medoid_indices, samples_to_nth_nearest_medoid_distances", I+"kmedoids/PAMUtils.hpp"), ("permutation_from_indices, remap_ranges_from_indices", I+"common/Utils.hpp"), ("VosesAliasMethod", I+"common/math/random/VosesAliasMethod.hpp")],
  "symbolic sizes and ranks; an exception is accepted exactly on the invalid ones and an answer only on the valid ones"),
]
