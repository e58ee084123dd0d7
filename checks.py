COMMON_ASSUMPTIONS = [
    "headers compiled with -DNDEBUG -DTHREADS_ENABLED=false -DVERBOSE=false (the configuration of the repository's tests)",
    "console output and clocks do nothing; allocation never fails; an uncaught exception ends a path and is a violation unless the entry allows it",
    "IEEE-754 arithmetic without contraction, as compiled by clang 18 -O2 to LLVM IR",
    "input values are drawn from the finite tables in the harness (every combination is covered symbolically); values outside the tables and larger sizes are outside the bounds",
]
# entry names end in n<samples>d<features>; the tables of values are in the harness files
CHECKS = {
    "P01": {
        "harnesses": [{"file": "p01_sorting",
                       "quick": ["partition_i32_n4", "partition_f32_n4", "quickselect_i32_n4", "quickselect_f32_n4", "quicksort_i32_n4", "quicksort_f32_n4", "median3_i32", "partition_i32_n5",
                                 "partition_tiny_n4", "quickselect_tiny_n4", "quicksort_tiny_n4", "partition_f64_n4", "quickselect_f64_n4", "quicksort_f64_n4",
                                 "quicksort_mixed_n10", "quickselect_mixed_n10", "partition_mixed_n10", "quicksort_mixed_n20", "quickselect_mixed_n20", "quicksort_mixed_n40", "quickselect_mixed_n40", "short_ranges", "partition_mixed_n40", "quicksort_mixed_n60", "quickselect_mixed_n60", "median3_n6", "median3_n3d2", "median3_n4d3"],
                       "thorough": ["quickselect_i32_n5", "quicksort_i32_n5"]}],
        "bounds": ["ranges of 2 to 5 samples with every value free (6 int, 5 float, 6 double values incl. extremes and values closer than epsilon), 3 initial index orders, every pivot / k; ranges of 10, 20 and 40 samples with 3, 2 and 1 free values; up to 3 features", "60 samples and up to 5 features with one free value"],
    },
    "P02": {
        "harnesses": [{"file": "p02_kdtree",
                       "quick": ["cycle_b1_n4d2", "cycle_b2_n5d1", "cycle_b1_depth1_n5d1", "spread_b1_n4d2", "variance_b1_n3d2", "variance_b2_n4d2", "cycle_mask_n4d2", "int_b1_n5d1", "tiny_n4d2", "tiny_n5d1",
                                 "mixed_cycle_n12d2", "mixed_spread_n12d3", "mixed_cycle_n40d2", "mixed_depth3_n40d2", "mixed_mask_n12d3", "spread_mask_n12d3", "wide_cycle_n14d5", "wide_spread_n20d9", "wide_cycle_n70d3", "wide_bucket_n70d2"],
                       "thorough": [("variance_b1_n4d2", {"fan": 16, "budget": 900})]}],
        "bounds": ["4-5 samples with every coordinate free (3-4 values per coordinate), 12 and 40 samples with 2-3 free samples, 1-3 features, bucket sizes 1-3, depth limits 1, 3, 8 and the default, cyclic / spread / variance axis selection, feature masks", "14-70 samples in 2-9 dimensions of which one coordinate, at any position of one sample, is free; buckets up to 20"],
    },
    "P03": {
        "harnesses": [{"file": "p03_knn",
                       "quick": ["knn_n4d1", "knn_n3d2", "knn_bucket2_n5d1", "knn_k_above_n", "knn_depth1_n5d1", "knn_mixed_cycle", "knn_mixed_spread", "knn_double", "knn_tiny_n4d1", "knn_int_n4d1", "knn_batch_n4d1",
                                 "knn_n5d1", "knn_cloud_n20d2", "knn_wide_n14d5", "knn_wide_n18d9", "knn_u32_n4d1", "knn_u32_n3d2", "knn_u64_n4d1", "knn_i32_n3d2", "knn_u32_cloud_n20d2", "knn_u64_cloud_n20d2", "knn_i32_cloud_n20d2"],
                       "thorough": ["knn_n4d2", "knn_cloud_n48d2", "knn_variance_n4d2", "knn_cloud_subset_n20d3"]}],
        "bounds": ["trees over 3-5 fully free samples, 10, 20 and 48 samples with 1 free sample, free query, k from 1 to n+1, 1-3 features, buckets of 1-4, single queries and a batch of three", "14-18 samples in 5 and 9 dimensions, k up to 13, one free coordinate of the query, at any position, and of one sample", "32- and 64-bit unsigned and 32-bit signed samples: 3-4 fully free, or 20 fixed with a free query"],
    },
    "P04": {
        "harnesses": [{"file": "p04_range",
                       "quick": ["ball_n4d1", "view_n4d1", "view_n3d2", "view_n5d1", "box_capped_n4d1", "view_cloud_n20d2", "ball_cloud_n40d2", "box_cloud_n20d2", "box_cloud_n40d2", "ball_wide_n14d5", "view_wide_n18d9", "box_wide_n14d5", "box_wide_n18d9", "box_f64_n8d2", "box_fixed_n8d2", "box_some_n12d2", "ball_f64_n8d2", "ball_fixed_n8d2", "ball_fixed_f64_n12d2", "view_some_n12d2", "view_f64_n12d2", "ball_i32_n4d1", "view_u32_n4d1", "box_i32_n4d1", "ball_u32_cloud_n20d2", "view_i32_cloud_n20d2", "box_i32_cloud_n20d2", "box_u32_cloud_n20d2"],
                       "thorough": ["view_n4d2", "box_n4d1", "box_n3d2"]}],
        "bounds": ["trees over 3-5 fully free samples, 20 and 40 samples with 0-1 free, free centre/box on the same grid (so samples fall exactly on the border), 5 radii, result limits none, 1, 2", "14-18 samples in 5 and 9 dimensions with one free coordinate of the centre or side of the box, at any position", "8-12 samples of which one is free, in double precision, with bounds of a number of features fixed at compile time, and in trees over two thirds of the samples", "signed and unsigned samples: 4 fully free, or 20 fixed with a free ball or box"],
    },
    "P05": {
        "harnesses": [{"file": "p05_filtered",
                       "quick": ["memory_ref_n4d1", "memory_owned_n3d1", "union_find_n3d2", "memory_cloud_n20d2", "memory_owned_cloud_n20d2", "union_find_cloud_n20d2", "memory_wide_n18d5", "union_find_wide_n18d5", "memory_u32_n4d1", "memory_i32_cloud_n20d2", "memory_u32_cloud_n20d2", "union_find_i32_n4d1", "union_find_u32_cloud_n20d2"],
                       "thorough": ["memory_ref_n3d2", "union_find_n4d1"]}],
        "bounds": ["3-4 fully free samples with every visited subset / every 1-2 merges, 20 samples with one free sample, k up to 4", "18 samples in 5 dimensions with one free coordinate of the query, at any position, k up to 9", "signed and unsigned samples: 4 fully free, or 20 fixed with a free query"],
    },
    "P06": {
        "harnesses": [{"file": "p06_dual_tree",
                       "quick": ["disjoint_22_d1", "disjoint_23_d1", "disjoint_22_d2", "disjoint_33_d1", "disjoint_22_d1_k2", "disjoint_33_d1_k2", "disjoint_33_d1_k3", "leaving_n4d1", "leaving_n5d1", "leaving_n6d1", "leaving_n4d2",
                                 "disjoint_cloud_88_d2", "disjoint_cloud_88_d2_k3", "leaving_cloud_n16d2", "leaving_cloud_n24d2",
                                 "disjoint_14_d1_k3", "disjoint_15_d1_k3", "disjoint_13_d2_k2", "disjoint_41_d1_k3", "disjoint_24_d1_k3", "disjoint_24_d1_k4", "disjoint_52_d1_k2", "disjoint_cloud_1_9_d2_k3", "disjoint_cloud_3_9_d2_k4",
                                 "pair_11_d2", "pair_12_d2", "pair_22_d1", "pair_32_d1", "pair_cloud_33_d2", "pair_cloud_core_88_d2", "disjoint_wide_89_d5", "disjoint_wide_7_13_d9", "disjoint_i32_22_d2", "disjoint_i32_33_d1_k3", "disjoint_u32_24_d1_k2", "disjoint_u32_cloud_88_d2_k3", "disjoint_i32_cloud_88_d2", "leaving_u32_n5d1", "pair_i32_22_d1", "pair_u32_cloud_33_d2"],
                       "thorough": ["disjoint_44_d1", "disjoint_32_d2", "pair_13_d2", "leaving_i32_n4d2"]}],
        "bounds": ["two sets of 1-5 fully free samples, k up to 4; 16 and 24 samples with one free sample; 1-2 features, buckets of 1-3", "8 and 9 (7 and 13) samples in 5 (9) dimensions with one free coordinate, at any position, k up to 13", "signed and unsigned samples: 4-6 fully free, 6 and 16 with one free"],
        "assumptions": ["at least one candidate edge exists (otherwise there is no k-th shortest edge)"],
    },
    "P07": {
        "harnesses": [{"file": "p07_union_find",
                       "quick": [("fresh_n4m3", {"fan": 16}), "fresh_n5m3", "fresh_n4m4", "fresh_n6m3", "labelled_n4m2", "labelled_n5m1", "deep_n20m1"],
                       "thorough": ["deep_n20m2"]}],
        "bounds": ["every history of 3-4 merges over 4-6 elements, every valid initial parent array of 4-5 elements followed by 1-2 merges, 20 elements in chains with 1-2 free merges"],
    },
    "P08": {
        "harnesses": [{"file": "p08_bounds",
                       "quick": ["segment_f32", "segment_length_f32", "segment_i32", "segment_length_i32", "segments_f32", "segments_i32", "aabb_centroid_d1", "aabb_centroid_d2", "aabb_centroid_d3", "aabb_d2",
                                 "boxes_centroid_d2", "boxes_d2", "boxes_d1", "balls_d1", "balls_d2", "tight_n3d2", "tight_n4d1", "aabb_centroid_d9", "aabb_d6", "boxes_centroid_d9", "boxes_d6", "balls_d9", "tight_n20d3", "tight_n9d6", "aabb_centroid_fixed_d2", "boxes_centroid_fixed_d2", "balls_fixed_d2", "box_accessors_f32", "box_accessors_f64_fixed", "box_accessors_length", "ball_accessors_f32", "ball_accessors_f64", "segment_u32", "segment_length_u32", "segments_u32", "balls_u32_d1", "balls_u32_d2", "balls_i32_d1", "balls_i32_d2", "ball_accessors_i32", "ball_accessors_u32"],
                       "thorough": ["aabb_centroid_wide_d2"]}],
        "bounds": ["segments over 5 float or 7 int values, boxes and balls in 1-3 dimensions with 2-5 values per coordinate, bounding boxes of 3-4 free samples; 6-9 dimensions of which one, at any position, is free; bounding boxes of 9-20 samples of which one is free", "bounds of 2 features fixed at compile time; every constructor and accessor", "segments and balls over 3-7 signed and unsigned values"],
    },
    "P09": {
        "harnesses": [{"file": "p09_distances",
                       "quick": ["euclidean_f32_d1", "euclidean_f32_d2", "euclidean_f32_d3", "euclidean_f32_d5", "euclidean_f64_d2", "triangle_f32_d1", "triangle_f32_d2", "triangle_i32_d2", "manhattan_f32_d2", "manhattan_i32_d2", "manhattan_i32_d5",
                                 "unsigned_d1", "unsigned_d2", "unsigned_d5", "cosine_d1", "cosine_d2", "cosine_d3", "levenshtein_33", "levenshtein_42", "levenshtein_23", "levenshtein_03", "levenshtein_44", "euclidean_f32_d9", "euclidean_f64_d19", "manhattan_i32_d11", "manhattan_f32_d18", "unsigned_d9", "cosine_d10", "levenshtein_12_9", "levenshtein_20_17"],
                       "thorough": []}],
        "bounds": ["vectors of 1-5 features with 2-4 values per feature, vectors of 9-19 features of which one at any position is free; strings of up to 4 symbols over alphabets of 2-3 symbols, strings of 9-20 symbols of which 2-3 are free"],
    },
    "P10": {
        "harnesses": [{"file": "p10_buffers",
                       "quick": ["unsorted_m4", "unsorted_m5", "unsorted_m6", "unsorted_m12_k6", "unsorted_m12_k9", "unsorted_m24_k17", "memory_m4", "union_find_m4", "partial_n4d1", "partial_n3d2"],
                       "thorough": []}],
        "bounds": ["every sequence of 4-6 candidates over 4 distances, capacities 0 (unlimited) to 4, sequences of 12 and 24 candidates with the last 4 free and capacities 6 to 17, every visited set and merge; partial search of 3-4 free samples"],
    },
    "P11": {
        "harnesses": [{"file": "p11_matrices",
                       "quick": ["matrix_f32_n3d2", "matrix_f32_n5d1", "matrix_i32_n4d2", "matrix_f32_n1d1", "matrix_cloud_n12d2", "transpose_n3d2", "transpose_n2d5", "transpose_n1d3", "transpose_n66d3", "transpose_n2d66",
                                 "translate_d3", "reorder_n3d2", "reorder_n4d1", "matrix_wide_f32_n10d9", "matrix_wide_i32_n40d2", "transpose_n34d33", "transpose_n67d66", "transpose_n65d130", "translate_d9"],
                       "thorough": []}],
        "bounds": ["matrices over 1-5 fully free samples and 12 samples with some free, transposition of up to 66 rows or columns with every 32-bit value free, every permutation of 3-4 samples", "10-40 samples in up to 9 dimensions with one free value at 16 positions; 34 x 33, 67 x 66 and 65 x 130 transposition with every value free"],
    },
    "P12": {
        "harnesses": [{"file": "p12_statistics",
                       "quick": ["order_f32_n4", "order_f32_n5", "order_i32_n4", "order_u32_n4", "order_u32_n1", "order_u32_n2", "order_f32_n2", "order_mixed_n20", "many_u8_n300",
                                 "moments_f32_n4d1", "moments_f32_n3d2", "moments_f32_n3d3", "moments_f64_n3d2", "moments_i32_n3d2", "moments_i32_n5d1", "moments_mixed_n10d3",
                                 "normalise_f64_n3", "normalise_f32_n4", "normalise_i32_n4", "order_f32_n40", "order_i32_n33", "moments_wide_f32_n20d3", "moments_wide_f64_n12d5", "moments_wide_i32_n16d4", "normalise_f32_n20", "normalise_i32_n20", "moments_u32_n3d2", "moments_u32_n5d1", "normalise_u32_n4"],
                       "thorough": []}],
        "bounds": ["ranges of 1-5 free values and 20 with 3 free; 3-5 samples of 1-3 features fully free and 10 samples with 2 free, every subset of indices that keeps two, one feature mask per width; variances of floating-point data", "ranges of 20-40 values and 12-20 samples in 3-5 dimensions of which one value, at any position, is free"],
    },
    "P13": {
        "harnesses": [{"file": "p13_silhouette",
                       "quick": ["scores_n3d1", "scores_n4d1", ("scores_n5d1", {"fan": 16}), "scores_n3d2", "scores_mixed_n12d2", "scores_mixed_n20d2", "crowded_n400", "scores_wide_n10d5", "scores_wide_n40d1", "scores_i32_n4d1", "scores_i32_n3d2", "scores_u32_n4d1", "scores_i32_mixed_n12d2"],
                       "thorough": [("scores_wide_n4d1", {"fan": 16, "budget": 800})]}],
        "bounds": ["3-5 fully free samples with every labelling into 2-4 clusters (empty and single-sample clusters included), 12 and 20 samples with one free sample and label", "10 samples in 5 dimensions and 40 samples with one free value (16 positions) and label (4 positions), up to 6 clusters", "cohesion and separation of signed and unsigned samples: 3-4 fully free, 12 with one free"],
        "assumptions": ["at least two clusters have samples (the separation is not defined otherwise)"],
    },
    "P14": {
        "harnesses": [{"file": "p14_sampling",
                       "quick": ["subset_n3", "subset_n4", "subset_n5", "samples_f32_n3d2", "samples_i32_n4d1", "samples_from_indices_n4d2", "spatial_f32_n2d2", "spatial_f32_n3d1", "spatial_i32_n2d2",
                                 "weighted_f32_n3", "weighted_f32_n4", "weighted_f32_n5", "weighted_i32_n3", "weighted_f64_n3", "proportional_f32_n4", "proportional_f32_n3", "proportional_i32_n4", "proportional_f64_n5",
                                 "plus_plus_n3d1_k2", "plus_plus_n4d1_k3", "plus_plus_n3d1_k3", "plus_plus_n3d2_k2", "previous_n3d1_k3", "subset_n10", "weighted_f32_n12", "weighted_f64_n20", "proportional_f32_n8", "proportional_f64_n16", "plus_plus_n8d2_k3", "plus_plus_n12d1_k2", "plus_plus_n6d5_k2", "previous_n8d2_k3", "plus_plus_i32_n3d1_k2", "plus_plus_u32_n3d1_k2", "plus_plus_i32_n8d2_k3", "previous_u32_n3d1_k3", "weighted_u32_n3", "proportional_u32_n4", "spatial_u32_n2d2", "samples_u32_n4d1"],
                       "thorough": []}],
        "bounds": ["2-5 elements, samples or weights, every number of choices, every integer draw, real draws from 8 representative fractions; exact distribution over all integer weights of 3-5 elements with totals 4-8 on a grid of draws", "one or two of 10 elements; 8-20 weights of which 1-3 are free; k-means++ on 6-12 samples in 1-5 dimensions of which one is free", "int32 and uint32 samples and weights: 3-4 free ones from tables of 3"],
        "assumptions": ["the random facilities of the standard library are replaced by solver variables over their documented range"],
    },
    "P15": {
        "harnesses": [{"file": "p15_mst",
                       "quick": ["tree_n1d1", "tree_n2d1", "tree_n3d1", "tree_n4d1", "tree_n5d1", "tree_n3d2", "tree_n4d2", "tree_cloud_n10d2", "tree_cloud_n16d2", "tree_n5d1_wide", "tree_n6d1", "tree_cloud_n12d2", "tree_cloud_n30d2", "tree_wide_n12d5", "tree_wide_n20d9", "tree_i32_n3d1", "tree_i32_n4d2", "tree_u32_n4d1", "tree_i32_cloud_n12d2", "tree_u32_cloud_n16d2"],
                       "thorough": [("tree_n4d2_wide", {"fan": 16, "budget": 900})]}],
        "bounds": ["1-6 samples with every coordinate on grids of 2-4 values (1 or 2 features), or 10-30 samples of a fixed cloud of which 1 or 2 are any of 9 positions; bucket sizes 1-3", "12 (20) samples in 5 (9) dimensions of which one coordinate, at any position of one sample, is free", "signed and unsigned samples: 3-4 fully free, 12 and 16 with one free"],
        "assumptions": ["threads off (THREADS_ENABLED=false)"],
    },
    "P16": {
        "harnesses": [{"file": "p15_mst",
                       "quick": ["core_n3d1", "core_n4d1", "core_n3d2", "core_cloud_n12d2", "reach_n3d1_k2", "reach_n4d1_k2", "reach_n4d1_k3", "reach_n4d2_k2", "reach_n3d1_k5", "reach_cloud_n10d2_k3",
                                 "minimal_n4d1_k2", "minimal_n4d1_k3", "minimal_cloud_n8d2_k4", "minimal_cloud_n12d2_k5", "minimal_wide_n12d5_k3", "minimal_wide_n20d3_k7", "core_wide_n14d5", "core_wide_n24d2", "minimal_i32_n4d1_k2", "minimal_i32_cloud_n10d2_k3", "minimal_u32_cloud_n12d2_k4", "core_i32_n4d1", "core_u32_cloud_n12d2"],
                       "thorough": [("minimal_cloud2_n12d2_k5", {"fan": 16, "budget": 900}), ("minimal_n6d1_k3", {"fan": 16, "budget": 900})]}],
        "bounds": ["3-4 (thorough 6) samples with every coordinate on grids of 2-4 values, or 8-12 samples of a fixed cloud of which 1 (2) are any of 9 positions; k of 2-5, also more than the samples", "12-24 samples in 2-5 dimensions of which one coordinate, at any position of one sample, is free, k up to 9", "signed and unsigned samples: 4 fully free, 10 and 12 with one free"],
        "assumptions": ["threads off (THREADS_ENABLED=false)"],
    },
    "P17": {
        "harnesses": [{"file": "p17_linkage",
                       "quick": ["dendrogram_n1", "dendrogram_n2", "dendrogram_n3", "dendrogram_n4", "dendrogram_n5", "dendrogram_path_n6", "dendrogram_mixed_n40", "dendrogram_path_n7", "dendrogram_n6",
                                 "cut_n1", "cut_n2", "cut_n3", "cut_n4", "cut_path_n5", "cut_path_n6", "cut_n5", "cut_mixed_n20", "dendrogram_i32_n4", "dendrogram_i32_mixed_n20", "cut_i32_n3", "cut_i32_path_n5"],
                       "thorough": ["dendrogram_mixed_n20", "cut_path_n7"]}],
        "bounds": ["every tree over 1-6 samples with weights from 3-5 values, paths of up to 7, and trees of 20-40 samples of which 2 edges are arbitrary; 7 cut levels from 0 to infinity and minimum sizes 1-3", "integer weights: trees over 3-5 samples, and 20 of which 2 edges are arbitrary"],
        "assumptions": [],
    },
    "P18": {
        "harnesses": [{"file": "p18_condensed",
                       "quick": ["condensed_n1", "condensed_n2", "condensed_n3", "condensed_n4", "condensed_path_n5", "condensed_path_n6", "condensed_zero_n5", "condensed_defaults_n5", "condensed_mixed_n16", "condensed_mixed_n30", "condensed_n5",
                                 "hdbscan_n4d1", "hdbscan_n4d1_k2", "hdbscan_n5d1_k2", "hdbscan_cloud_n8d2_k2", "hdbscan_far_n9d2", "hdbscan_far_n8d1", "hdbscan_wide_n10d5", "hdbscan_wide_n14d3_k3"],
                       "thorough": ["condensed_path_n7", "condensed_path_n8", ("condensed_mixed_tree_n16", {"fan": 8}), ("hdbscan_cloud_n10d2_k2", {"fan": 8, "budget": 900}), ("hdbscan_cloud_n12d2_k3", {"fan": 16, "budget": 900})]}],
        "bounds": ["every tree over 1-5 samples and every path of 5-6 (thorough 8) with weights 0 or powers of two, trees of 16-30 samples with 2-3 arbitrary weights; minimum sizes 1-5 and both options; end to end: 4-5 samples on a grid, 8-9 (12) samples with 1-2 arbitrary", "10 (14) samples in 5 (3) dimensions of which one coordinate, at any position of one sample, is free"],
        "assumptions": ["levels are 0 or powers of two so that the stabilities are exact and ties are decided", "threads off (THREADS_ENABLED=false)"],
    },
    "P19": {
        "harnesses": [{"file": "p19_dbscan",
                       "quick": ["dbscan_n1d1", "dbscan_n2d1", "dbscan_n3d1", "dbscan_n4d1", "dbscan_n5d1", "dbscan_n5d1_m2", "dbscan_n3d2", "dbscan_n4d2", "dbscan_subset_n4d1", "dbscan_subset_n5d1",
                                 "dbscan_cloud_n12d2", "dbscan_cloud_n20d2", "dbscan_subset_cloud_n14d2", "dbscan_cloud2_n16d2", "dbscan_n6d1", "dbscan_chain_n9", "dbscan_chain_n6", "dbscan_chain_n7", "dbscan_chain_n9_r", "dbscan_wide_n14d5", "dbscan_wide_n20d9", "dbscan_wide_n30d3", "dbscan_i32_n3d1", "dbscan_i32_n4d2", "dbscan_i32_cloud_n20d2", "dbscan_u32_n4d1", "dbscan_u32_subset_n4d1", "dbscan_u32_cloud_n20d2"],
                       "thorough": [("dbscan_n6d1_m2", {"fan": 8})]}],
        "bounds": ["1-6 samples with every coordinate on grids of 2-4 values, or 12-20 samples of a fixed cloud of which 1 or 2 are any of 9 positions; radii on and between the distances, and 0; min_samples 0-4; all samples or an index subset", "14-30 samples in 3-9 dimensions of which one coordinate, at any position of one sample, is free; min_samples up to 7", "3-4 free int32 or uint32 samples and 20 with one free, under the sum of coordinate differences"],
        "assumptions": ["threads off (THREADS_ENABLED=false)"],
    },
    "P20": {
        "harnesses": [{"file": "p20_kmeans",
                       "quick": ["predict_f32_n2k2d1", "predict_f32_n1k3d1", "predict_f32_n1k2d2", "predict_f32_n1k1d2", "predict_f32_n2k2d2", "predict_f64_n1k2d2", "predict_i32_n2k2d1", "predict_i32_n1k3d2", "predict_u16_n1k3d1", "predict_cloud_n20k5d2", "predict_big_n2k2d1", "predict_big_f64_n2k2d1", "predict_wide_n6k5d5", "predict_wide_n4k12d9", "predict_wide_i32_n4k9d6", "predict_u32_n2k2d2", "predict_wide_u32_n4k9d6"],
                       "thorough": []}],
        "bounds": ["1-2 samples and 1-3 centroids with every coordinate on grids of 2-4 values, 20 samples and 5 centroids of which one of each is any of 9 positions; float, double, int32, uint16", "4-6 samples and 5-12 centroids in 5-9 dimensions with one free coordinate of one sample, at any position", "unsigned samples and centroids"],
        "assumptions": [],
    },
    "P21": {
        "harnesses": [{"file": "p20_kmeans",
                       "quick": ["lloyd_n3k2d1", "lloyd_n4k2d1", "lloyd_n3k3d1", "lloyd_n3k1d1", "lloyd_n3k2d2", "lloyd_i32_n3k2d1", "lloyd_i32_mixed_n5k3d2", "lloyd_cloud_n12k3d2", "lloyd_cloud_n12k4d2", "lloyd_cloud_n30k5d2",
                                 "hamerly_n3k2d1", "hamerly_n4k2d1", "hamerly_n3k3d1", "hamerly_n3k1d1", "hamerly_mixed_n4k3d1", "hamerly_mixed_n6k3d1", "hamerly_mixed_n6k2d1", "hamerly_i32_mixed_n5k3d1", "hamerly_cloud_n12k3d2", "hamerly_cloud_n12k4d2", "hamerly_cloud_n30k5d2", "hamerly_mixed_n8k3d2", "hamerly_line_n12k3", "hamerly_line_n10k4", "hamerly_line_n10k3", "lloyd_line_n12k3",
                                 "fit_lloyd_n3k2d1", "fit_hamerly_n3k2d1", "fit_hamerly_mixed_n5k2d1", "fit_hamerly_mixed_n6k3d1", "best_lloyd_n3k2d1", "best_hamerly_mixed_n5k2d1", "best_lloyd_mixed_n5k2d1", "best_hamerly_n4k2d1", "attempts_given", "attempts_2", "attempts_3", "hamerly_broad_n24k8d3", "hamerly_broad_n16k6d5", "hamerly_broad_n40k9d2", "hamerly_broad_n30k9d9", "lloyd_broad_n24k8d3", "lloyd_broad_i32_n24k6d3", "hamerly_broad_i32_n16k4d2", "lloyd_u32_n3k2d1", "hamerly_u32_mixed_n5k3d1", "hamerly_u32_n3k1d1", "lloyd_u32_mixed_n5k3d2", "hamerly_broad_u32_n16k4d2", "lloyd_broad_u32_n24k6d3"],
                       "thorough": [("hamerly_n3k2d2", {"fan": 16, "budget": 600}), ("hamerly_cloud2_n16k4d2", {"fan": 16, "budget": 900}), ("fit_lloyd_n4k2d1", {"fan": 8, "budget": 600}), ("best_hamerly_n3k2d1", {"fan": 16, "budget": 900})]}],
        "bounds": ["3-4 samples and 1-3 centroids with every coordinate on grids of 2-4 values, or 4-30 samples and 2-5 centroids of which 1-2 are arbitrary on a grid; 2-6 consecutive steps (Hamerly's bounds included); 2-3 attempts", "16-40 samples and 6-9 centroids in 2-9 dimensions over 4-7 steps with one free coordinate, at any position of one sample", "uint32 samples: 3-5 with 1-3 centroids, 16-24 with 4-6"],
        "assumptions": ["threads off (THREADS_ENABLED=false)", "positions compared up to 1e-3 and near-ties up to 1e-4 (squared distance)"],
    },
    "P22": {
        "harnesses": [{"file": "p22_kmedoids",
                       "quick": ["predict_f32_n4k2", "predict_f32_n4k3_m", "predict_f32_n3k1", "predict_f64_n3k2", "predict_i32_n3k2d2", "predict_i32_n3k2d2_m", "predict_u16_n3k2", "predict_f32_n20k5", "predict_f32_n20k5_m", "predict_i32_n18k9d6", "nearest_f32_n20k5", "nearest_i32_n16k9d6_m",
                                 "nearest_f32_n3k2", "nearest_f32_n4k3", "nearest_f32_n3k2_m", "nearest_f32_n4k3_m", "nearest_i32_n3k2d2", "nearest_i32_n3k2d2_m", "predict_u32_n3k2d2", "predict_u32_n18k9d6_m", "nearest_u32_n3k2d2", "nearest_u32_n16k9d6_m"],
                       "thorough": []}],
        "bounds": ["3-4 samples with every coordinate on grids of 3-4 values and 1-3 of them, in any order, as medoids, or 16-20 samples in 1-6 dimensions of which one is arbitrary and 5-9 medoids in 4 arrangements; float, double, int32, uint16; samples or a precomputed distance matrix", "unsigned samples"],
        "assumptions": ["distances on the grids are exact"],
    },
    "P23": {
        "harnesses": [{"file": "p22_kmedoids",
                       "quick": ["pam_f32_n3k2", "pam_f32_n3k2_m", "pam_f32_n4k2_f1", "pam_f32_n4k3_f2", "pam_f32_n5k3_f3_m", "pam_i32_n5k2d2_f4_m", "pam_cloud_n8k2d1_m", "pam_cloud_n6k5d1",
                                 "fit_n4k2_f1", "fit_n4k2_f1_dyn", "fit_n4k2_f1_matrix", "fit_n4k2_random", "fit_n7k3_dyn",
                                 "pam_line_n10k3", "pam_line_n10k3_m", "pam_line_n12k3_m", "pam_line_n7k4", "pam_line_n8k4_m", "pam_cloud_n16k5d1", "pam_cloud_n20k8d1_m", "attempts_given", "attempts_2", "attempts_2_dyn", "attempts_2_matrix", "attempts_given_matrix", "pam_u32_n4k2_f2", "pam_u32_n5k2d2_f4_m", "pam_u32_cloud_n16k5d1", "fit_n4k2_d2", "fit_n4k2_d3_dyn", "fit_n4k2_d2_matrix", "fit_n4k2_d2_random", "fit_n4k2_d2_random_dyn"],
                       "thorough": ["pam_i32_n4k2_f2", ("pam_f32_n4k2", {"fan": 8, "budget": 600}), ("pam_f32_n4k3", {"fan": 16, "budget": 900}), "pam_cloud_n9k4d1", "pam_cloud_n7k5d1", "fit_n4k2", "fit_n4k2_dyn", "fit_n4k2_matrix", ("pam_f32_n5k3_m", {"fan": 16, "budget": 900})]}],
        "bounds": ["3-5 samples of which 1-3 (thorough: all) are arbitrary on grids of 3-4 values, or 7-20 samples of which one is; 2-8 of them (in any order up to 12 samples, in 4 arrangements above) as medoids; 2-4 consecutive steps; fit: from given medoids, or 2 attempts from any random ones", "fit's attempts, stopping and selection: every sequence of up to 4 steps that change the medoids or not, 3 losses, 3 patiences", "uint32 samples: 4-5 and 16 of which 1-2 are arbitrary", "fit with two and three features (the value in the last one)"],
        "assumptions": ["distances on the grids and their sums are exact", "threads off (THREADS_ENABLED=false)"],
    },
    "P24": {
        "harnesses": [{"file": "p22_kmedoids",
                       "quick": ["msc_n3k2", "msc_n4k2_f1", "msc_n4k2_f1_m", "msc_n4k3_f2", "msc_n5k3_f3_m", "msc_n5k4_f3", "msc_n8k3_f7", "msc_n9k2_f8_m", "msc_cloud_n9k2", "msc_cloud_n8k3", "msc_cloud_n7k4", "msc_line_n10k2", "msc_line_n12k3_m", "msc_line_n8k4", "msc_line_n10k3", "msc_cloud_n16k5", "msc_cloud_n20k8_m", "msc_n18k4_f17", "msc_n4k2_f1_d2", "msc_n5k3_f3_d3_m", "msc_cloud_n8k3_d2"],
                       "thorough": ["msc_n4k3_f1", "msc_n4k2", ("msc_n5k3_f1", {"fan": 8, "budget": 900}), "msc_cloud2_n9k2_m", "msc_cloud2_n8k3"]}],
        "bounds": ["3-5 samples of which 2-3 (thorough: 4) are arbitrary on a grid of 3 values, or 7-9 samples of which one (2) is; 2-4 of them, in any order, as medoids; 2-4 consecutive steps", "16-20 samples of which one is arbitrary and 4-8 medoids in 4 arrangements", "two and three features (the value in the last one)"],
        "assumptions": ["local optimality only where ratios of distances are exact", "threads off (THREADS_ENABLED=false)"],
    },
    "P25": {
        "harnesses": [{"file": "p25_serialize",
                       "quick": ["kdtree_int_n3d1", "kdtree_small_int_n1d1", "kdtree_float_n3d2", "kdtree_double_n3d1", "kdtree_bucket_n9d2", "slink_float_n4", "slink_double_n3", "slink_int_n3", "slink_n1", "kdtree_subset_n7d2", "kdtree_long_n3d1", "kdtree_ulong_n3d1", "kdtree_unlimited_bucket_n3d1", "slink_ulong_n3"],
                       "thorough": []}],
        "bounds": ["k-d trees over 1-9 samples in 1-2 dimensions (int32, float, double), copied or moved; single linkage trees over 1-4 samples (int32, float, double levels); values from tables of 3-9 values that need all digits, extremes included, or -110..110", "trees over 5 of 7 samples, int64 values", "unsigned 64-bit samples, levels and bucket sizes from tables reaching beyond 2^63"],
        "assumptions": ["the output file, std::filesystem::path and rapidjson's stream wrapper are stand-ins that keep what is written"],
    },
    "P26": {
        "harnesses": [{"file": "p26_helpers",
                       "quick": ["equal_i32_n3", "equal_u8_n4", "equal_f32_n3", "equal_f64_n2", "membership_i32", "membership_u8", "membership_f32", "permutation_i32_n4", "permutation_f32_n3", "conversion", "scalars_i32", "division_i32", "scalars_f64", "n_samples", "features", "equal_i32_n20", "equal_f32_n19", "membership_i32_n19"],
                       "thorough": []}],
        "bounds": ["ranges of 0-4 elements, or 19-20 of which one at any position is free: all int32 and uint8 values (integers in -99..99 for the conversion to double, below 1e9 for the centre), 12 float/double values around 0, the machine epsilon, 1 and up to 1e20; denominators from tables of 5-6 values"],
        "assumptions": [],
    },
    "P27": {
        "harnesses": [{"file": "p27_axes",
                       "quick": ["boxes_f32_d2", "boxes_f32_d3", "boxes_i32_d2", "variance_n1d2", "variance_n1d3", "variance_n2d2", "variance_n2d3", "variance_i32_n2d2", "variance_n3d2", "variance_n4d2", "variance_n4d2_draw", "custom_n4d2", "custom_n9d2", "tree_n4d2", "tree_n10d2", "tree_n9d3", "boxes_u32_d2", "boxes_u64_d2", "variance_u32_n2d2"],
                       "thorough": []}],
        "bounds": ["boxes in 2-3 dimensions with every side from 3-4 values, every mask of 2 features and 5 masks of 3, depths 0-6; variance policy on 1-4 samples; trees over 4 samples, and over 9-10 samples of which one is free", "unsigned samples of 32 and 64 bits"],
        "assumptions": ["the random facilities of the standard library are replaced by solver variables over their documented range"],
    },
    "P28": {
        "harnesses": [{"file": "p28_threads", "omp": True,
                       "quick": ["transpose_n3d2", "transpose_n70d3", "transpose_n3d70", "transpose_n66d66", "transpose_n130d2", "matrix_f32_n2d1", "matrix_f32_n5d2", "matrix_f64_n9d2", "matrix_i32_n7d2", "lloyd_f32_n6k2d1", "lloyd_f64_n8k2d2", "hamerly_f32_n6k2d1", "hamerly_f64_n8k3d2", "fasterpam_pre_n6k2d2", "fasterpam_dyn_n6k2d1", "fasterpam_matrix_n6k3d1", "fastermsc_pre_n6k2d1", "fastermsc_dyn_n6k2d2", "fastermsc_matrix_n6k2d2", "shared_nearest_n10d1", "shared_nearest_n16d2", "shared_box_n10d2", "shared_radius_n16d2", "shared_edge_n10d1", "shared_edge_n12d2", "shared_core_n10d1", "shared_box_n14d3", "shared_core_n12d2", "shared_nearest_n40d2", "shared_kmeans_n5k3d2", "shared_kmedoids_n6k2d1", "shared_matrix_n5d2", "apart_lloyd_n6d1", "apart_hamerly_n6d2", "apart_fasterpam_n6d1", "apart_fastermsc_n6d1", "apart_plusplus_n6d1", "apart_spatial_n6d2", "apart_uniform_n6d2", "apart_vose", "apart_trees_cycle_n9d2", "apart_trees_spread_n9d2", "apart_trees_variance_n9d2", "apart_dbscan_n7d1", "apart_dbscan_n9d2", "apart_hdbscan_n7d1", "apart_hdbscan_n8d2"],
                       "thorough": []}],
        "bounds": ["1, 2, 3, 4 and 8 threads that run in either order, every access attributed to its thread: transposition of up to 130 rows or 66 columns and rows with free elements, matrices of 2-9 samples, 3-4 attempts of k-means and k-medoids on 6-8 samples of which one coordinate at any of 6 positions is free", "three threads that search one tree of 10-40 samples, predict with one model, read one matrix, or fit, build trees and draw at random on the same 4-9 samples"],
        "assumptions": ["a run without data races has the effect of running its threads one after the other (the C++ memory model); the OpenMP run-time library is a stand-in that deals iterations in blocks or in turn; threads that wait for each other inside a region (barriers) are outside the bound", "the random facilities of the standard library are replaced by scripted draws"],
    },
    "P29": {
        "harnesses": [{"file": "p29_refuse",
                       "quick": ["nth_f32_n4", "nth_i32_n5d2", "none_f32_n4", "none_i32_n4d2", "unfitted", "permutation_6", "rows_5x4", "weights"],
                       "thorough": []}],
        "bounds": ["0-5 medoids out of 4-5 samples and every rank from 0 to 6, from samples and from a distance matrix; permutations and row orders of 0-6 indices over 0-6 elements in up to 4 features with every value free; 0-3 weights"],
        "assumptions": ["an exception ends a path: what a caller does after catching it is outside the bounds"],
    },
}
