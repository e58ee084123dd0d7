#include "kd_common.hpp"

static const float kF[] = {-2.f, 0.f, 1.5f, 3.f};
static const float kG[] = {-2.f, 0.f, 1.5f};

// every structural promise of the tree, over the subtree of one node; returns the number of samples in the subtree
template <typename Node, typename T>
struct Walk {
    const std::vector<T>& s; std::size_t D; std::size_t bucket, max_depth; std::vector<int> seen;
    int once = 1, cut = 1, bounds = 1, shape = 1, links = 1, leaf = 1;
    std::vector<std::size_t> run(const Node& n, std::size_t depth, const Node& parent) {
        std::vector<std::size_t> mine;
        links &= (n->parent_.lock() == parent);
        for (auto it = n->indices_range_.first; it != n->indices_range_.second; ++it) mine.push_back(*it);
        shape &= ((bool)n->left_ == (bool)n->right_);
        shape &= (depth <= max_depth);  // kd::DEFAULT_DEPTH: never reached
        if (n->is_leaf()) {
            leaf &= (mine.size() <= bucket) | (depth == max_depth);
            leaf &= (n->cut_axis_feature_index_ == -1);
        } else {
            shape &= (mine.size() == 1);
            leaf &= (n->cut_axis_feature_index_ >= 0) & (n->cut_axis_feature_index_ < (std::ptrdiff_t)D);
            const std::size_t f = n->cut_axis_feature_index_;
            const T v = s[mine[0] * D + f];
            const auto l = run(n->left_, depth + 1, n), r = run(n->right_, depth + 1, n);
            for (auto i : l) { cut &= (s[i * D + f] <= v); mine.push_back(i); }
            for (auto i : r) { cut &= (s[i * D + f] >= v); mine.push_back(i); }
            shape &= (l.size() <= (mine.size() - 1) / 2);  // the pivot is the (left-rounded) median, moved left over ties
        }
        for (auto i : mine)
            for (std::size_t f = 0; f < D; ++f) {
                const auto& seg = n->bound_.segment_at(f);
                bounds &= (seg.lower_bound() <= s[i * D + f]) & (s[i * D + f] <= seg.upper_bound());
            }
        return mine;
    }
};

template <typename T, std::size_t N, std::size_t D, typename Table>
static void check(const Table& table, int axis, std::size_t bucket, std::size_t max_depth, std::size_t extra = 0, std::vector<std::size_t> mask = {}, std::size_t fixed = 0) {
    std::vector<T> s((N + extra) * D);
    for (std::size_t i = 0; i < s.size(); ++i) s[i] = (i / D < fixed) ? (T)kd::cloud(i / D, i % D) : (i / D < N) ? sx::pick("value", table) : T(50 + i);
    if (fixed == N) {   // many dimensions: one coordinate of one sample, at any position, is free
        for (std::size_t i = 0; i < N * D; ++i) s[i] = (T)kd::wide(i / D, i % D);
        s[(N / 2) * D + sx_concretize(sx_choice("coordinate", D))] = sx::pick("value", table);
    }
    std::vector<std::size_t> ix(N);
    for (std::size_t i = 0; i < N; ++i) ix[i] = N - 1 - i;
    const auto data_before = s;
    kd::Tree<T> tree(ix.begin(), ix.end(), s.begin(), s.end(), D, kd::options<T>(axis, bucket, max_depth, mask));
    sx_assert(tree.n_features() == D, "kdtree: number of features kept");
    auto root = tree.root();
    using Node = std::decay_t<decltype(root)>;
    Walk<Node, T> w{s, D, bucket, max_depth, {}};
    const auto all = w.run(root, 0, nullptr);
    int once = all.size() == N;
    for (std::size_t i = 0; i < N; ++i) { int c = 0; for (auto j : all) c += (j == i); once &= (c == 1); }
    sx_assert(once, "kdtree: every indexed sample is in exactly one node, and no other");
    sx_assert(w.shape, "kdtree: inner nodes hold one pivot sample and two balanced children, depth within the limit");
    sx_assert(w.links, "kdtree: parent links");
    sx_assert(w.leaf, "kdtree: leaves no larger than the bucket unless the depth limit stops the split");
    sx_assert(w.cut, "kdtree: left <= pivot <= right along the cut axis");
    sx_assert(w.bounds, "kdtree: every node's bound encloses its samples");
    int tight = 1;
    for (std::size_t f = 0; f < D; ++f) {
        T lo = s[f], hi = s[f];
        for (std::size_t i = 1; i < N; ++i) { lo = s[i * D + f] < lo ? s[i * D + f] : lo; hi = s[i * D + f] > hi ? s[i * D + f] : hi; }
        tight &= (root->bound_.segment_at(f).lower_bound() == lo) & (root->bound_.segment_at(f).upper_bound() == hi);
    }
    sx_assert(tight, "kdtree: the root bound is the bounding box of the indexed samples");
    int perm = 1;
    for (std::size_t i = 0; i < N; ++i) { int c = 0; for (auto j : ix) c += (j == i); perm &= (c == 1); }
    sx_assert(perm, "kdtree: the caller's index range stays a permutation");
    int same = 1;
    for (std::size_t i = 0; i < s.size(); ++i) same &= (s[i] == data_before[i]);
    sx_assert(same, "kdtree: the dataset is not modified");
    if (mask.size() == 1 && !root->is_leaf()) sx_assert(root->cut_axis_feature_index_ == (std::ptrdiff_t)mask[0], "kdtree: cuts only along masked features");
    for (auto j : all) sx::emit(j);
    sx_reach("tree");
}

HARNESS(cycle_b1_n4d2) { check<float, 4, 2>(kG, kd::CYCLE, 1, 8); }
HARNESS(cycle_b2_n5d1) { check<float, 5, 1>(kF, kd::CYCLE, 2, 8); }
HARNESS(cycle_b1_depth1_n5d1) { check<float, 5, 1>(kF, kd::CYCLE, 1, 1); }
HARNESS(spread_b1_n4d2) { check<float, 4, 2>(kG, kd::SPREAD, 1, 8); }
static const float kH[] = {0.f, 1.f};
HARNESS(variance_b1_n4d2) { check<float, 4, 2>(kH, kd::VARIANCE, 1, 8); }
HARNESS(variance_b1_n3d2) { check<float, 3, 2>(kH, kd::VARIANCE, 1, 8); }
HARNESS(variance_b2_n4d2) { check<float, 4, 2>(kG, kd::VARIANCE, 2, 8, 0, {}, 3); }
HARNESS(cycle_mask_n4d2) { check<float, 4, 2>(kG, kd::CYCLE, 1, 8, 1, {1}); }
HARNESS(int_b1_n5d1) { static const int k[] = {-7, 0, 1, 4}; check<int, 5, 1>(k, kd::CYCLE, 1, 8); }

// values closer together than the machine epsilon
HARNESS(tiny_n4d2) { static const float k[] = {0.f, 3e-8f, 5e-8f}; check<float, 4, 2>(k, kd::CYCLE, 1, 8); }
HARNESS(tiny_n5d1) { static const float k[] = {0.f, 3e-8f, 5e-8f, 1.f}; check<float, 5, 1>(k, kd::CYCLE, 1, 8); }

// larger trees, most of the samples fixed
HARNESS(mixed_cycle_n12d2) { check<float, 12, 2>(kG, kd::CYCLE, 1, kd::DEFAULT_DEPTH, 1, {}, 9); }
HARNESS(mixed_spread_n12d3) { check<float, 12, 3>(kG, kd::SPREAD, 2, kd::DEFAULT_DEPTH, 0, {}, 10); }
HARNESS(mixed_cycle_n40d2) { check<float, 40, 2>(kG, kd::CYCLE, 3, kd::DEFAULT_DEPTH, 3, {}, 38); }
HARNESS(mixed_depth3_n40d2) { check<float, 40, 2>(kG, kd::SPREAD, 1, 3, 0, {}, 38); }
HARNESS(mixed_mask_n12d3) { check<float, 12, 3>(kG, kd::CYCLE, 1, kd::DEFAULT_DEPTH, 0, {2}, 10); }
HARNESS(spread_mask_n12d3) { check<float, 12, 3>(kG, kd::SPREAD, 1, kd::DEFAULT_DEPTH, 0, {1}, 10); }
HARNESS(wide_cycle_n14d5) { check<float, 14, 5>(kG, kd::CYCLE, 1, kd::DEFAULT_DEPTH, 1, {}, 14); }
HARNESS(wide_spread_n20d9) { check<float, 20, 9>(kG, kd::SPREAD, 2, kd::DEFAULT_DEPTH, 0, {}, 20); }
HARNESS(wide_cycle_n70d3) { check<float, 70, 3>(kG, kd::CYCLE, 1, kd::DEFAULT_DEPTH, 0, {}, 70); }
HARNESS(wide_bucket_n70d2) { check<float, 70, 2>(kG, kd::SPREAD, 20, kd::DEFAULT_DEPTH, 0, {}, 70); }
