#include "kd_oracle.hpp"
#include "ffcl/hdbscan/HDBSCAN.hpp"
namespace ds = ffcl::datastruct;
using Linkage = ds::SingleLinkageClusterTree<std::size_t, float>;
using Condensed = ds::CondensedClusterTree<std::size_t, float>;
using Edges = ds::mst::EdgesList<std::size_t, float>;

// powers of two: the inverse distances and the sums of them that occur are exact
static const float kW[] = {1.f, 4.f, 0.5f, 2.f, 0.f};

struct Cluster { std::vector<std::size_t> members; float birth, stability; int left = -1, right = -1; int selected = 0; float best = 0; };
static float lambda(float level) { return level == 0 ? std::numeric_limits<float>::max() : 1 / level; }
template <class Node>
static void leaves(const Node& n, std::vector<std::size_t>& out) {
    if (n->is_leaf()) { out.push_back(n->representative_); return; }
    leaves(n->left_, out);
    leaves(n->right_, out);
}
template <class Node>
static std::size_t count(const Node& n) { return n->is_leaf() ? 1 : count(n->left_) + count(n->right_); }
// The definition: a cluster splits where both parts have the minimum size; samples otherwise leave it one part at a time.
template <class Node>
static int condense(const Node& start, float birth, std::size_t min_size, std::vector<Cluster>& all) {
    const int id = (int)all.size();
    all.emplace_back();
    leaves(start, all[id].members);
    all[id].birth = birth;
    float stability = 0;
    Node n = start;
    while (!n->is_leaf()) {
        const std::size_t l = count(n->left_), r = count(n->right_);
        const float at = lambda(n->level_);
        const bool keep_l = l >= min_size, keep_r = r >= min_size;
        const std::size_t gone = keep_l == keep_r ? l + r : keep_l ? r : l;
        for (std::size_t p = 0; p < gone; ++p) stability += at - birth;
        if (keep_l && keep_r) {
            const int a = condense(n->left_, at, min_size, all), b = condense(n->right_, at, min_size, all);
            all[id].left = a;
            all[id].right = b;
        }
        if (keep_l == keep_r) break;
        n = keep_l ? n->left_ : n->right_;
    }
    all[id].stability = stability;
    return id;
}
static void select(std::vector<Cluster>& all, bool leaf_nodes, bool single) {
    for (int id = (int)all.size() - 1; id >= 0; --id) {  // children come after their parent
        Cluster& c = all[id];
        if (c.left < 0) { c.selected = 1; c.best = c.stability; continue; }
        const float below = all[c.left].best + all[c.right].best;
        c.selected = leaf_nodes ? 0 : below > c.stability ? 0 : 1;
        c.best = below > c.stability ? below : c.stability;
    }
    if (!single && all[0].left >= 0) all[0].selected = 0;
}
template <std::size_t N>
static void check_labels(const std::vector<Cluster>& all, const std::vector<std::size_t>& labels) {
    sx_assert(labels.size() == N, "condensed tree: one label per sample");
    // top[i]: shallowest selected cluster of sample i, 0 for none
    std::array<std::size_t, N> top{};
    std::size_t k = 0;
    std::vector<int> covered(all.size(), 0);
    for (std::size_t c = 0; c < all.size(); ++c) {
        const int take = all[c].selected & !covered[c];
        k += take;
        for (auto p : all[c].members) top[p] = take ? c + 1 : top[p];
        if (all[c].left >= 0) covered[all[c].left] = covered[all[c].right] = covered[c] | take;
    }
    int noise = 1, same = 1, range = 1;
    for (std::size_t i = 0; i < N; ++i) {
        noise &= (labels[i] == 0) == (top[i] == 0);
        range &= labels[i] <= k;
        for (std::size_t j = 0; j < i; ++j) same &= (top[i] == 0) | (top[j] == 0) | ((labels[i] == labels[j]) == (top[i] == top[j]));
    }
    sx_assert(noise, "condensed tree: noise exactly the samples in no selected cluster");
    sx_assert(same, "condensed tree: together exactly when in the same most stable cluster");
    sx_assert(range, "condensed tree: clusters are numbered from one without a gap");
}
template <std::size_t N>
static void condensed(uint32_t m, bool path, std::size_t min_lo, std::size_t min_n, bool defaults = false, std::size_t fixed = 0, std::size_t step = 1) {
    Edges edges;
    for (std::size_t i = 1; i < N; ++i) {
        const std::size_t p = path || i < fixed ? i - 1 : sx_concretize(sx_choice("parent", i));
        edges.emplace_back((i * step) % N, (p * step) % N, i < fixed ? kW[(i * i + i / 3) % 4] : sx::pick_n("weight", kW, m));
    }
    const Linkage linkage(edges);
    const std::size_t min_size = min_lo + sx_concretize(sx_choice("min size", min_n));
    const bool leaf_nodes = !defaults && sx_concretize(sx_choice("leaf nodes", 2)), single = !defaults && sx_concretize(sx_choice("single", 2));
    auto chosen = Condensed::Options().min_cluster_size(min_size);
    if (!defaults) chosen.return_leaf_nodes(leaf_nodes).allow_single_cluster(single);
    Condensed::Options options;
    options = chosen;
    std::vector<Cluster> all;
    const auto root = linkage.root();
    condense(root, 0.f, min_size, all);
    select(all, leaf_nodes, single);
    const auto labels = Condensed(root, options).predict();
    check_labels<N>(all, labels);
    for (auto x : labels) sx::emit(x);
    sx_reach("condensed");
}
// end to end on samples
template <std::size_t N, std::size_t D>
static void hdbscan(const float* table, uint32_t m, std::size_t min_size, std::size_t k, std::size_t fixed, std::size_t bucket) {
    std::vector<float> s(N * D);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = i / D < fixed ? kd::cloud(i / D, i % D) : sx::pick_n("value", table, m);
    if (fixed == N) {   // many dimensions: one coordinate of one sample, at any position, is free
        for (std::size_t i = 0; i < N * D; ++i) s[i] = kd::wide(i / D, i % D);
        s[(N / 2) * D + sx_concretize(sx_choice("coordinate", D))] = sx::pick_n("value", table, m);
    }
    std::vector<std::size_t> ix(N);
    for (std::size_t i = 0; i < N; ++i) ix[i] = i;
    using Algorithm = ffcl::HDBSCAN<kd::Tree<float>>;
    const bool leaf_nodes = sx_concretize(sx_choice("leaf nodes", 2)), single = sx_concretize(sx_choice("single", 2));
    Algorithm algorithm;
    algorithm.set_options(Algorithm::Options().k_nearest_neighbors(k).min_cluster_size(min_size).return_leaf_nodes(leaf_nodes).allow_single_cluster(single));
    auto tree = [&] { return kd::Tree<float>(ix.begin(), ix.end(), s.begin(), s.end(), D, kd::options<float>(kd::CYCLE, bucket, 8)); };
    const auto labels = algorithm.predict(tree());
    sx_assert(labels.size() == N, "hdbscan: one label per sample");
    // the hierarchy: r[i][j] smallest mutual reachability at which i and j are connected
    static double d[N][N], r[N][N];
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) d[i][j] = sq_dist(&s[i * D], &s[j * D], D);
    std::array<double, N> core;
    for (std::size_t i = 0; i < N; ++i) {
        core[i] = 0;
        if (k > 1)
            for (std::size_t j = 0; j < N; ++j) {
                std::size_t less = 0, leq = 0;
                for (std::size_t l = 0; l < N; ++l) { less += d[i][l] < d[i][j]; leq += d[i][l] <= d[i][j]; }
                core[i] = ((less < k) & (k <= leq)) ? d[i][j] : core[i];
            }
    }
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) { double v = d[i][j]; v = core[i] > v ? core[i] : v; v = core[j] > v ? core[j] : v; r[i][j] = i == j ? 0 : v; }
    for (std::size_t x = 0; x < N; ++x) for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) { const double v = r[i][x] > r[x][j] ? r[i][x] : r[x][j]; r[i][j] = v < r[i][j] ? v : r[i][j]; }
    std::array<std::size_t, N + 1> size{};
    int range = 1, nested = 1, large = 1;
    for (std::size_t i = 0; i < N; ++i) for (std::size_t l = 0; l <= N; ++l) size[l] += labels[i] == l;
    for (std::size_t i = 0; i < N; ++i) range &= labels[i] <= N;
    for (std::size_t l = 2; l <= N; ++l) range &= (size[l] == 0) | (size[l - 1] != 0);
    for (std::size_t l = 1; l <= N; ++l) large &= (size[l] == 0) | (size[l] >= min_size) | (size[l] == N);
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < i; ++j) for (std::size_t x = 0; x < N; ++x)
        nested &= (labels[i] == 0) | (labels[i] != labels[j]) | (labels[x] == labels[i]) | (r[i][j] <= r[i][x]);
    sx_assert(range, "hdbscan: clusters are numbered from one without a gap");
    sx_assert(large, "hdbscan: clusters have the minimum size");
    sx_assert(nested, "hdbscan: no sample outside a cluster is joined to it before its own samples are");
    // and the same as the three stages one after the other
    const auto edges = ffcl::BoruvkasAlgorithm<kd::Tree<float>>(typename ffcl::BoruvkasAlgorithm<kd::Tree<float>>::Options().k_nearest_neighbors(k)).make_tree(tree());
    const Linkage linkage(edges);
    const auto stages = Condensed(linkage.root(), Condensed::Options().min_cluster_size(min_size).return_leaf_nodes(leaf_nodes).allow_single_cluster(single)).predict();
    int same = 1;
    for (std::size_t i = 0; i < N; ++i) same &= stages[i] == labels[i];
    sx_assert(same, "hdbscan: spanning tree, single linkage tree and condensed tree with the given options");
    for (auto x : labels) sx::emit(x);
    sx_reach("hdbscan");
}
static const float kG[] = {-3.f, 0.f, 1.f};
static const float kC[] = {-2.5f, 1.5f, 6.5f};
static const float kE[] = {20.f, 21.5f, 40.f};
HARNESS(condensed_n1) { condensed<1>(5, false, 1, 2); }
HARNESS(condensed_n2) { condensed<2>(5, false, 1, 3); }
HARNESS(condensed_n3) { condensed<3>(5, false, 1, 3); }
HARNESS(condensed_n4) { condensed<4>(4, false, 1, 3); }
HARNESS(condensed_path_n5) { condensed<5>(4, true, 1, 3); }
HARNESS(condensed_path_n6) { condensed<6>(3, true, 2, 2, false, 0, 5); }
HARNESS(condensed_zero_n5) { condensed<5>(5, true, 1, 3, false, 2); }
HARNESS(condensed_defaults_n5) { condensed<5>(4, true, 1, 2, true); }
HARNESS(condensed_mixed_n16) { condensed<16>(4, true, 2, 3, false, 13, 5); }
HARNESS(condensed_mixed_n30) { condensed<30>(4, true, 2, 4, false, 28, 7); }
HARNESS(condensed_mixed_tree_n16) { condensed<16>(4, false, 2, 3, false, 14, 5); }
HARNESS(hdbscan_n4d1) { hdbscan<4, 1>(kG, 3, 2, 1, 0, 1); }
HARNESS(hdbscan_n4d1_k2) { hdbscan<4, 1>(kG, 3, 2, 2, 0, 2); }
HARNESS(hdbscan_n5d1_k2) { hdbscan<5, 1>(kG, 2, 2, 2, 0, 1); }
HARNESS(hdbscan_cloud_n10d2_k2) { hdbscan<10, 2>(kC, 3, 2, 2, 9, 2); }
HARNESS(hdbscan_cloud_n12d2_k3) { hdbscan<12, 2>(kC, 3, 3, 3, 11, 1); }
HARNESS(hdbscan_cloud_n8d2_k2) { hdbscan<8, 2>(kC, 3, 2, 2, 7, 1); }
HARNESS(hdbscan_far_n9d2) { hdbscan<9, 2>(kE, 3, 3, 1, 8, 1); }
HARNESS(hdbscan_far_n8d1) { hdbscan<8, 1>(kE, 3, 2, 1, 6, 1); }
HARNESS(condensed_path_n7) { condensed<7>(4, true, 2, 2, false, 0, 3); }
HARNESS(condensed_n5) { condensed<5>(4, false, 2, 1); }
HARNESS(condensed_path_n8) { condensed<8>(3, true, 2, 2, false, 0, 3); }
HARNESS(hdbscan_wide_n10d5) { hdbscan<10, 5>(kC, 3, 2, 1, 10, 1); }
HARNESS(hdbscan_wide_n14d3_k3) { hdbscan<14, 3>(kC, 3, 3, 3, 14, 2); }
