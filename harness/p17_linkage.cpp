#include "sx.hpp"
#include "sx_random.hpp"
#include "sx_rt.hpp"
#include <filesystem>
#include <fstream>
#include "rapidjson/document.h"
#include "rapidjson/ostreamwrapper.h"
#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"
namespace ds = ffcl::datastruct;
template <typename W> using TreeOf = ds::SingleLinkageClusterTree<std::size_t, W>;

static const float kW[] = {0.f, 0.5f, 1.f, 2.f, 4.f};
static const float kCut[] = {0.f, 0.5f, 1.f, 1.5f, 4.f, 9.f, std::numeric_limits<float>::infinity()};

static const int kWi[] = {0, 1, 2, 7, 4};
static const int kCuti[] = {0, 1, 2, 3, 7, 9, std::numeric_limits<int>::max()};
template <typename W> static const W* weights() { if constexpr (std::is_integral_v<W>) return kWi; else return kW; }
template <typename W> static const W* cuts() { if constexpr (std::is_integral_v<W>) return kCuti; else return kCut; }

template <std::size_t N, typename W>
struct Input {
    ds::mst::EdgesList<std::size_t, W> edges;
    W reach[N][N];   // smallest level at which two samples are in the same cluster: longest edge on their path
};
// any tree over N samples (sample 0 relabelled), any weights
template <std::size_t N, typename W>
static void make(Input<N, W>& in, uint32_t m, bool path, std::size_t fixed = 0) {
    auto id = [](std::size_t i) { return (i * (N > 2 && N % 2 ? 2 : 1) + 1) % N; };
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) in.reach[i][j] = 0;
    for (std::size_t i = 1; i < N; ++i) {
        const std::size_t p = i < fixed ? (i * 5) / 7 : path ? i - 1 : sx_concretize(sx_choice("parent", i));
        const W w = i < fixed ? (W)((std::is_integral_v<W> ? 1.f : 0.25f) * (float)(1 + (i * 11) % 13)) : sx::pick_n("weight", weights<W>(), m);
        in.edges.emplace_back(id(i), id(p), w);
        for (std::size_t j = 0; j < i; ++j) { const W r = in.reach[id(p)][id(j)] > w ? in.reach[id(p)][id(j)] : w; in.reach[id(i)][id(j)] = r; in.reach[id(j)][id(i)] = r; }
    }
}
template <std::size_t N, class Node, typename W>
static std::vector<std::size_t> walk(const Node& n, const Input<N, W>& in, int& ok, int& levels) {
    if (n->is_leaf()) { ok &= (n->representative_ < N) & (n->size() == 1) & (n->level_ == 0); return {n->representative_}; }
    ok &= (n->left_ != nullptr) & (n->right_ != nullptr);
    sx_assert(ok, "dendrogram: a node has two children or none");
    ok &= (n->left_->parent_.get() == n.get()) & (n->right_->parent_.get() == n.get()) & n->left_->has_parent();
    auto l = walk<N>(n->left_, in, ok, levels);
    const auto r = walk<N>(n->right_, in, ok, levels);
    for (auto x : l) for (auto y : r) { sx_assert((x < N) & (y < N), "dendrogram: leaves are samples"); levels &= n->level_ == in.reach[x][y]; }
    levels &= (n->level_ >= n->left_->level_) & (n->level_ >= n->right_->level_);
    l.insert(l.end(), r.begin(), r.end());
    int member = 0;
    for (auto x : l) member |= x == n->representative_;
    ok &= member & (n->size() == l.size());
    return l;
}
template <std::size_t N, typename W = float>
static void dendrogram(uint32_t m, bool path, std::size_t fixed = 0) {
    using Tree = TreeOf<W>;
    Input<N, W> in;
    make<N, W>(in, m, path, fixed);
    const Tree t(in.edges);
    int ok = 1, levels = 1;
    const auto root = t.root();
    const auto leaves = walk<N>(root, in, ok, levels);
    sx_assert(ok & !root->has_parent(), "dendrogram: sizes, representatives and parents");
    std::array<int, N> seen{};
    sx_assert(leaves.size() == N, "dendrogram: one leaf per sample");
    for (auto x : leaves) seen[x]++;
    int once = 1;
    for (auto x : seen) once &= x == 1;
    sx_assert(once, "dendrogram: every sample once");
    sx_assert(levels, "dendrogram: two samples meet at the longest edge on their path");
    const auto whole = t.predict();
    sx_assert(whole.size() == N, "flat clusters: one label per sample");
    int one = 1;
    for (auto x : whole) one &= x == whole[0];
    sx_assert(one, "flat clusters: one cluster when the tree is not cut");
    sx::emit(root->level_);
    sx_reach("dendrogram");
}
template <std::size_t N, typename W = float>
static void cut(uint32_t m, bool path, std::size_t fixed = 0) {
    using Tree = TreeOf<W>;
    Input<N, W> in;
    make<N, W>(in, m, path, fixed);
    const W level = sx::pick_n("cut", cuts<W>(), 7);
    const std::size_t min_size = 1 + sx_concretize(sx_choice("min size", 3));
    const auto options = typename Tree::Options().cut_level(level).min_cluster_size(min_size);
    auto copy = in.edges;
    Tree t = fixed ? Tree(in.edges, options) : Tree(std::move(copy), options);
    if (min_size == 1) { t.set_options(typename Tree::Options().cut_level((W)100).min_cluster_size(N + 1)); t.set_options(options); }
    const auto l = t.predict();
    sx_assert(l.size() == N, "flat clusters: one label per sample");
    int same = 1, noise = 1;
    std::array<std::size_t, N> size;
    for (std::size_t i = 0; i < N; ++i) { size[i] = 0; for (std::size_t j = 0; j < N; ++j) size[i] += (i == j) | (in.reach[i][j] < level); }
    for (std::size_t i = 0; i < N; ++i) noise &= (l[i] == 0) == (size[i] < min_size);
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < i; ++j) same &= (l[i] == 0) | (l[j] == 0) | ((l[i] == l[j]) == (in.reach[i][j] < level));
    sx_assert(noise, "flat clusters: noise exactly the clusters that are too small");
    sx_assert(same, "flat clusters: together exactly when they meet below the cut");
    for (auto x : l) sx::emit(x);
    sx_reach("cut");
}
HARNESS(dendrogram_n1) { dendrogram<1>(5, false); }
HARNESS(dendrogram_n2) { dendrogram<2>(5, false); }
HARNESS(dendrogram_n3) { dendrogram<3>(5, false); }
HARNESS(dendrogram_n4) { dendrogram<4>(4, false); }
HARNESS(dendrogram_n5) { dendrogram<5>(3, false); }
HARNESS(dendrogram_path_n6) { dendrogram<6>(3, true); }
HARNESS(dendrogram_mixed_n20) { dendrogram<20>(5, false, 18); }
HARNESS(dendrogram_mixed_n40) { dendrogram<40>(5, true, 38); }
HARNESS(cut_n1) { cut<1>(5, false); }
HARNESS(cut_n2) { cut<2>(5, false); }
HARNESS(cut_n3) { cut<3>(5, false); }
HARNESS(cut_n4) { cut<4>(3, false); }
HARNESS(cut_path_n5) { cut<5>(4, true); }
HARNESS(cut_path_n6) { cut<6>(4, true); }
HARNESS(cut_n5) { cut<5>(3, false); }
HARNESS(cut_mixed_n20) { cut<20>(5, true, 18); }
HARNESS(cut_path_n7) { cut<7>(4, true); }
HARNESS(dendrogram_n6) { dendrogram<6>(3, false); }
HARNESS(dendrogram_path_n7) { dendrogram<7>(5, true); }
// integer levels, a type without an infinity
HARNESS(dendrogram_i32_n4) { dendrogram<4, int>(4, false); }
HARNESS(dendrogram_i32_mixed_n20) { dendrogram<20, int>(5, false, 18); }
HARNESS(cut_i32_n3) { cut<3, int>(5, false); }
HARNESS(cut_i32_path_n5) { cut<5, int>(4, true); }
