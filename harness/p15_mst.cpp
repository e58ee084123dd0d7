#include "kd_oracle.hpp"
#include "ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"
namespace mst = ffcl::datastruct::mst;

static const float kF[] = {-3.f, 0.f, 1.f, 2.5f};
static const float kG[] = {-3.f, 0.f, 1.f};
static const float kB[] = {0.f, 1.f};
static const float kC[] = {-2.5f, 1.5f, 6.5f};

// many dimensions: a fixed cloud, one coordinate of one of its samples, at any position, is free
template <typename T>
static void wide(std::vector<T>& s, std::size_t N, std::size_t D, const T* table, uint32_t m) {
    for (std::size_t i = 0; i < N * D; ++i) s[i] = (T)kd::wide(i / D, i % D);
    s[(N / 3) * D + sx_concretize(sx_choice("coordinate", (uint32_t)D))] = sx::pick_n("value", table, m);
}
// k-th smallest (1-based, at most all) of the squared distances from sample i, itself included
template <std::size_t N>
static double core2(const double (&d)[N][N], std::size_t i, std::size_t k) {
    if (k > N) k = N;
    double r = 0;
    for (std::size_t j = 0; j < N; ++j) {
        std::size_t less = 0, leq = 0;
        for (std::size_t l = 0; l < N; ++l) { less += d[i][l] < d[i][j]; leq += d[i][l] <= d[i][j]; }
        r = ((less < k) & (k <= leq)) ? d[i][j] : r;
    }
    return r;
}
template <typename T, std::size_t N, std::size_t D>
static void build(const T* table, uint32_t m, int axis, std::size_t bucket, std::size_t k, bool minimal, std::size_t fixed = 0) {
    std::vector<T> s(N * D);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = i / D < fixed ? kd::cloud_of<T>(i / D, i % D) : sx::pick_n("value", table, m);
    if (fixed == N) wide(s, N, D, table, m);
    std::vector<std::size_t> ix(N);
    for (std::size_t i = 0; i < N; ++i) ix[i] = i;
    using Algorithm = ffcl::BoruvkasAlgorithm<kd::Tree<T>>;
    Algorithm algorithm(typename Algorithm::Options().k_nearest_neighbors(bucket == 1 ? k : 1));
    if (bucket != 1) algorithm.set_options(typename Algorithm::Options().k_nearest_neighbors(k));
    const auto tree = algorithm.make_tree(kd::Tree<T>(ix.begin(), ix.end(), s.begin(), s.end(), D, kd::options<T>(axis, bucket, 8)));
    double d2[N][N], w2[N][N], M[N][N];
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) { d2[i][j] = sq_dist(&s[i * D], &s[j * D], D); M[i][j] = 0; }
    double core[N] = {};
    if (k > 1) for (std::size_t i = 0; i < N; ++i) core[i] = core2<N>(d2, i, k);
    for (std::size_t i = 0; i < N; ++i)
        for (std::size_t j = 0; j < N; ++j) {
            w2[i][j] = d2[i][j];
            if (k > 1) { const double a = core[i], b = core[j], c = a > b ? a : b; w2[i][j] = c > w2[i][j] ? c : w2[i][j]; }
        }
    sx_assert(tree.size() == N - 1, "spanning tree: one edge less than samples");
    std::array<std::size_t, N> comp;
    for (std::size_t i = 0; i < N; ++i) comp[i] = i;
    int weights = 1;
    for (const auto& e : tree) {
        const std::size_t a = sx_concretize(std::get<0>(e)), b = sx_concretize(std::get<1>(e));
        sx_assert((a < N) & (b < N), "spanning tree: edges join samples");
        sx_assert(comp[a] != comp[b], "spanning tree: no cycle");
        weights &= is_root_of(std::get<2>(e), w2[a][b]);
        const std::size_t ca = comp[a], cb = comp[b];
        for (std::size_t x = 0; x < N; ++x) if (comp[x] == ca)
            for (std::size_t y = 0; y < N; ++y) if (comp[y] == cb) {
                double v = w2[a][b];
                v = M[x][a] > v ? M[x][a] : v; v = M[b][y] > v ? M[b][y] : v;
                M[x][y] = v; M[y][x] = v;
            }
        for (auto& c : comp) if (c == cb) c = ca;
    }
    sx_assert(weights, k > 1 ? "spanning tree: edges weighted with the mutual reachability distance of their ends" : "spanning tree: edges weighted with the distance between their ends");
    if (minimal) {
        int cycle = 1;
        for (std::size_t i = 0; i < N; ++i) for (std::size_t j = i + 1; j < N; ++j) cycle &= M[i][j] <= w2[i][j] * (1 + 1e-6);
        sx_assert(cycle, k > 1 ? "spanning tree: minimal in mutual reachability distance" : "spanning tree: minimal (no sample pair is closer than the longest edge on its path)");
    }
    const auto copy = mst::sort_copy(tree);
    sx_assert(copy.size() == tree.size(), "sorted tree: the same number of edges");
    int sorted = 1;
    for (std::size_t i = 1; i < copy.size(); ++i) sorted &= std::get<2>(copy[i - 1]) <= std::get<2>(copy[i]);
    sx_assert(sorted, "sorted tree: edges in order of their weight");
    auto moved = tree;
    const auto owned = mst::sort(std::move(moved));
    sx_assert(owned.size() == tree.size(), "sorted tree: the same number of edges");
    int same = 1;
    for (std::size_t i = 0; i < copy.size(); ++i) same &= std::get<2>(copy[i]) == std::get<2>(owned[i]);
    sx_assert(same, "sorted tree: the copying and the moving version agree");
    for (const auto& e : tree) { sx::emit(std::get<0>(e)); sx::emit(std::get<1>(e)); sx::emit(std::get<2>(e)); }
    sx_reach("tree");
}
template <std::size_t N, std::size_t D, typename T>
static void core(const T* table, uint32_t m, std::size_t bucket, std::size_t fixed = 0) {
    std::vector<T> s(N * D);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = i / D < fixed ? kd::cloud_of<T>(i / D, i % D) : sx::pick_n("value", table, m);
    if (fixed == N) wide(s, N, D, table, m);
    std::vector<std::size_t> ix(N);
    for (std::size_t i = 0; i < N; ++i) ix[i] = i;
    const std::size_t k = 1 + sx_concretize(sx_choice("k", N < 6 ? N + 1 : fixed == N ? 9 : 4));
    const auto searcher = ffcl::search::Searcher(kd::Tree<T>(ix.begin(), ix.end(), s.begin(), s.end(), D, kd::options<T>(kd::CYCLE, bucket, 8)));
    const auto c = mst::make_static_core_distances(searcher, k);
    double d2[N][N];
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) d2[i][j] = sq_dist(&s[i * D], &s[j * D], D);
    int ok = 1;
    for (std::size_t i = 0; i < N; ++i) { ok &= is_root_of(c[i], core2<N>(d2, i, k)); sx::emit(c[i]); }
    sx_assert(ok, "core distance: distance to the k-th nearest sample, itself included");
    sx_reach("core");
}
HARNESS(tree_n2d1) { build<float, 2, 1>(kF, 4, kd::CYCLE, 1, 1, true); }
HARNESS(tree_n3d1) { build<float, 3, 1>(kF, 4, kd::CYCLE, 1, 1, true); }
HARNESS(tree_n4d1) { build<float, 4, 1>(kG, 3, kd::CYCLE, 1, 1, true); }
HARNESS(tree_n5d1) { build<float, 5, 1>(kG, 2, kd::CYCLE, 2, 1, true); }
HARNESS(tree_n3d2) { build<float, 3, 2>(kB, 2, kd::CYCLE, 1, 1, true); }
HARNESS(tree_n4d2) { build<float, 4, 2>(kB, 2, kd::SPREAD, 1, 1, true); }
HARNESS(tree_n1d1) { build<float, 1, 1>(kF, 4, kd::CYCLE, 1, 1, true); }
HARNESS(tree_cloud_n10d2) { build<float, 10, 2>(kC, 3, kd::CYCLE, 1, 1, true, 9); }
HARNESS(tree_cloud_n16d2) { build<float, 16, 2>(kC, 3, kd::SPREAD, 3, 1, true, 15); }
HARNESS(reach_n3d1_k2) { build<float, 3, 1>(kF, 4, kd::CYCLE, 1, 2, false); }
HARNESS(reach_n4d1_k2) { build<float, 4, 1>(kG, 3, kd::CYCLE, 1, 2, false); }
HARNESS(reach_n4d1_k3) { build<float, 4, 1>(kG, 3, kd::CYCLE, 1, 3, false); }
HARNESS(reach_n4d2_k2) { build<float, 4, 2>(kB, 2, kd::CYCLE, 1, 2, false); }
HARNESS(reach_n3d1_k5) { build<float, 3, 1>(kF, 4, kd::CYCLE, 1, 5, false); }
HARNESS(reach_cloud_n10d2_k3) { build<float, 10, 2>(kC, 3, kd::CYCLE, 1, 3, false, 9); }
HARNESS(minimal_n4d1_k2) { build<float, 4, 1>(kF, 4, kd::CYCLE, 1, 2, true); }
HARNESS(minimal_n4d1_k3) { build<float, 4, 1>(kF, 4, kd::CYCLE, 1, 3, true); }
HARNESS(minimal_cloud_n8d2_k4) { build<float, 8, 2>(kC, 3, kd::CYCLE, 1, 4, true, 7); }
HARNESS(minimal_cloud_n12d2_k5) { build<float, 12, 2>(kC, 3, kd::CYCLE, 2, 5, true, 11); }
HARNESS(minimal_cloud2_n12d2_k5) { build<float, 12, 2>(kC, 3, kd::CYCLE, 2, 5, true, 10); }
HARNESS(minimal_n6d1_k3) { build<float, 6, 1>(kF, 4, kd::CYCLE, 1, 3, true); }
HARNESS(minimal_n6d2_k3) { build<float, 6, 2>(kF, 4, kd::CYCLE, 1, 3, true); }
HARNESS(minimal_n8d2_k4) { build<float, 8, 2>(kF, 4, kd::CYCLE, 1, 4, true); }
HARNESS(minimal_n5d2_k2) { build<float, 5, 2>(kF, 4, kd::CYCLE, 1, 2, true); }
HARNESS(tree_n5d1_wide) { build<float, 5, 1>(kG, 3, kd::CYCLE, 1, 1, true); }
HARNESS(tree_n4d2_wide) { build<float, 4, 2>(kG, 3, kd::CYCLE, 1, 1, true); }
HARNESS(tree_n6d1) { build<float, 6, 1>(kG, 2, kd::CYCLE, 1, 1, true); }
HARNESS(tree_cloud_n12d2) { build<float, 12, 2>(kC, 3, kd::CYCLE, 1, 1, true, 10); }
HARNESS(tree_cloud_n30d2) { build<float, 30, 2>(kC, 3, kd::CYCLE, 2, 1, true, 29); }
HARNESS(core_n3d1) { core<3, 1>(kF, 4, 1); }
HARNESS(core_n4d1) { core<4, 1>(kG, 3, 1); }
HARNESS(core_n3d2) { core<3, 2>(kB, 2, 1); }
HARNESS(core_cloud_n12d2) { core<12, 2>(kC, 3, 2, 11); }
HARNESS(tree_wide_n12d5) { build<float, 12, 5>(kC, 3, kd::CYCLE, 1, 1, true, 12); }
HARNESS(tree_wide_n20d9) { build<float, 20, 9>(kC, 3, kd::SPREAD, 2, 1, true, 20); }
HARNESS(minimal_wide_n12d5_k3) { build<float, 12, 5>(kC, 3, kd::CYCLE, 1, 3, true, 12); }
HARNESS(minimal_wide_n20d3_k7) { build<float, 20, 3>(kC, 3, kd::CYCLE, 2, 7, true, 20); }
HARNESS(core_wide_n14d5) { core<14, 5>(kC, 3, 1, 14); }
HARNESS(core_wide_n24d2) { core<24, 2>(kC, 3, 3, 24); }

// integer samples: Manhattan distances, a type without an infinity
static const int kI[] = {-3, 0, 1, 5};
static const unsigned kU[] = {0u, 3u, 4u, 9u};
HARNESS(tree_i32_n3d1) { build<int, 3, 1>(kI, 4, kd::CYCLE, 1, 1, true); }
HARNESS(tree_i32_n4d2) { build<int, 4, 2>(kI, 2, kd::CYCLE, 1, 1, true); }
HARNESS(tree_u32_n4d1) { build<unsigned, 4, 1>(kU, 3, kd::CYCLE, 1, 1, true); }
HARNESS(tree_i32_cloud_n12d2) { build<int, 12, 2>(kI, 4, kd::CYCLE, 2, 1, true, 11); }
HARNESS(tree_u32_cloud_n16d2) { build<unsigned, 16, 2>(kU, 4, kd::SPREAD, 1, 1, true, 15); }
HARNESS(minimal_i32_n4d1_k2) { build<int, 4, 1>(kI, 3, kd::CYCLE, 1, 2, true); }
HARNESS(minimal_i32_cloud_n10d2_k3) { build<int, 10, 2>(kI, 4, kd::CYCLE, 1, 3, true, 9); }
HARNESS(minimal_u32_cloud_n12d2_k4) { build<unsigned, 12, 2>(kU, 4, kd::CYCLE, 2, 4, true, 11); }
HARNESS(core_i32_n4d1) { core<4, 1>(kI, 3, 1); }
HARNESS(core_u32_cloud_n12d2) { core<12, 2>(kU, 4, 2, 11); }
