#include "sx.hpp"
#include "sx_rt.hpp"
#include "sx_random.hpp"
#include "ffcl/datastruct/UnionFind.hpp"
#include "ffcl/search/ClosestPairOfSamples.hpp" // first: it and Search.hpp include each other
#include "kd_oracle.hpp"
namespace search = ffcl::search;

static const float kG[] = {-3.f, 0.f, 1.f};
static const float kF[] = {-3.f, 0.f, 1.f, 2.5f};

// k-th smallest (1-based) of m values
static double kth(std::vector<double> v, std::size_t k) {
    double r = 0;
    for (std::size_t i = 0; i < v.size(); ++i) {
        std::size_t less = 0, leq = 0;
        for (std::size_t j = 0; j < v.size(); ++j) { less += v[j] < v[i]; leq += v[j] <= v[i]; }
        r = ((less < k) & (k <= leq)) ? v[i] : r;
    }
    return r;
}
// shortest edge between two disjoint sets of samples, with two trees
template <std::size_t Q, std::size_t R, std::size_t D, typename Table>
static void disjoint(const Table& table, int axis, std::size_t bucket, std::size_t k, std::size_t fixed = 0) {
    using T = std::remove_cv_t<std::remove_extent_t<Table>>;
    constexpr std::size_t N = Q + R;
    std::vector<T> s(N * D);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = i / D < fixed ? kd::cloud_of<T>(i / D, i % D) : sx::pick("value", table);
    std::vector<std::size_t> qi(Q), ri(R);
    for (std::size_t i = 0; i < Q; ++i) qi[i] = i;
    for (std::size_t i = 0; i < R; ++i) ri[i] = Q + i;
    const kd::Tree<T> qt(qi.begin(), qi.end(), s.begin(), s.end(), D, kd::options<T>(axis, bucket, 8));
    const auto searcher = search::Searcher(kd::Tree<T>(ri.begin(), ri.end(), s.begin(), s.end(), D, kd::options<T>(axis, bucket, 8)));
    const auto [a, b, d] = searcher.dual_tree_shortest_edge(qt, k);
    sx_assert(a < Q, "dual tree: the edge starts at a query sample");
    sx_assert((b >= Q) & (b < N), "dual tree: the edge ends at a reference sample");
    sx_assert(is_root_of(d, sq_dist(&s[a * D], &s[b * D], D)), "dual tree: the edge length is the distance between its ends");
    std::vector<double> all;
    for (std::size_t i = 0; i < Q; ++i) for (std::size_t j = Q; j < N; ++j) all.push_back(sq_dist(&s[i * D], &s[j * D], D));
    sx_assert(sq_dist(&s[a * D], &s[b * D], D) == kth(all, k), "dual tree: it is the k-th shortest edge between the two sets");
    sx::emit(a); sx::emit(b); sx::emit(d);
    sx_reach("edge");
}
// shortest edge leaving one component of a union-find, reference tree over all the samples
template <std::size_t N, std::size_t D, typename Table>
static void leaving(const Table& table, int axis, std::size_t bucket, std::size_t q_size, std::size_t fixed = 0) {
    using T = std::remove_cv_t<std::remove_extent_t<Table>>;
    std::vector<T> s(N * D);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = i / D < fixed ? kd::cloud_of<T>(i / D, i % D) : sx::pick("value", table);
    ffcl::datastruct::UnionFind<std::size_t> uf(N);
    std::vector<std::size_t> qi, ri(N);
    for (std::size_t i = 0; i < q_size; ++i) { qi.push_back(i); uf.merge(0, i); }
    uf.merge(N - 1, N - 2);
    for (std::size_t i = 0; i < N; ++i) ri[i] = i;
    const kd::Tree<T> qt(qi.begin(), qi.end(), s.begin(), s.end(), D, kd::options<T>(axis, bucket, 8));
    const auto searcher = search::Searcher(kd::Tree<T>(ri.begin(), ri.end(), s.begin(), s.end(), D, kd::options<T>(axis, bucket, 8)));
    const std::size_t rep = uf.find(0), one = 1;
    const auto [a, b, d] = searcher.dual_tree_shortest_edge(qt, uf, rep, one);
    sx_assert((a < q_size) & (b >= q_size) & (b < N), "dual tree: the edge leaves the component");
    sx_assert(is_root_of(d, sq_dist(&s[a * D], &s[b * D], D)), "dual tree: the edge length is the distance between its ends");
    double best = 1e300;
    for (std::size_t i = 0; i < q_size; ++i) for (std::size_t j = q_size; j < N; ++j) { const double e = sq_dist(&s[i * D], &s[j * D], D); best = e < best ? e : best; }
    sx_assert(sq_dist(&s[a * D], &s[b * D], D) == best, "dual tree: it is the shortest edge leaving the component");
    sx::emit(a); sx::emit(b); sx::emit(d);
    sx_reach("edge");
}
HARNESS(disjoint_22_d1) { disjoint<2, 2, 1>(kF, kd::CYCLE, 1, 1); }
HARNESS(disjoint_23_d1) { disjoint<2, 3, 1>(kG, kd::CYCLE, 1, 1); }
HARNESS(disjoint_22_d2) { disjoint<2, 2, 2>(kG, kd::CYCLE, 1, 1); }
HARNESS(disjoint_33_d1) { disjoint<3, 3, 1>(kG, kd::CYCLE, 1, 1); }
HARNESS(disjoint_22_d1_k2) { disjoint<2, 2, 1>(kF, kd::CYCLE, 1, 2); }
HARNESS(leaving_n4d1) { leaving<4, 1>(kF, kd::CYCLE, 1, 2); }
HARNESS(leaving_n5d1) { leaving<5, 1>(kG, kd::CYCLE, 1, 2); }
HARNESS(disjoint_33_d1_k2) { disjoint<3, 3, 1>(kG, kd::CYCLE, 1, 2); }
HARNESS(disjoint_33_d1_k3) { disjoint<3, 3, 1>(kG, kd::CYCLE, 1, 3); }
HARNESS(disjoint_44_d1) { disjoint<4, 4, 1>(kG, kd::CYCLE, 1, 1); }
HARNESS(disjoint_32_d2) { disjoint<3, 2, 2>(kG, kd::CYCLE, 1, 1); }
HARNESS(leaving_n6d1) { leaving<6, 1>(kG, kd::CYCLE, 1, 3); }
HARNESS(leaving_n4d2) { leaving<4, 2>(kG, kd::CYCLE, 1, 2); }

// larger trees, most of the samples fixed; half-integers keep the free sample off the grid
static const float kC[] = {-2.5f, 1.5f, 6.5f};
HARNESS(disjoint_cloud_88_d2) { disjoint<8, 8, 2>(kC, kd::CYCLE, 1, 1, 15); }
HARNESS(disjoint_cloud_88_d2_k3) { disjoint<8, 8, 2>(kC, kd::CYCLE, 2, 3, 15); }
HARNESS(leaving_cloud_n16d2) { leaving<16, 2>(kC, kd::CYCLE, 1, 6, 15); }
HARNESS(leaving_cloud_n24d2) { leaving<24, 2>(kC, kd::SPREAD, 3, 10, 23); }
// lopsided sets: buffers that fill up over several node visits
HARNESS(disjoint_14_d1_k3) { disjoint<1, 4, 1>(kF, kd::CYCLE, 1, 3); }
HARNESS(disjoint_15_d1_k3) { disjoint<1, 5, 1>(kF, kd::CYCLE, 2, 3); }
HARNESS(disjoint_13_d2_k2) { disjoint<1, 3, 2>(kG, kd::CYCLE, 1, 2); }
HARNESS(disjoint_41_d1_k3) { disjoint<4, 1, 1>(kF, kd::CYCLE, 1, 3); }
HARNESS(disjoint_24_d1_k3) { disjoint<2, 4, 1>(kG, kd::CYCLE, 1, 3); }
HARNESS(disjoint_24_d1_k4) { disjoint<2, 4, 1>(kG, kd::CYCLE, 2, 4); }
HARNESS(disjoint_52_d1_k2) { disjoint<5, 2, 1>(kG, kd::CYCLE, 2, 2); }
HARNESS(disjoint_cloud_1_9_d2_k3) { disjoint<1, 9, 2>(kC, kd::SPREAD, 2, 3, 9); }
HARNESS(disjoint_cloud_3_9_d2_k4) { disjoint<3, 9, 2>(kC, kd::CYCLE, 1, 4, 11); }

// many dimensions, longer buffers
template <std::size_t Q, std::size_t R, std::size_t D>
static void disjoint_wide(int axis, std::size_t bucket) {
    static const std::size_t ks[] = {1, 2, 4, 8, 13};
    constexpr std::size_t N = Q + R;
    std::vector<float> s(N * D);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = kd::wide(i / D, i % D);
    const std::size_t at = sx_concretize(sx_choice("coordinate", D));
    s[(Q - 1) * D + at] = sx::pick("value", kC);
    const std::size_t k = ks[sx_concretize(sx_choice("k", 5))];
    std::vector<std::size_t> qi(Q), ri(R);
    for (std::size_t i = 0; i < Q; ++i) qi[i] = i;
    for (std::size_t i = 0; i < R; ++i) ri[i] = Q + i;
    const kd::Tree<float> qt(qi.begin(), qi.end(), s.begin(), s.end(), D, kd::options<float>(axis, bucket, kd::DEFAULT_DEPTH));
    const auto searcher = search::Searcher(kd::Tree<float>(ri.begin(), ri.end(), s.begin(), s.end(), D, kd::options<float>(axis, bucket, kd::DEFAULT_DEPTH)));
    const auto [a, b, d] = searcher.dual_tree_shortest_edge(qt, k);
    sx_assert(a < Q, "dual tree: the edge starts at a query sample");
    sx_assert((b >= Q) & (b < N), "dual tree: the edge ends at a reference sample");
    sx_assert(is_root_of(d, sq_dist(&s[a * D], &s[b * D], D)), "dual tree: the edge length is the distance between its ends");
    const double e = sq_dist(&s[a * D], &s[b * D], D);
    std::size_t less = 0, leq = 0;
    for (std::size_t i = 0; i < Q; ++i) for (std::size_t j = Q; j < N; ++j) { const double x = sq_dist(&s[i * D], &s[j * D], D); less += x < e; leq += x <= e; }
    sx_assert((less < k) & (k <= leq), "dual tree: it is the k-th shortest edge between the two sets");
    sx::emit(a); sx::emit(b); sx::emit(d);
    sx_reach("edge");
}
HARNESS(disjoint_wide_89_d5) { disjoint_wide<8, 9, 5>(kd::CYCLE, 1); }
HARNESS(disjoint_wide_7_13_d9) { disjoint_wide<7, 13, 9>(kd::SPREAD, 2); }

// the closest pair functions, which make their own trees, and the variant named after core distances (it takes none)
enum Through { CORE_VARIANT, CORE_MOVED, SET_EDGE, SET_DISTANCE, SEQUENTIAL, SIMPLE, N_THROUGH };
template <std::size_t Q, std::size_t R, std::size_t D, typename Table>
static void closest_pair(const Table& table, std::size_t bucket, std::size_t fixed = 0, std::size_t ways = N_THROUGH) {
    using T = std::remove_cv_t<std::remove_extent_t<Table>>;
    constexpr std::size_t N = Q + R;
    const auto way = sx_concretize(sx_choice("function", ways));
    std::vector<T> s(N * D);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = i / D < fixed ? kd::cloud_of<T>(i / D, i % D) : sx::pick("value", table);
    std::vector<std::size_t> qi(Q), ri(R);
    for (std::size_t i = 0; i < Q; ++i) qi[i] = i;
    for (std::size_t i = 0; i < R; ++i) ri[i] = Q + i;
    double best = 1e300;
    for (std::size_t i = 0; i < Q; ++i) for (std::size_t j = Q; j < N; ++j) { const double e = sq_dist(&s[i * D], &s[j * D], D); best = e < best ? e : best; }
    const std::size_t k = 1;
    if (way == SET_DISTANCE) {
        const T d = search::algorithms::dual_set_shortest_distance(qi.begin(), qi.end(), s.begin(), s.end(), D, ri.begin(), ri.end(), s.begin(), s.end(), D, k);
        sx_assert(is_root_of(d, best), "closest pair: the distance is that of the closest samples of the two sets");
        sx::emit(d);
        sx_reach("edge");
        return;
    }
    std::size_t a, b;
    T d;
    if (way == SET_EDGE) {
        const auto e = search::algorithms::dual_set_shortest_edge(qi.begin(), qi.end(), s.begin(), s.end(), D, ri.begin(), ri.end(), s.begin(), s.end(), D, k);
        a = std::get<0>(e); b = std::get<1>(e); d = std::get<2>(e);
    } else if (way == SIMPLE) {
        sx_assume(best > 0);   // it passes over pairs at the same place: made for sets that share samples
        const auto e = search::algorithms::simple_dual_set_shortest_edge(qi.begin(), qi.end(), s.begin(), s.end(), D, ri.begin(), ri.end(), s.begin(), s.end(), D);
        a = std::get<0>(e); b = std::get<1>(e); d = std::get<2>(e);
        static const T kInit[] = {T(0.25f), T(1), T(2), T(100)};
        const T at = sx::pick("initial", kInit);
        const auto i = search::algorithms::simple_dual_set_shortest_edge(qi.begin(), qi.end(), s.begin(), s.end(), D, ri.begin(), ri.end(), s.begin(), s.end(), D, ffcl::datastruct::mst::make_edge((std::size_t)77, (std::size_t)78, at));
        const bool kept = std::get<0>(i) == 77;
        sx_assert(kept == !(d < at), "closest pair: an edge already known is only replaced by a shorter one");
        sx_assert(kept ? (std::get<1>(i) == 78) & (std::get<2>(i) == at) : (std::get<0>(i) < Q) & (std::get<1>(i) >= Q) & (std::get<2>(i) == d), "closest pair: the shorter of the known edge and the shortest");
    } else if (way == SEQUENTIAL) {
        ffcl::datastruct::UnionFind<std::size_t> uf(N);
        for (std::size_t i = 1; i < Q; ++i) uf.merge(0, i);
        if (R > 1) uf.merge(N - 1, N - 2);
        const auto e = search::algorithms::sequential_dual_set_shortest_edge(qi.begin(), qi.end(), s.begin(), s.end(), D, ri.begin(), ri.end(), s.begin(), s.end(), D, uf, uf.find(0));
        a = std::get<0>(e); b = std::get<1>(e); d = std::get<2>(e);
    } else {
        kd::Tree<T> qt(qi.begin(), qi.end(), s.begin(), s.end(), D, kd::options<T>(kd::CYCLE, bucket, 8));
        const auto searcher = search::Searcher(kd::Tree<T>(ri.begin(), ri.end(), s.begin(), s.end(), D, kd::options<T>(kd::CYCLE, bucket, 8)));
        const auto e = way == CORE_MOVED ? searcher.dual_tree_shortest_edge_with_core_distances(std::move(qt), k) : searcher.dual_tree_shortest_edge_with_core_distances(qt, k);
        a = std::get<0>(e); b = std::get<1>(e); d = std::get<2>(e);
    }
    sx_assert((a < Q) & (b >= Q) & (b < N), "closest pair: the edge goes from one set to the other");
    sx_assert(is_root_of(d, sq_dist(&s[a * D], &s[b * D], D)), "closest pair: the edge length is the distance between its ends");
    sx_assert(sq_dist(&s[a * D], &s[b * D], D) == best, "closest pair: it is the shortest edge between the two sets");
    sx::emit(a); sx::emit(b); sx::emit(d);
    sx_reach("edge");
}
HARNESS(pair_22_d1) { closest_pair<2, 2, 1>(kG, 1); }
HARNESS(pair_13_d2) { closest_pair<1, 3, 2>(kG, 1); }
HARNESS(pair_32_d1) { closest_pair<3, 2, 1>(kG, 1); }
HARNESS(pair_cloud_33_d2) { closest_pair<3, 3, 2>(kC, 1, 5); }
HARNESS(pair_12_d2) { closest_pair<1, 2, 2>(kG, 1); }
HARNESS(pair_11_d2) { closest_pair<1, 1, 2>(kF, 1); }
HARNESS(pair_cloud_core_88_d2) { closest_pair<8, 8, 2>(kC, 2, 15, 2); }

// integer samples: Manhattan distances, a type without an infinity
static const int kI[] = {-3, 0, 2};
static const unsigned kU[] = {0u, 3u, 4u};
HARNESS(disjoint_i32_22_d2) { disjoint<2, 2, 2>(kI, kd::CYCLE, 1, 1); }
HARNESS(disjoint_i32_33_d1_k3) { disjoint<3, 3, 1>(kI, kd::CYCLE, 1, 3); }
HARNESS(disjoint_u32_24_d1_k2) { disjoint<2, 4, 1>(kU, kd::CYCLE, 1, 2); }
HARNESS(disjoint_u32_cloud_88_d2_k3) { disjoint<8, 8, 2>(kU, kd::SPREAD, 1, 3, 15); }
HARNESS(disjoint_i32_cloud_88_d2) { disjoint<8, 8, 2>(kI, kd::CYCLE, 2, 1, 15); }
HARNESS(leaving_i32_n4d2) { leaving<4, 2>(kI, kd::CYCLE, 1, 2); }
HARNESS(leaving_u32_n5d1) { leaving<5, 1>(kU, kd::CYCLE, 1, 2); }
HARNESS(pair_i32_22_d1) { closest_pair<2, 2, 1>(kI, 1); }
HARNESS(pair_u32_cloud_33_d2) { closest_pair<3, 3, 2>(kU, 1, 5); }
