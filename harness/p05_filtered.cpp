#include "kd_oracle.hpp"
#include "ffcl/datastruct/UnionFind.hpp"
namespace search = ffcl::search;

static const float kG[] = {-3.f, 0.f, 1.f};
static const float kF[] = {-3.f, 0.f, 1.f, 2.5f};

template <std::size_t N, std::size_t D, typename Table>
static void memory(const Table& table, int axis, std::size_t bucket, std::size_t kmax, bool by_reference, std::size_t fixed = 0) {
    using T = std::remove_cv_t<std::remove_extent_t<Table>>;
    std::vector<T> s(N * D), q(D);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = i / D < fixed ? kd::cloud_of<T>(i / D, i % D) : sx::pick("value", table);
    for (auto& v : q) v = sx::pick("query", table);
    std::unordered_set<std::size_t> visited;
    std::array<int, N> el;
    for (std::size_t i = 0; i < N; ++i) {
        el[i] = fixed ? (i % 3 != 1) : !(int)sx_concretize(sx_choice("visited", 2));
        if (!el[i]) visited.insert(i);
    }
    const std::size_t k = 1 + sx_concretize(sx_choice("k", kmax));
    std::vector<std::size_t> ix(N);
    for (std::size_t i = 0; i < N; ++i) ix[i] = i;
    const auto searcher = search::Searcher(kd::Tree<T>(ix.begin(), ix.end(), s.begin(), s.end(), D, kd::options<T>(axis, bucket, 8)));
    if (by_reference) search_oracle<T, N, D>(s, q, k, el, searcher(search::buffer::WithMemory(q.begin(), q.end(), std::as_const(visited), k)));
    else search_oracle<T, N, D>(s, q, k, el, searcher(search::buffer::WithMemory(q.begin(), q.end(), std::unordered_set<std::size_t>(visited), k)));
}
template <std::size_t N, std::size_t D, typename Table>
static void components(const Table& table, int axis, std::size_t bucket, std::size_t kmax, std::size_t merges, std::size_t fixed = 0) {
    using T = std::remove_cv_t<std::remove_extent_t<Table>>;
    std::vector<T> s(N * D), q(D);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = i / D < fixed ? kd::cloud_of<T>(i / D, i % D) : sx::pick("value", table);
    std::vector<std::size_t> ix(N);
    for (std::size_t i = 0; i < N; ++i) ix[i] = i;
    ffcl::datastruct::UnionFind<std::size_t> uf(N);
    std::array<int, N> group;
    for (std::size_t i = 0; i < N; ++i) group[i] = i;
    for (std::size_t m = 0; m < merges; ++m) {
        const std::size_t a = fixed ? 4 * (m % 5) + m / 5 : sx_concretize(sx_choice("merge_a", N)), b = fixed ? (a + 4) % N : sx_concretize(sx_choice("merge_b", N));
        uf.merge(a, b);
        const int ga = group[a], gb = group[b];
        for (std::size_t i = 0; i < N; ++i) if (group[i] == gb) group[i] = ga;
    }
    const std::size_t query = sx_concretize(sx_choice("query_sample", N));
    for (std::size_t f = 0; f < D; ++f) q[f] = s[query * D + f];
    std::array<int, N> el;
    for (std::size_t i = 0; i < N; ++i) el[i] = group[i] != group[query];
    const std::size_t k = 1 + sx_concretize(sx_choice("k", kmax));
    const auto searcher = search::Searcher(kd::Tree<T>(ix.begin(), ix.end(), s.begin(), s.end(), D, kd::options<T>(axis, bucket, 8)));
    search_oracle<T, N, D>(s, q, k, el, searcher(search::buffer::WithUnionFind(q.begin(), q.end(), uf, sx_concretize(sx_choice("named by", 2)) ? query : uf.find(query), k)));
}
HARNESS(memory_ref_n4d1) { memory<4, 1>(kF, kd::CYCLE, 1, 3, true); }
HARNESS(memory_ref_n3d2) { memory<3, 2>(kG, kd::CYCLE, 1, 2, true); }
HARNESS(memory_owned_n3d1) { memory<3, 1>(kG, kd::CYCLE, 1, 2, false); }
HARNESS(union_find_n4d1) { components<4, 1>(kG, kd::CYCLE, 1, 2, 2); }
HARNESS(union_find_n3d2) { components<3, 2>(kG, kd::CYCLE, 1, 2, 1); }

// larger trees, most of the samples fixed
HARNESS(memory_cloud_n20d2) { memory<20, 2>(kG, kd::CYCLE, 1, 4, true, 19); }
HARNESS(memory_owned_cloud_n20d2) { memory<20, 2>(kG, kd::SPREAD, 2, 3, false, 19); }
HARNESS(union_find_cloud_n20d2) { components<20, 2>(kG, kd::CYCLE, 1, 3, 9, 19); }

// many dimensions, larger k
template <std::size_t N, std::size_t D>
static void wide(int axis, std::size_t bucket, bool united) {
    static const std::size_t ks[] = {1, 4, 9};
    std::vector<float> s(N * D), q(D);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = kd::wide(i / D, i % D);
    kd::wide_query(q, D);
    std::vector<std::size_t> ix(N);
    for (std::size_t i = 0; i < N; ++i) ix[i] = i;
    const std::size_t step = 2 + sx_concretize(sx_choice("step", 3)), k = ks[sx_concretize(sx_choice("k", 3))];
    std::array<int, N> el;
    std::unordered_set<std::size_t> visited;
    ffcl::datastruct::UnionFind<std::size_t> uf(N);
    for (std::size_t i = 0; i < N; ++i) {
        el[i] = i % step != 0;
        if (!el[i]) { visited.insert(i); if (i) uf.merge(i, i - step); }
    }
    const auto searcher = search::Searcher(kd::Tree<float>(ix.begin(), ix.end(), s.begin(), s.end(), D, kd::options<float>(axis, bucket, kd::DEFAULT_DEPTH)));
    if (united) search_oracle<float, N, D>(s, q, k, el, searcher(search::buffer::WithUnionFind(q.begin(), q.end(), uf, sx_concretize(sx_choice("named by", 2)) ? step : uf.find(0), k)));
    else search_oracle<float, N, D>(s, q, k, el, searcher(search::buffer::WithMemory(q.begin(), q.end(), std::as_const(visited), k)));
}
HARNESS(memory_wide_n18d5) { wide<18, 5>(kd::CYCLE, 1, false); }
HARNESS(union_find_wide_n18d5) { wide<18, 5>(kd::SPREAD, 2, true); }

// integer samples
static const int kI[] = {-3, 0, 2};
static const unsigned kU[] = {0u, 3u, 4u};
HARNESS(memory_u32_n4d1) { memory<4, 1>(kU, kd::CYCLE, 1, 2, true); }
HARNESS(memory_i32_cloud_n20d2) { memory<20, 2>(kI, kd::CYCLE, 1, 3, true, 20); }
HARNESS(memory_u32_cloud_n20d2) { memory<20, 2>(kU, kd::SPREAD, 2, 3, false, 20); }
HARNESS(union_find_i32_n4d1) { components<4, 1>(kI, kd::CYCLE, 1, 2, 1); }
HARNESS(union_find_u32_cloud_n20d2) { components<20, 2>(kU, kd::CYCLE, 1, 3, 9, 20); }
