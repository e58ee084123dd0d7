#include "kd_oracle.hpp"
namespace search = ffcl::search;

static const float kF[] = {-3.f, 0.f, 1.f, 2.5f};
static const float kG[] = {-3.f, 0.f, 1.f};

template <typename T, std::size_t N, std::size_t D>
static void run(std::vector<T>& s, std::vector<T>& q, int axis, std::size_t bucket, std::size_t depth, std::size_t k) {
    std::vector<std::size_t> ix(N);
    for (std::size_t i = 0; i < N; ++i) ix[i] = i;
    const auto searcher = search::Searcher(kd::Tree<T>(ix.begin(), ix.end(), s.begin(), s.end(), D, kd::options<T>(axis, bucket, depth)));
    const auto b = searcher(search::buffer::Unsorted(q.begin(), q.end(), k));
    std::array<int, N> all;
    all.fill(1);
    search_oracle<T, N, D>(s, q, k, all, b);
}
template <typename T, std::size_t N, std::size_t D, typename Table>
static void check(const Table& table, int axis, std::size_t bucket, std::size_t depth, std::size_t kmax) {
    std::vector<T> s(N * D), q(D);
    for (auto& v : s) v = sx::pick("value", table);
    for (auto& v : q) v = sx::pick("query", table);
    const std::size_t k = 1 + sx_concretize(sx_choice("k", kmax));
    run<T, N, D>(s, q, axis, bucket, depth, k);
}
// larger trees: a fixed cloud, F free samples and a free query on a finer grid
template <std::size_t F>
static void mixed(int axis, std::size_t bucket, std::size_t kmax) {
    static const float fixed[] = {0, 0, 1, 4, 2, 1, 4, 4, 5, 0, 3, 3, 0, 2, 4, 1, 2, 5};
    static const float t[] = {0.f, 2.f, 4.f}, u[] = {-1.f, 2.f, 3.5f};
    constexpr std::size_t N = 9 + F;
    std::vector<float> s(fixed, fixed + 18), q(2);
    for (std::size_t i = 0; i < 2 * F; ++i) s.push_back(sx::pick("value", t));
    for (auto& v : q) v = sx::pick("query", u);
    const std::size_t k = 1 + sx_concretize(sx_choice("k", kmax));
    run<float, N, 2>(s, q, axis, bucket, 8, k);
}
// larger trees, most of the samples fixed, the tree indexes only part of the dataset
template <std::size_t N, std::size_t D, std::size_t FIXED>
static void cloud(int axis, std::size_t bucket, std::size_t kmax, std::size_t skip) {
    static const float t[] = {-2.f, 1.f, 4.f}, u[] = {-3.f, 1.f, 2.5f, 7.f};
    std::vector<float> s(N * D), q(D);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = i / D < FIXED ? kd::cloud(i / D, i % D) : sx::pick("value", t);
    for (auto& v : q) v = sx::pick("query", u);
    const std::size_t k = 1 + 3 * sx_concretize(sx_choice("k", kmax));
    std::vector<std::size_t> ix;
    std::array<int, N> el;
    for (std::size_t i = 0; i < N; ++i) { el[i] = (skip == 0) || (i % skip != 1); if (el[i]) ix.push_back(i); }
    const auto searcher = search::Searcher(kd::Tree<float>(ix.begin(), ix.end(), s.begin(), s.end(), D, kd::options<float>(axis, bucket, kd::DEFAULT_DEPTH)));
    search_oracle<float, N, D>(s, q, k, el, searcher(search::buffer::Unsorted(q.begin(), q.end(), k)));
}
HARNESS(knn_cloud_n20d2) { cloud<20, 2, 19>(kd::CYCLE, 1, 3, 0); }
HARNESS(knn_cloud_subset_n20d3) { cloud<20, 3, 20>(kd::SPREAD, 2, 2, 3); }
HARNESS(knn_cloud_n48d2) { cloud<48, 2, 47>(kd::CYCLE, 4, 3, 0); }
// several queries at once
HARNESS(knn_batch_n4d1) {
    std::vector<float> s(4), q(3);
    for (auto& v : s) v = sx::pick("value", kG);
    q[0] = sx::pick("query", kG); q[1] = 0.5f; q[2] = -4.f;
    std::vector<std::size_t> ix{0, 1, 2, 3};
    const auto searcher = search::Searcher(kd::Tree<float>(ix.begin(), ix.end(), s.begin(), s.end(), 1, kd::options<float>(kd::CYCLE, 1, 8)));
    using Buffer = search::buffer::Unsorted<std::vector<float>::iterator>;
    std::vector<Buffer> batch;
    for (std::size_t i = 0; i < 3; ++i) batch.emplace_back(q.begin() + i, q.begin() + i + 1, i + 1);
    const auto out = searcher(std::move(batch));
    sx_assert(out.size() == 3, "batch: one result per query");
    std::array<int, 4> all;
    all.fill(1);
    for (std::size_t i = 0; i < 3; ++i) search_oracle<float, 4, 1>(s, {q[i]}, i + 1, all, out[i]);
}
// many dimensions, larger k
template <std::size_t N, std::size_t D>
static void wide(int axis, std::size_t bucket) {
    static const std::size_t ks[] = {1, 2, 5, 9, 13};
    static const float t[] = {-3.f, 0.f, 2.f};
    std::vector<float> s(N * D), q(D);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = kd::wide(i / D, i % D);
    s[(N / 2) * D + D - 1] = sx::pick("value", t);
    kd::wide_query(q, D);
    run<float, N, D>(s, q, axis, bucket, kd::DEFAULT_DEPTH, ks[sx_concretize(sx_choice("k", 5))]);
}
HARNESS(knn_wide_n14d5) { wide<14, 5>(kd::CYCLE, 1); }
HARNESS(knn_wide_n18d9) { wide<18, 9>(kd::SPREAD, 2); }
HARNESS(knn_n4d1) { check<float, 4, 1>(kF, kd::CYCLE, 1, 8, 3); }
HARNESS(knn_n5d1) { check<float, 5, 1>(kF, kd::CYCLE, 1, 8, 2); }
HARNESS(knn_n3d2) { check<float, 3, 2>(kG, kd::CYCLE, 1, 8, 2); }
HARNESS(knn_n4d2) { check<float, 4, 2>(kG, kd::CYCLE, 1, 8, 1); }
HARNESS(knn_bucket2_n5d1) { check<float, 5, 1>(kG, kd::SPREAD, 2, 8, 5); }
HARNESS(knn_k_above_n) { check<float, 3, 1>(kF, kd::CYCLE, 1, 8, 4); }
HARNESS(knn_depth1_n5d1) { check<float, 5, 1>(kG, kd::CYCLE, 1, 1, 2); }
HARNESS(knn_variance_n4d2) { static const float h[] = {0.f, 1.f}; check<float, 4, 2>(h, kd::VARIANCE, 1, 8, 1); }
HARNESS(knn_mixed_cycle) { mixed<1>(kd::CYCLE, 1, 4); }
HARNESS(knn_mixed_spread) { mixed<1>(kd::SPREAD, 2, 4); }
HARNESS(knn_double) { static const double t[] = {-1.0, 0.25, 0.5}; check<double, 4, 1>(t, kd::CYCLE, 1, 8, 2); }

// values closer together than the machine epsilon, distances still exactly comparable in double
HARNESS(knn_tiny_n4d1) { static const double k[] = {0.0, 0x1p-55, 0x1p-54, 1.0}; check<double, 4, 1>(k, kd::CYCLE, 1, 8, 2); }
// integer data
HARNESS(knn_int_n4d1) { static const int t[] = {-7, 0, 2, 5}; check<int, 4, 1>(t, kd::CYCLE, 1, 8, 3); }

// unsigned samples: differences must not wrap around
HARNESS(knn_u32_n4d1) { static const unsigned t[] = {0u, 2u, 5u, 4000000000u}; check<unsigned, 4, 1>(t, kd::CYCLE, 1, 8, 2); }
HARNESS(knn_u32_n3d2) { static const unsigned t[] = {0u, 2u, 5u}; check<unsigned, 3, 2>(t, kd::CYCLE, 1, 8, 2); }
HARNESS(knn_u64_n4d1) { static const uint64_t t[] = {0u, 2u, 5u, 7u}; check<uint64_t, 4, 1>(t, kd::SPREAD, 1, 8, 2); }
HARNESS(knn_i32_n3d2) { static const int t[] = {-7, 0, 2}; check<int, 3, 2>(t, kd::SPREAD, 1, 8, 2); }
template <typename T>
static void knn_cloud_of(int axis, std::size_t bucket) {
    constexpr std::size_t N = 20;
    static const T u[] = {T(0), T(3), T(6), T(12)};
    std::vector<T> s(N * 2), q(2);
    for (std::size_t i = 0; i < N * 2; ++i) s[i] = kd::cloud_of<T>(i / 2, i % 2);
    for (auto& v : q) v = sx::pick("query", u);
    run<T, N, 2>(s, q, axis, bucket, kd::DEFAULT_DEPTH, 1 + 2 * sx_concretize(sx_choice("k", 3)));
}
HARNESS(knn_u32_cloud_n20d2) { knn_cloud_of<unsigned>(kd::CYCLE, 1); }
HARNESS(knn_u64_cloud_n20d2) { knn_cloud_of<uint64_t>(kd::SPREAD, 2); }
HARNESS(knn_i32_cloud_n20d2) { knn_cloud_of<int>(kd::SPREAD, 1); }
