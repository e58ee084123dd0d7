#include "sx_random.hpp"
#include "sx_rt.hpp"
#include "ffcl/common/math/random/Sampling.hpp"
#include "ffcl/common/math/random/VosesAliasMethod.hpp"
#include "ffcl/kmeans/KMeansPlusPlus.hpp"
namespace rnd = ffcl::common::math::random;

static const float kF[] = {-5.f, -3.f, -0.5f};
static const float kG[] = {-2.f, 0.f, 3.f};
static const int kI[] = {-6, -2, 3};

// the n-th element of a set of distinct elements at any place
template <std::size_t N>
static void subset() {
    std::vector<int> v(N);
    for (std::size_t i = 0; i < N; ++i) v[i] = 10 + 3 * (int)i;
    const std::size_t n = sx_concretize(sx_choice("n", N > 8 ? 3 : N + 1));   // of long ranges one or two elements
    const auto r = rnd::select_n_elements(v.begin(), v.end(), n);
    sx_assert(r.size() == n, "selection: as many elements as asked for");
    std::array<int, N> in{};
    int ok = 1;
    for (auto x : r) for (std::size_t i = 0; i < N; ++i) in[i] += x == v[i];
    int total = 0;
    for (auto x : in) { ok &= x <= 1; total += x; }
    sx_assert(ok, "selection: no element twice");
    sx_assert(total == (int)n, "selection: only elements of the range");
    const auto q = rnd::make_n_elements_from_interval<std::size_t>(n, {4, 4 + N});
    sx_assert(q.size() == n, "interval selection: as many values as asked for");
    ok = 1;
    for (std::size_t i = 0; i < q.size(); ++i) { ok &= (q[i] >= 4) & (q[i] < 4 + N); for (std::size_t j = 0; j < i; ++j) ok &= q[i] != q[j]; }
    sx_assert(ok, "interval selection: distinct values of the interval");
    if (n) {
        sx_possible(in[0], "selection: may hold the first element");
        sx_possible(in[N - 1], "selection: may hold the last element");
        sx_possible(in[N / 2], "selection: may hold the middle element");
        sx_possible(!in[0], "selection: may miss the first element");
        sx_possible(q[0] == 4 + N - 1, "interval selection: may start with the last value");
        sx_possible(q[0] == 4, "interval selection: may start with the first value");
    }
    if (n == 1) {
        sx_possible(in[0], "selection of one: may be the first element");
        sx_possible(in[1], "selection of one: may be the second element");
        sx_possible(in[N - 1], "selection of one: may be the last element");
    }
    if (N == 4 && n == 2) {
        static const char* const pairs[] = {"selection of two: may be the first and second", "selection of two: may be the first and third", "selection of two: may be the first and last",
                                            "selection of two: may be the second and third", "selection of two: may be the second and last", "selection of two: may be the third and last"};
        std::size_t p = 0;
        for (std::size_t i = 0; i < N; ++i) for (std::size_t j = i + 1; j < N; ++j) sx_possible(in[i] & in[j], pairs[p++]);
    }
    if (n == N - 1) sx_possible(!in[N - 1], "selection of all but one: may miss the last element");
    if (n == N) sx_possible(r[N - 1] == v[0], "selection of all: any order");
    for (auto x : r) sx::emit(x);
    sx_reach("subset");
}
template <typename T>
static int row_of(const std::vector<T>& s, std::size_t d, const T* row, std::size_t i) {
    int same = 1;
    for (std::size_t f = 0; f < d; ++f) same &= s[i * d + f] == row[f];
    return same;
}
// samples drawn from a dataset
template <typename T, std::size_t N, std::size_t D>
static void samples(const T* table, uint32_t m) {
    std::vector<T> s(N * D);
    for (auto& v : s) v = sx::pick_n("value", table, m);
    for (std::size_t i = 0; i < N; ++i) s[i * D] = (T)(10 * (int)i);   // distinct rows: which sample a row came from is visible
    const auto one = rnd::select_random_sample(s.begin(), s.end(), D);
    sx_assert(one.size() == D, "random sample: one row");
    int some = 0;
    for (std::size_t i = 0; i < N; ++i) some |= row_of(s, D, one.data(), i);
    sx_assert(some, "random sample: a sample of the dataset");
    sx_possible(row_of(s, D, one.data(), 0), "random sample: may be the first");
    sx_possible(row_of(s, D, one.data(), N - 1), "random sample: may be the last");
    const std::size_t n = sx_concretize(sx_choice("n", N + 2));
    auto distinct = [&](const std::vector<T>& rows, std::size_t want) {
        sx_assert(rows.size() == want * D, "random samples: as many rows as asked for");
        int ok = 1, total = 0;
        for (std::size_t i = 0; i < N; ++i) { int c = 0; for (std::size_t j = 0; j < want; ++j) c += row_of(s, D, &rows[j * D], i); ok &= c <= 1; total += c; }
        sx_assert(ok & (total == (int)want), "random samples: distinct samples of the dataset");
        if (want == 1) {
            sx_possible(row_of(s, D, rows.data(), 0), "random samples: the only one may be the first");
            sx_possible(row_of(s, D, rows.data(), N - 1), "random samples: the only one may be the last");
        }
    };
    const std::size_t which = sx_concretize(sx_choice("which", 2));
    if (which) distinct(rnd::select_n_random_samples(s.begin(), s.end(), D, n), n < N ? n : N);
    else if (n <= N) distinct(rnd::init_uniform(s.begin(), s.end(), D, n), n);
    sx_reach("samples");
}
template <typename T, std::size_t N, std::size_t D>
static void samples_from_indices() {
    std::vector<T> s(N * D);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = (T)(3 * (int)i - 4);
    std::vector<std::size_t> ix;
    for (std::size_t i = 0; i < N; ++i) if (sx_concretize(sx_choice("in", 2))) ix.push_back(N - 1 - i);
    const std::size_t n = sx_concretize(sx_choice("n", N + 1));
    const auto rows = rnd::select_n_random_samples_from_indices(ix.begin(), ix.end(), s.begin(), s.end(), D, n);
    const std::size_t want = n < ix.size() ? n : ix.size();
    sx_assert(rows.size() == want * D, "samples of an index list: as many rows as asked for, at most all");
    int ok = 1, total = 0;
    for (auto i : ix) { int c = 0; for (std::size_t j = 0; j < want; ++j) c += row_of(s, D, &rows[j * D], i); ok &= c <= 1; total += c; }
    sx_assert(ok & (total == (int)want), "samples of an index list: distinct samples of the list");
    if (want == 1 && ix.size() == 2) {
        sx_possible(row_of(s, D, rows.data(), ix[0]), "samples of an index list: one of two may be the first");
        sx_possible(row_of(s, D, rows.data(), ix[1]), "samples of an index list: one of two may be the second");
    }
    sx_reach("samples from indices");
}
template <typename T, std::size_t N, std::size_t D>
static void spatial(const T* table, uint32_t m) {
    std::vector<T> s(N * D);
    for (auto& v : s) v = sx::pick_n("value", table, m);
    const std::size_t k = sx_concretize(sx_choice("k", 3));
    const auto c = rnd::init_spatial_uniform(s.begin(), s.end(), D, k);
    sx_assert(c.size() == k * D, "spatial initialisation: one row per centroid");
    int ok = 1;
    for (std::size_t f = 0; f < D; ++f) {
        double lo = (double)s[f], hi = lo;
        for (std::size_t i = 0; i < N; ++i) { const double x = (double)s[i * D + f]; lo = x < lo ? x : lo; hi = x > hi ? x : hi; }
        for (std::size_t j = 0; j < k; ++j) ok &= ((double)c[j * D + f] >= lo - 1e-5) & ((double)c[j * D + f] <= hi + 1e-5);
        if (k) { sx_possible((lo < hi) & ((double)c[f] * 2 > lo + hi), "spatial initialisation: may lie in the upper half"); sx_possible((lo < hi) & ((double)c[f] * 2 < lo + hi), "spatial initialisation: may lie in the lower half"); }
    }
    sx_assert(ok, "spatial initialisation: within the extent of the samples");
    sx_reach("spatial");
}
// weighted draws: in range, never of weight zero, every positive weight possible
template <typename T, std::size_t N>
static void weighted(const T* table, uint32_t m, std::size_t fixed = 0) {
    std::vector<T> w(N);
    for (std::size_t i = 0; i < N; ++i) w[i] = i < fixed ? (T)((i * 5 + 3) % 4) : sx::pick_n("weight", table, m);
    double total = 0;
    for (auto v : w) total += (double)v;
    rnd::VosesAliasMethod<T> a(w);
    const std::size_t r = a();
    sx_assert(r < N, "weighted draw: an index of the weights");
    sx_assert(((double)w[r] > 0) | (total == 0), "weighted draw: never an element of weight zero");
    if (!fixed) for (std::size_t i = 0; i < N; ++i) {
        static const char* const lab[] = {"weighted draw: may be element 0", "weighted draw: may be element 1", "weighted draw: may be element 2", "weighted draw: may be element 3", "weighted draw: may be element 4"};
        sx_possible(r == i, lab[i]);
    }
    sx::emit(r);
    sx_reach("weighted");
}
// the exact distribution: both uniform draws run over the same grid of midpoints, so every index has to come out in
// proportion to its weight (weights sum to a multiple of the number of weights: all intermediate values are exact)
template <typename T, std::size_t N, std::size_t G>
static void proportional(unsigned total, std::size_t fixed = 0) {
    std::vector<T> w(N);
    unsigned left = total;
    for (std::size_t i = 0; i + 1 < N; ++i) {
        if (i < fixed) { const unsigned x = (i * 5 + 3) % 4; left -= x; w[i] = (T)x; continue; } const unsigned x = (unsigned)sx_concretize(sx_choice("weight", total + 1)); sx_assume(x <= left); left -= x; w[i] = (T)x; }
    w[N - 1] = (T)left;
    rnd::VosesAliasMethod<T> a(w);
    std::array<std::size_t, N> count{};
    int draws = 1;
    for (std::size_t i = 0; i < G; ++i)
        for (std::size_t j = 0; j < G; ++j) {
            const double u[2] = {((double)i + 0.5) / G, ((double)j + 0.5) / G};
            std::sx_script = u; std::sx_scripted = 0;
            const std::size_t r = a();
            draws &= std::sx_scripted <= 2;
            std::sx_script = nullptr;
            sx_assert(r < N, "weighted draw: an index of the weights");
            ++count[r];
        }
    int ok = 1;
    for (std::size_t i = 0; i < N; ++i) ok &= count[i] * total == (std::size_t)w[i] * G * G;
    sx_assert(ok | !draws, "weighted draw: each index with probability proportional to its weight");
    for (auto c : count) sx::emit(c);
    sx_reach("proportional");
}
// k-means++: every centroid is a sample, and a sample already chosen is not chosen again while others remain
template <std::size_t N, std::size_t D, typename T>
static void plus_plus(std::size_t k, const T* table, uint32_t m, bool previous) {
    std::vector<T> s(N * D);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = N > 4 && i < (N - 1) * D ? (T)((int)((i * 7 + i / D) % 11) - (std::is_unsigned_v<T> ? 0 : 4)) : sx::pick_n("value", table, m);
    const auto c = previous ? ffcl::kmeansplusplus::make_centroids_from_previous_centroid(s.begin(), s.end(), D, k) : ffcl::kmeansplusplus::make_centroids(s.begin(), s.end(), D, k);
    sx_assert(c.size() == k * D, "k-means++: one row per centroid");
    for (std::size_t j = 0; j < k; ++j) {
        int some = 0;
        for (std::size_t i = 0; i < N; ++i) some |= row_of(s, D, &c[j * D], i);
        sx_assert(some, "k-means++: every centroid is a sample");
    }
    for (std::size_t j = 1; j < k; ++j) {
        int other = 0, repeated = 0;   // is there a sample that is none of the earlier centroids?
        for (std::size_t i = 0; i < N; ++i) { int used = 0; for (std::size_t e = previous ? j - 1 : 0; e < j; ++e) used |= row_of(s, D, &c[e * D], i); other |= !used; }
        for (std::size_t e = previous ? j - 1 : 0; e < j; ++e) { int same = 1; for (std::size_t f = 0; f < D; ++f) same &= c[e * D + f] == c[j * D + f]; repeated |= same; }
        sx_assert(!(other & repeated), "k-means++: no centroid twice while other samples remain");
    }
    sx_possible(row_of(s, D, c.data(), N - 1), "k-means++: the last sample may come first");
    for (auto v : c) sx::emit(v);
    sx_reach("plus plus");
}
static const float kW[] = {0.f, 1.f, 2.5f};
static const int kWi[] = {0, 1, 5};
static const double kWd[] = {0.0, 0.1, 0.7, 3.0};
HARNESS(subset_n3) { subset<3>(); }
HARNESS(subset_n4) { subset<4>(); }
HARNESS(subset_n5) { subset<5>(); }
HARNESS(samples_f32_n3d2) { samples<float, 3, 2>(kG, 3); }
HARNESS(samples_i32_n4d1) { samples<int, 4, 1>(kI, 3); }
HARNESS(samples_from_indices_n4d2) { samples_from_indices<float, 4, 2>(); }
HARNESS(spatial_f32_n2d2) { spatial<float, 2, 2>(kF, 3); }
HARNESS(spatial_f32_n3d1) { spatial<float, 3, 1>(kG, 3); }
HARNESS(spatial_i32_n2d2) { spatial<int, 2, 2>(kI, 3); }
HARNESS(weighted_f32_n3) { weighted<float, 3>(kW, 3); }
HARNESS(weighted_f32_n4) { weighted<float, 4>(kW, 3); }
HARNESS(weighted_f32_n5) { weighted<float, 5>(kW, 2); }
HARNESS(weighted_i32_n3) { weighted<int, 3>(kWi, 3); }
HARNESS(weighted_f64_n3) { weighted<double, 3>(kWd, 4); }
HARNESS(proportional_f32_n4) { proportional<float, 4, 16>(8); }
HARNESS(proportional_f32_n3) { proportional<float, 3, 12>(6); }
HARNESS(proportional_i32_n4) { proportional<int, 4, 16>(4); }
HARNESS(proportional_f64_n5) { proportional<double, 5, 20>(5); }
HARNESS(plus_plus_n3d1_k2) { plus_plus<3, 1>(2, kG, 3, false); }
HARNESS(plus_plus_n4d1_k3) { plus_plus<4, 1>(3, kG, 2, false); }
HARNESS(plus_plus_n3d1_k3) { plus_plus<3, 1>(3, kG, 3, false); }
HARNESS(plus_plus_n3d2_k2) { plus_plus<3, 2>(2, kG, 2, false); }
HARNESS(previous_n3d1_k3) { plus_plus<3, 1>(3, kG, 3, true); }
HARNESS(subset_n10) { subset<10>(); }
HARNESS(weighted_f32_n12) { weighted<float, 12>(kW, 3, 10); }
HARNESS(weighted_f64_n20) { weighted<double, 20>(kWd, 4, 19); }
HARNESS(proportional_f32_n8) { proportional<float, 8, 16>(16, 5); }
HARNESS(proportional_f64_n16) { proportional<double, 16, 32>(32, 13); }
HARNESS(plus_plus_n8d2_k3) { plus_plus<8, 2>(3, kG, 2, false); }
HARNESS(plus_plus_n12d1_k2) { plus_plus<12, 1>(2, kG, 3, false); }
HARNESS(plus_plus_n6d5_k2) { plus_plus<6, 5>(2, kG, 2, false); }
HARNESS(previous_n8d2_k3) { plus_plus<8, 2>(3, kG, 2, true); }
static const std::uint32_t kU[] = {0, 3, 7};
HARNESS(plus_plus_i32_n3d1_k2) { plus_plus<3, 1>(2, kI, 3, false); }
HARNESS(plus_plus_u32_n3d1_k2) { plus_plus<3, 1>(2, kU, 3, false); }
HARNESS(plus_plus_i32_n8d2_k3) { plus_plus<8, 2>(3, kI, 2, false); }
HARNESS(previous_u32_n3d1_k3) { plus_plus<3, 1>(3, kU, 3, true); }
HARNESS(weighted_u32_n3) { static const std::uint32_t w[] = {0, 1, 5}; weighted<std::uint32_t, 3>(w, 3); }
HARNESS(proportional_u32_n4) { proportional<std::uint32_t, 4, 16>(4); }
HARNESS(spatial_u32_n2d2) { spatial<std::uint32_t, 2, 2>(kU, 3); }
HARNESS(samples_u32_n4d1) { samples<std::uint32_t, 4, 1>(kU, 3); }
