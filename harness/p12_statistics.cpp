#include "sx.hpp"
#include "sx_rt.hpp"
#include "ffcl/common/math/statistics/Statistics.hpp"
namespace st = ffcl::common::math::statistics;

static const float kF[] = {-2.f, 0.f, 0.5f, 3.f};
static const float kFx[] = {-3.402823466e38f, -1.f, 0.f, 0.f, 2.f};
static const int kI[] = {-7, -1, 0, 4};
static const int kIx[] = {INT32_MIN, -1, 0, 5};
static const unsigned kU[] = {0u, 1u, 7u};
static const double kD[] = {-1.5, 0.0, 0.25};
static const uint8_t kB[] = {0, 3, 255};

template <typename T> static T absolute(T v) { return v < 0 ? -v : v; }
static int close(double a, double b, double scale) { return absolute(a - b) <= 1e-5 * (1.0 + scale); }

template <typename T, std::size_t N>
static void order(const T* table, uint32_t m, std::size_t fixed = 0, bool any_place = false) {
    std::vector<T> v(N);
    for (std::size_t i = 0; i < N; ++i) v[i] = i < fixed ? (T)((i * 5 + 2) % 7) : sx::pick_n("value", table, m);
    if (any_place) v[sx_concretize(sx_choice("place", N))] = sx::pick_n("value", table, m);
    const std::vector<T> before = v;
    const auto lo = st::argmin(v.begin(), v.end());
    const auto hi = st::argmax(v.begin(), v.end());
    const auto [li, lv] = st::get_min_index_value_pair(v.begin(), v.end());
    const auto [hi2, hv] = st::get_max_index_value_pair(v.begin(), v.end());
    T mn = before[0], mx = before[0];
    for (auto x : before) { mn = x < mn ? x : mn; mx = x > mx ? x : mx; }
    sx_assert((lo >= 0) & ((std::size_t)lo < N) & (hi >= 0) & ((std::size_t)hi < N) & (li < N) & (hi2 < N), "extremes: an index of the range");
    sx_assert((before[(std::size_t)lo] == mn) & (before[(std::size_t)hi] == mx), "argmin, argmax: index of the smallest and of the largest value");
    sx_assert((before[li] == mn) & (lv == mn) & (before[hi2] == mx) & (hv == mx), "extreme pairs: index and value of the smallest and of the largest");
    const auto [si, sv] = st::get_second_max_index_value_pair(v.begin(), v.end());
    sx_assert(si < N, "second largest: an index of the range");
    if (N > 1) {
        std::size_t above = 0, equal = 0;
        for (auto x : before) { above += x > sv; equal += x == sv; }
        sx_assert(before[si] == sv, "second largest: the value at the returned index");
        sx_assert((above <= 1) & (above + equal >= 2), "second largest: one other value is at least as large and no two are larger");
        sx_assert(si != hi2, "second largest: another element than the largest");
    } else sx_assert((si == 0) & (sv == before[0]), "second largest of one element: that element");
    int same = 1;
    for (std::size_t i = 0; i < N; ++i) same &= v[i] == before[i];
    sx_assert(same, "second largest: values left as they were");
    const std::size_t n = any_place ? 1 + sx_concretize(sx_choice("n", 3)) * (N - 1) / 2 : 1 + sx_concretize(sx_choice("n", N));
    const auto [ni, nv] = st::find_nth_smallest_index_and_element(v.begin(), v.end(), n);
    sx_assert(ni < N, "n-th smallest: an index of the range");
    std::size_t below = 0, upto = 0;
    for (auto x : before) { below += x < nv; upto += x <= nv; }
    sx_assert((before[ni] == nv) & (below < n) & (upto >= n), "n-th smallest: value and index");
    sx::emit((double)nv);
    sx_reach("order");
}
template <typename T, std::size_t N>
static void many() {   // more values than the value type can count
    std::vector<T> v(N, 1);
    const std::size_t p = sx_concretize(sx_choice("place", 4)) * (N / 4) + 3;
    v[p] = sx::pick("value", kB);
    const auto hi = st::argmax(v.begin(), v.end()), lo = st::argmin(v.begin(), v.end());
    sx_assert(((std::size_t)hi == (v[p] > 1 ? p : 0)) & ((std::size_t)lo == (v[p] < 1 ? p : 0)), "argmin, argmax: exact for long ranges of small integers");
    sx_reach("many");
}
template <typename T, std::size_t N, std::size_t D>
static void moments(const T* table, uint32_t m, std::size_t fixed = 0) {
    std::vector<T> s(N * D);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = i / D < fixed ? (T)((int)((i * 7 + i / 3) % 11) - 4) : sx::pick_n("value", table, m);
    if (fixed == N) s[sx_concretize(sx_choice("place", N * D < 64 ? N * D : 64))] = sx::pick_n("value", table, m);
    const std::vector<T> all = s;
    std::vector<std::size_t> ix;
    if (N > 10) { const std::size_t step = 1 + sx_concretize(sx_choice("step", 3)); for (std::size_t i = 0; i < N; i += step) ix.push_back(N - 1 - i); }
    else for (std::size_t i = 0; i < N; ++i) if (N - i <= 2 || sx_concretize(sx_choice("in", 2))) ix.push_back(N - 1 - i);
    std::vector<std::size_t> every(N); for (std::size_t i = 0; i < N; ++i) every[i] = i;
    const std::vector<std::size_t> mask = D == 1 ? std::vector<std::size_t>{0} : D == 2 ? std::vector<std::size_t>{1} : std::vector<std::size_t>{2, 0};
    const auto mean_all = st::compute_mean_per_feature(s.begin(), s.end(), D);
    const auto mean_ix = st::compute_mean_per_feature(ix.begin(), ix.end(), s.begin(), s.end(), D);
    const auto mean_mask = st::compute_mean_per_feature(ix.begin(), ix.end(), s.begin(), s.end(), D, mask);
    sx_assert((mean_all.size() == D) & (mean_ix.size() == D) & (mean_mask.size() == mask.size()), "mean: one value per selected feature");
    auto sum = [&](const std::vector<std::size_t>& w, std::size_t f) { double a = 0; for (auto i : w) a += (double)s[i * D + f]; return a; };
    auto is_mean = [&](T got, const std::vector<std::size_t>& w, std::size_t f) {
        const double a = sum(w, f), n = (double)w.size();
        if constexpr (std::is_integral_v<T>) return (int)(absolute((double)got * n - a) < n);
        else return close((double)got * n, a, 50);
    };
    int ok = 1;
    for (std::size_t f = 0; f < D; ++f) ok &= is_mean(mean_all[f], every, f) & is_mean(mean_ix[f], ix, f);
    for (std::size_t f = 0; f < mask.size(); ++f) ok &= is_mean(mean_mask[f], ix, mask[f]);
    sx_assert(ok, "mean: of each selected feature over the selected samples");
    if constexpr (std::is_floating_point_v<T>) {
        const auto var_all = st::compute_variance_per_feature(s.begin(), s.end(), D);
        const auto var_ix = st::compute_variance_per_feature(ix.begin(), ix.end(), s.begin(), s.end(), D);
        const auto var_mask = st::compute_variance_per_feature(ix.begin(), ix.end(), s.begin(), s.end(), D, mask);
        sx_assert((var_all.size() == D) & (var_ix.size() == D) & (var_mask.size() == mask.size()), "variance: one value per selected feature");
        auto scatter = [&](const std::vector<std::size_t>& w, std::size_t f) {
            const double a = sum(w, f), n = (double)w.size();
            double q = 0;
            for (auto i : w) { const double x = (double)s[i * D + f] * n - a; q += x * x; }
            return q / (n * n);
        };
        auto is_var = [&](T got, const std::vector<std::size_t>& w, std::size_t f) { return close((double)got * (double)(w.size() - 1), scatter(w, f), 50); };
        ok = 1;
        for (std::size_t f = 0; f < D; ++f) ok &= is_var(var_all[f], every, f) & is_var(var_ix[f], ix, f);
        for (std::size_t f = 0; f < mask.size(); ++f) ok &= is_var(var_mask[f], ix, mask[f]);
        sx_assert(ok, "variance: of each selected feature over the selected samples");
        const std::size_t a_all = st::argmax_variance_per_feature(s.begin(), s.end(), D);
        const std::size_t a_ix = st::argmax_variance_per_feature(ix.begin(), ix.end(), s.begin(), s.end(), D);
        const std::size_t a_mask = st::argmax_variance_per_feature(ix.begin(), ix.end(), s.begin(), s.end(), D, mask);
        int in_mask = 0;
        for (auto f : mask) in_mask |= a_mask == f;
        sx_assert((a_all < D) & (a_ix < D) & in_mask, "largest variance: one of the selected features");
        ok = 1;
        for (std::size_t f = 0; f < D; ++f) ok &= (scatter(every, a_all) >= scatter(every, f) - 1e-3) & (scatter(ix, a_ix) >= scatter(ix, f) - 1e-3);
        for (auto f : mask) ok &= scatter(ix, a_mask) >= scatter(ix, f) - 1e-3;
        sx_assert(ok, "largest variance: no selected feature varies more");
        if (D == 1) sx_assert(is_var(st::compute_variance(s.begin(), s.end()), every, 0), "variance of a range");
    }
    int same = 1;
    for (std::size_t i = 0; i < N * D; ++i) same &= s[i] == all[i];
    sx_assert(same, "statistics leave the samples as they were");
    sx::emit((double)mean_all[0]);
    sx_reach("moments");
}
template <typename T, std::size_t N>
static void normalise(const T* table, uint32_t m) {
    std::vector<T> v(N);
    if (N > 10) { for (std::size_t i = 0; i < N; ++i) v[i] = (T)((int)(i * 5 % 7) - 1); v[sx_concretize(sx_choice("place", N))] = sx::pick_n("value", table, m); }
    else for (auto& x : v) x = sx::pick_n("value", table, m);
    double mn = (double)v[0], mx = mn, sum = 0;
    for (auto x : v) { mn = (double)x < mn ? (double)x : mn; mx = (double)x > mx ? (double)x : mx; sum += (double)x; }
    const auto r = st::normalize_min_max(v.begin(), v.end());
    sx_assert(r.size() == N, "min-max normalisation: one score per value");
    int ok = 1;
    for (std::size_t i = 0; i < N; ++i) ok &= mn == mx ? close(r[i] * N, 1, 1) : close(r[i] * (mx - mn), mx - (double)v[i], 10);
    sx_assert(ok, "min-max normalisation: 1 for the smallest, 0 for the largest, linear between");
    sx_assume(sum > 0.25 || sum < -0.25);
    const auto w = st::normalize(v.begin(), v.end());
    sx_assert(w.size() == N, "normalisation: one weight per value");
    ok = 1;
    for (std::size_t i = 0; i < N; ++i) ok &= close(w[i] * sum, (double)v[i], 10);
    sx_assert(ok, "normalisation: each value divided by the sum");
    std::vector<T> a(N), b(N);
    if (N > 10) for (std::size_t i = 0; i < N; ++i) a[i] = (T)(i * 3 % 5);
    else for (auto& x : a) x = sx::pick_n("left", table, m);
    b = v;
    const auto a0 = a;
    st::min_container_inplace_left(a, b);
    ok = 1;
    for (std::size_t i = 0; i < N; ++i) ok &= (a[i] == (a0[i] < v[i] ? a0[i] : v[i])) & (b[i] == v[i]);
    sx_assert(ok, "elementwise minimum: left holds the smaller one, right unchanged");
    sx::emit(w[0]);
    sx_reach("normalise");
}
HARNESS(order_f32_n4) { order<float, 4>(kF, 4); }
HARNESS(order_f32_n5) { order<float, 5>(kFx, 5); }
HARNESS(order_i32_n4) { order<int, 4>(kIx, 4); }
HARNESS(order_u32_n4) { order<unsigned, 4>(kU, 3); }
HARNESS(order_u32_n1) { order<unsigned, 1>(kU, 3); }
HARNESS(order_u32_n2) { order<unsigned, 2>(kU, 3); }
HARNESS(order_f32_n2) { order<float, 2>(kFx, 5); }
HARNESS(order_mixed_n20) { order<float, 20>(kFx, 5, 17); }
HARNESS(many_u8_n300) { many<uint8_t, 300>(); }
HARNESS(moments_f32_n4d1) { moments<float, 4, 1>(kF, 4); }
HARNESS(moments_f32_n3d2) { moments<float, 3, 2>(kF, 4); }
HARNESS(moments_f32_n3d3) { moments<float, 3, 3>(kF, 2); }
HARNESS(moments_f64_n3d2) { moments<double, 3, 2>(kD, 3); }
HARNESS(moments_i32_n3d2) { moments<int, 3, 2>(kI, 4); }
HARNESS(moments_i32_n5d1) { moments<int, 5, 1>(kI, 4); }
HARNESS(moments_mixed_n10d3) { moments<float, 10, 3>(kF, 2, 8); }
HARNESS(normalise_f64_n3) { normalise<double, 3>(kD, 3); }
HARNESS(normalise_f32_n4) { normalise<float, 4>(kF, 4); }
HARNESS(normalise_i32_n4) { normalise<int, 4>(kI, 4); }
HARNESS(order_f32_n40) { order<float, 40>(kFx, 5, 40, true); }
HARNESS(order_i32_n33) { order<int, 33>(kIx, 4, 33, true); }
HARNESS(moments_wide_f32_n20d3) { moments<float, 20, 3>(kF, 4, 20); }
HARNESS(moments_wide_f64_n12d5) { moments<double, 12, 5>(kD, 3, 12); }
HARNESS(moments_wide_i32_n16d4) { moments<int, 16, 4>(kI, 4, 16); }
HARNESS(normalise_f32_n20) { normalise<float, 20>(kF, 4); }
HARNESS(normalise_i32_n20) { normalise<int, 20>(kI, 4); }
static const std::uint32_t kU32[] = {0, 3, 7, 4000000};
HARNESS(moments_u32_n3d2) { moments<std::uint32_t, 3, 2>(kU32, 3); }
HARNESS(moments_u32_n5d1) { moments<std::uint32_t, 5, 1>(kU32, 4); }
HARNESS(normalise_u32_n4) { normalise<std::uint32_t, 4>(kU32, 3); }
