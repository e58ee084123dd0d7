#pragma once
#include "kd_common.hpp"
template <typename T>
static inline double sq_dist(const T* a, const T* b, std::size_t D) {   // square of the distance: Euclidean, or Manhattan for integers
    double r = 0;
    if (std::is_integral_v<T>) {
        for (std::size_t f = 0; f < D; ++f) { const double d = (double)a[f] - (double)b[f]; r += d < 0 ? -d : d; }
        return r * r;
    }
    for (std::size_t f = 0; f < D; ++f) { const double d = (double)a[f] - (double)b[f]; r += d * d; }
    return r;
}
// |d^2 - e| small: d is the (rounded) square root of e
template <typename T>
static inline int is_root_of(T d, double e) {
    const double x = (double)d * (double)d - e, tol = 1e-4 * (1 + e);
    return (d >= 0) & (x <= tol) & (-x <= tol);
}
// result of a search: exactly min(k, #eligible) distinct eligible samples, none further than an eligible one left out
template <typename T, std::size_t N, std::size_t D, typename Buffer>
static void search_oracle(const std::vector<T>& s, const std::vector<T>& q, std::size_t k, const std::array<int, N>& eligible, const Buffer& b) {
    const auto ix = b.indices();
    const auto ds = b.distances();
    std::size_t n_el = 0;
    for (std::size_t i = 0; i < N; ++i) n_el += eligible[i];
    const std::size_t want = (n_el > k) ? k : n_el;
    sx_assert((ix.size() == want) & (ds.size() == want) & (b.size() == want), "search: number of results is min(k, eligible)");
    int in_range = 1, valid = 1, el = 1, dist = 1;
    std::array<int, N> in{};
    for (std::size_t j = 0; j < ix.size(); ++j) {
        in_range &= (ix[j] < N);
        sx_assert(in_range, "search: results are indexed samples");
        valid &= !in[ix[j]];
        el &= eligible[ix[j]];
        in[ix[j]] = 1;
        dist &= is_root_of(ds[j], sq_dist(&s[ix[j] * D], &q[0], D));
    }
    sx_assert(valid, "search: results are distinct");
    sx_assert(el, "search: only eligible samples are returned");
    sx_assert(dist, "search: distances are the true distances");
    double worst = -1, best = 1e300, out = 1e300;
    for (std::size_t i = 0; i < N; ++i) {
        const double d = sq_dist(&s[i * D], &q[0], D);
        worst = (in[i] & (d > worst)) ? d : worst;
        best = (in[i] & (d < best)) ? d : best;
        out = ((!in[i]) & eligible[i] & (d < out)) ? d : out;
    }
    sx_assert(worst <= out, "search: no eligible sample left out is closer than a returned one");
    if (!ix.empty()) {
        const std::size_t c = b.closest_index(), f = b.furthest_index();
        sx_assert((c < N) & (f < N), "search: closest and furthest are samples");
        sx_assert((sq_dist(&s[c * D], &q[0], D) == best) & (in[c] == 1), "search: closest index");
        sx_assert((sq_dist(&s[f * D], &q[0], D) == worst) & (in[f] == 1), "search: furthest index");
        sx_assert(is_root_of(b.closest_distance(), best), "search: closest distance");
        sx_assert(is_root_of(b.furthest_distance(), worst), "search: furthest distance");
    }
    for (auto i : ix) sx::emit(i);
    for (auto d : ds) sx::emit(d);
    sx_reach("search");
}
