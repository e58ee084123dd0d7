#include "sx.hpp"
#include "sx_rt.hpp"
#include "ffcl/common/algorithms/Sorting.hpp"

using namespace ffcl::common::algorithms;

static const float kGrid[] = {-1.5f, 0.f, 0.25f, 2.f, 7.f};
static const int kInts[] = {INT32_MIN, -1, 0, 1, 5, INT32_MAX};
static const std::size_t kPerm4[][4] = {{0, 1, 2, 3}, {3, 1, 0, 2}, {2, 3, 1, 0}};

// indices hold the same multiset of sample indices as before
template <std::size_t N>
static int is_permutation_of_iota(const std::vector<std::size_t>& ix) {
    int ok = ix.size() == N;
    for (std::size_t v = 0; v < N; ++v) {
        int c = 0;
        for (std::size_t i = 0; i < ix.size(); ++i) c += (ix[i] == v);
        ok &= (c == 1);
    }
    return ok;
}

static int g_tiny = 0;                       // values closer together than the machine epsilon
static const float kTiny[] = {0.f, 3e-8f, 5e-8f, 1.f};
static const double kDoubles[] = {-1e300, -2.5, 0.0, 1e-300, 1e-17, 3.0};
static std::size_t g_fixed = 0;              // the first g_fixed samples are constants

template <typename T, std::size_t N, std::size_t D>
static void data(std::vector<T>& s, std::vector<std::size_t>& ix, std::size_t feature) {
    s.assign(N * D, T(0));
    for (std::size_t i = 0; i < N; ++i) {
        for (std::size_t f = 0; f < D; ++f) {
            if (f == feature) {
                if (i < g_fixed) s[i * D + f] = T((int)((i * 7 + 3) % 11) - 4);
                else if constexpr (std::is_same_v<T, double>) s[i * D + f] = sx::pick("value", kDoubles);
                else if constexpr (std::is_same_v<T, float>) s[i * D + f] = g_tiny ? sx::pick("value", kTiny) : sx::pick("value", kGrid);
                else s[i * D + f] = sx::pick("value", kInts);
            } else s[i * D + f] = T(100 - 13 * (int)i + 5 * (int)f);  // other features must not matter
        }
    }
    ix.resize(N);
    for (std::size_t i = 0; i < N; ++i) ix[i] = (i * 2 + 1) % N == i ? i : N - 1 - i;
    if (N == 4) { unsigned p = sx_concretize(sx_choice("initial_order", 3)); for (std::size_t i = 0; i < N; ++i) ix[i] = kPerm4[p][i]; }
    else for (std::size_t i = 0; i < N; ++i) ix[i] = N - 1 - i;
}

template <typename T, std::size_t N, std::size_t D>
static void check_partition(std::size_t feature) {
    std::vector<T> s; std::vector<std::size_t> ix;
    data<T, N, D>(s, ix, feature);
    const std::size_t pivot = sx_concretize(sx_choice("pivot", N));
    const T pivot_value = s[ix[pivot] * D + feature];
    const std::size_t np = partition_around_pivot_index(ix.begin(), ix.end(), s.begin(), s.end(), D, pivot, feature);
    int ok = np < N;
    sx_assert(ok, "partition: pivot position inside the range");
    const T pv = s[ix[np] * D + feature];
    sx_assert(pv == pivot_value, "partition: the pivot value sits at the returned position");
    int left = 1, right = 1;
    for (std::size_t i = 0; i < N; ++i) {
        const T v = s[ix[i] * D + feature];
        left &= (i >= np) | (v <= pv);
        right &= (i <= np) | (v >= pv);
    }
    sx_assert(left, "partition: nothing greater than the pivot on its left");
    sx_assert(right, "partition: nothing smaller than the pivot on its right");
    sx_assert(is_permutation_of_iota<N>(ix), "partition: indices are a permutation");
    for (auto x : ix) sx::emit(x);
    sx::emit(np);
    sx_reach("partition");
}
template <typename T, std::size_t N, std::size_t D>
static void check_quickselect(std::size_t feature) {
    std::vector<T> s; std::vector<std::size_t> ix;
    data<T, N, D>(s, ix, feature);
    const std::size_t k = sx_concretize(sx_choice("kth", N));
    const auto r = quickselect(ix.begin(), ix.end(), s.begin(), s.end(), D, k, feature);
    sx_assert((std::size_t)(r.first - ix.begin()) == k, "quickselect: returned range starts at k");
    sx_assert((std::size_t)(r.second - ix.begin()) == k + 1, "quickselect: returned range has one element");
    const T kv = s[ix[k] * D + feature];
    int less = 0, leq = 0;
    for (std::size_t i = 0; i < N; ++i) { less += s[i * D + feature] < kv; leq += s[i * D + feature] <= kv; }
    sx_assert((less <= (int)k) & ((int)k < leq), "quickselect: element k is the k-th smallest value");
    int part = 1;
    for (std::size_t i = 0; i < N; ++i) { const T v = s[ix[i] * D + feature]; part &= (i < k) ? (v <= kv) : (v >= kv); }
    sx_assert(part, "quickselect: smaller values before k, larger after");
    sx_assert(is_permutation_of_iota<N>(ix), "quickselect: indices are a permutation");
    for (auto x : ix) sx::emit(x);
    sx_reach("quickselect");
}
template <typename T, std::size_t N, std::size_t D>
static void check_quicksort(std::size_t feature) {
    std::vector<T> s; std::vector<std::size_t> ix;
    data<T, N, D>(s, ix, feature);
    const std::size_t pivot = sx_concretize(sx_choice("pivot", N));
    quicksort(ix.begin(), ix.end(), s.begin(), s.end(), D, pivot, feature);
    int sorted = 1;
    for (std::size_t i = 0; i + 1 < N; ++i) sorted &= s[ix[i] * D + feature] <= s[ix[i + 1] * D + feature];
    sx_assert(sorted, "quicksort: values ascend");
    sx_assert(is_permutation_of_iota<N>(ix), "quicksort: indices are a permutation");
    for (auto x : ix) sx::emit(x);
    sx_reach("quicksort");
}
template <typename T, std::size_t N, std::size_t D = 1>
static void check_median3(std::size_t feature = 0) {
    std::vector<T> s; std::vector<std::size_t> ix;
    data<T, N, D>(s, ix, feature);
    const std::size_t m = median_index_of_three(ix.begin(), ix.end(), s.begin(), s.end(), D, feature);
    sx_assert(m < N, "median_index_of_three: inside the range");
    if (N >= 3) {
        const T a = s[ix[0] * D + feature], b = s[ix[(N - 1) / 2] * D + feature], c = s[ix[N - 1] * D + feature], v = s[ix[m] * D + feature];
        int le = (a <= v) + (b <= v) + (c <= v), ge = (a >= v) + (b >= v) + (c >= v);
        sx_assert((v == a) | (v == b) | (v == c), "median_index_of_three: one of first, middle, last");
        sx_assert((le >= 2) & (ge >= 2), "median_index_of_three: it is their median");
    } else sx_assert(m == 0, "median_index_of_three: 0 for short ranges");
    sx::emit(m);
    sx_reach("median3");
}

HARNESS(partition_i32_n4) { check_partition<int, 4, 2>(1); }
HARNESS(partition_i32_n5) { check_partition<int, 5, 1>(0); }
HARNESS(partition_f32_n4) { check_partition<float, 4, 2>(0); }
HARNESS(quickselect_i32_n4) { check_quickselect<int, 4, 2>(1); }
HARNESS(quickselect_i32_n5) { check_quickselect<int, 5, 1>(0); }
HARNESS(quickselect_f32_n4) { check_quickselect<float, 4, 2>(0); }
HARNESS(quicksort_i32_n4) { check_quicksort<int, 4, 2>(1); }
HARNESS(quicksort_f32_n4) { check_quicksort<float, 4, 2>(0); }
HARNESS(quicksort_i32_n5) { check_quicksort<int, 5, 1>(0); }
HARNESS(median3_i32) { check_median3<int, 2>(); check_median3<int, 3>(); check_median3<int, 4>(); }

// values that differ by less than the machine epsilon
HARNESS(partition_tiny_n4) { g_tiny = 1; check_partition<float, 4, 2>(0); }
HARNESS(quickselect_tiny_n4) { g_tiny = 1; check_quickselect<float, 4, 2>(0); }
HARNESS(quicksort_tiny_n4) { g_tiny = 1; check_quicksort<float, 4, 2>(0); }
HARNESS(partition_f64_n4) { check_partition<double, 4, 2>(0); }
HARNESS(quickselect_f64_n4) { check_quickselect<double, 4, 2>(0); }
HARNESS(quicksort_f64_n4) { check_quicksort<double, 4, 2>(0); }
// longer ranges, most of the values fixed
HARNESS(quicksort_mixed_n10) { g_fixed = 7; check_quicksort<int, 10, 1>(0); }
HARNESS(quickselect_mixed_n10) { g_fixed = 7; check_quickselect<int, 10, 1>(0); }
HARNESS(partition_mixed_n10) { g_fixed = 7; check_partition<int, 10, 1>(0); }
HARNESS(quicksort_mixed_n20) { g_fixed = 18; check_quicksort<float, 20, 3>(1); }
HARNESS(quickselect_mixed_n20) { g_fixed = 18; check_quickselect<float, 20, 3>(1); }
HARNESS(quicksort_mixed_n40) { g_fixed = 39; check_quicksort<float, 40, 2>(1); }
HARNESS(quickselect_mixed_n40) { g_fixed = 39; check_quickselect<float, 40, 2>(1); }
// short ranges, every pivot
HARNESS(short_ranges) {
    switch (sx_concretize(sx_choice("what", 6))) {
        case 0: check_partition<int, 2, 1>(0); break;
        case 1: check_partition<int, 3, 1>(0); break;
        case 2: check_quicksort<int, 2, 1>(0); break;
        case 3: check_quicksort<int, 3, 1>(0); break;
        case 4: check_quickselect<int, 2, 1>(0); break;
        default: check_quickselect<int, 3, 1>(0);
    }
}
HARNESS(partition_mixed_n40) { g_fixed = 39; check_partition<float, 40, 2>(1); }
HARNESS(quicksort_mixed_n60) { g_fixed = 59; check_quicksort<int, 60, 1>(0); }
HARNESS(quickselect_mixed_n60) { g_fixed = 59; check_quickselect<int, 60, 5>(4); }
HARNESS(median3_n6) { check_median3<float, 6>(); }
HARNESS(median3_n3d2) { check_median3<float, 3, 2>(1); }
HARNESS(median3_n4d3) { check_median3<int, 4, 3>(sx_concretize(sx_choice("feature", 3))); }
