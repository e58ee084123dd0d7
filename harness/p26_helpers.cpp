// The helpers that compare, count, look up, permute and convert containers.
#include "sx.hpp"
#include "sx_rt.hpp"
#include "ffcl/common/Utils.hpp"
#include "ffcl/datastruct/vector/FeaturesMask.hpp"
#include "ffcl/datastruct/vector/FeaturesVector.hpp"
#include <array>
namespace co = ffcl::common;

template <typename T> static T any(const char* n);
template <> int32_t any<int32_t>(const char* n) { return sx::any_i32(n); }
template <> uint8_t any<uint8_t>(const char* n) { return sx::any_u8(n); }
// floating point: values around zero, the machine epsilon, one and far away
template <typename T>
static T grid(const char* n) {
    constexpr T e = std::numeric_limits<T>::epsilon();
    static const T v[] = {0, -e, e / 2, 3 * e, 1, 1 + e, -1, T(1.5), T(-2.25), T(1e7), T(-1e20), T(0.1)};
    return v[sx_choice(n, 12)];
}
template <> float any<float>(const char* n) { return grid<float>(n); }
template <> double any<double>(const char* n) { return grid<double>(n); }
template <typename T>
static std::vector<T> values(std::size_t n, const char* name) {
    std::vector<T> r;
    if (n <= 5) { for (std::size_t i = 0; i < n; ++i) r.push_back(any<T>(name)); return r; }
    // many: one element, at any position, is free
    const std::size_t free = sx_concretize(sx_choice("position", (uint32_t)n));
    for (std::size_t i = 0; i < n; ++i) r.push_back(i == free ? any<T>(name) : T((i * 7 + i / 3) % 5));
    return r;
}

// ---- equality of containers ----
template <typename T, std::size_t N>
static void equal() {
    const auto a = values<T>(N, "left"), b = values<T>(N - 1 + sx_concretize(sx_choice("shorter, as long or longer", 3)), "right");
    T tolerance = std::is_integral_v<T> ? T(0) : std::numeric_limits<T>::epsilon();
    bool r;
    int expected = a.size() == b.size();
    if (sx_concretize(sx_choice("tolerance given", 2))) {
        tolerance = any<T>("tolerance");
        sx_assume(tolerance >= 0);
        r = co::are_containers_equal(a, b, tolerance);
        if (a.size() == b.size()) sx_assert(r == co::are_containers_equal(a.begin(), a.end(), b.begin(), tolerance), "are_containers_equal: alike for containers and ranges");
    } else r = co::are_containers_equal(a, b);
    if (expected)
        for (std::size_t i = 0; i < N; ++i) {
            if constexpr (std::is_integral_v<T>) expected &= a[i] == b[i];
            else { const T d = a[i] - b[i]; expected &= (d <= tolerance) & (-d <= tolerance); }
        }
    sx_assert(r == (expected != 0), "are_containers_equal: as long, and no pair of elements further apart than the tolerance");
    sx_assert(co::are_containers_equal(a, a), "are_containers_equal: equal to itself");
    sx::emit((int)r);
    sx_reach("equal");
}
HARNESS(equal_i32_n3) { equal<int32_t, 3>(); }
HARNESS(equal_u8_n4) { equal<uint8_t, 4>(); }
HARNESS(equal_f32_n3) { equal<float, 3>(); }
HARNESS(equal_f64_n2) { equal<double, 2>(); }

// ---- counting and membership ----
template <typename T, std::size_t N>
static void membership() {
    const std::size_t n = N > 5 ? N : sx_concretize(sx_choice("size", N + 1));
    const auto a = values<T>(n, "left"), b = values<T>(n, "right");
    const T v = any<T>("element");
    std::size_t matches = 0, of_value = 0;
    int in = 0;
    for (std::size_t i = 0; i < n; ++i) { matches += a[i] == b[i]; of_value += (a[i] == b[i]) & (a[i] == v); in |= a[i] == v; }
    sx_assert(co::count_matches(a.begin(), a.end(), b.begin()) == matches, "count_matches: positions with equal elements");
    sx_assert(co::count_matches_for_value(a.begin(), a.end(), b.begin(), v) == of_value, "count_matches_for_value: positions where both are the value");
    sx_assert(co::is_element_in(a.begin(), a.end(), v) == (in != 0), "is_element_in: some element is equal");
    sx_assert(co::is_element_not_in(a.begin(), a.end(), v) == (in == 0), "is_element_not_in: no element is equal");
    if constexpr (std::is_integral_v<T>) {
        std::vector<std::pair<T, float>> p;
        for (std::size_t i = 0; i < n; ++i) p.emplace_back(a[i], 1.f * i);
        sx_assert(co::is_element_in_first(p.begin(), p.end(), v) == (in != 0), "is_element_in_first: the first of some pair is equal");
        sx_assert(co::is_element_not_in_first(p.begin(), p.end(), v) == (in == 0), "is_element_not_in_first: the first of no pair is equal");
    }
    sx::emit(matches); sx::emit(of_value); sx::emit(in);
    sx_reach("membership");
}
HARNESS(membership_i32) { membership<int32_t, 3>(); }
HARNESS(membership_u8) { membership<uint8_t, 4>(); }
HARNESS(membership_f32) { membership<float, 3>(); }

// ---- permutation, conversion ----
template <typename T, std::size_t N>
static void permutation() {
    const auto a = values<T>(N, "value");
    std::vector<std::size_t> ix;
    for (std::size_t i = 0; i < N; ++i) ix.push_back(sx_choice("index", N));
    const auto r = co::permutation_from_indices(ix, a);
    int ok = r.size() == N;
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) ok &= (ix[i] != j) | (r[i] == a[j]);
    sx_assert(ok, "permutation_from_indices: element i is the one at index i");
    for (auto x : r) sx::emit(x);
    sx_reach("permutation");
}
HARNESS(permutation_i32_n4) { permutation<int32_t, 4>(); }
HARNESS(permutation_f32_n3) { permutation<float, 3>(); }
HARNESS(conversion) {
    const auto a = values<int32_t>(3, "value");
    for (auto x : a) sx_assume((x > -100) & (x < 100));
    const auto d = co::to_type<double>(a.begin(), a.end());
    const auto l = co::to_type<int64_t>(a.begin(), a.end());
    const auto s = co::to_type<int32_t>(a.begin(), a.end());
    int ok = (d.size() == 3) & (l.size() == 3) & (s.size() == 3);
    for (std::size_t i = 0; i < 3; ++i) ok &= (d[i] == (double)a[i]) & (l[i] == (int64_t)a[i]) & (s[i] == a[i]);
    sx_assert(ok, "to_type: every element converted, in order");
    for (auto x : d) sx::emit(x);
    sx_reach("conversion");
}
// ---- scalars ----
HARNESS(scalars_i32) {
    const int32_t a = sx::any_i32("a"), b = sx::any_i32("b");
    sx_assume((a > -1000000000) & (a < 1000000000) & (b > -1000000000) & (b < 1000000000));
    sx_assert((co::equality(a, b) == (a == b)) & (co::inequality(a, b) == (a != b)), "equality: exact for integers");
    sx_assert(co::abs(a) == (a < 0 ? -a : a), "abs");
    const int64_t s = (int64_t)a + b;
    const int64_t c = co::compute_center_with_left_rounding(a, b);
    sx_assert((2 * c <= s) & (2 * c + 1 >= s), "centre of integers: rounded down");
    sx::emit(c);
    sx_reach("scalars");
}
HARNESS(division_i32) {
    const int32_t a = sx::any_i32("a"), fallback = sx::any_i32("fallback");
    static const int32_t den[] = {0, 1, -1, 3, -7, 1000};
    const int32_t b = den[sx_concretize(sx_choice("denominator", 6))];
    sx_assume(a != std::numeric_limits<int32_t>::min());
    const int32_t q = co::division(a, b, fallback);
    const int32_t expected = b == 0 ? fallback : a / (b == 0 ? 1 : b);
    sx_assert(q == expected, "division: the quotient, or the value given when dividing by zero");
    sx_assert(b != 0 || co::division(a, b) == 0, "division: zero by default when dividing by zero");
    sx::emit(q);
    sx_reach("scalars");
}
HARNESS(scalars_f64) {
    const double a = any<double>("a"), b = any<double>("b");
    const double d = b - a, e = std::numeric_limits<double>::epsilon();
    const int close = (d <= e) & (-d <= e);
    sx_assert((co::equality(a, b) == (close != 0)) & (co::inequality(a, b) == (close == 0)), "equality: up to the machine epsilon for floating point");
    sx_assert(co::equality(a, a), "equality: equal to itself");
    sx_assert(co::abs(a) == (a < 0 ? -a : a), "abs");
    static const double den[] = {0., 0.5, -3., 1e-9, -1e200};
    const double q = den[sx_concretize(sx_choice("denominator", 5))];
    const double r = co::division(a, q, 7.5);
    sx_assert(q == 0. ? r == 7.5 : r == a / q, "division: the quotient, or the value given when dividing by zero");
    const double c = co::compute_center_with_left_rounding(a, b);
    sx_assert(c == (a + b) / 2, "centre of floating point numbers");
    sx_reach("scalars");
}
HARNESS(n_samples) {
    static const std::size_t rows[] = {0, 1, 2, 5}, cols[] = {1, 2, 3, 7};
    const std::size_t n = rows[sx_concretize(sx_choice("rows", 4))], d = cols[sx_concretize(sx_choice("columns", 4))];
    const std::vector<float> s(n * d);
    sx_assert(co::get_n_samples(s.begin(), s.end(), d) == n, "get_n_samples: the number of rows");
    sx_reach("scalars");
}
// ---- features ----
template <typename V, std::size_t N, typename A>
static void same(const V& v, const A& a, const char* label) {
    int ok = v.size() == N;
    for (std::size_t i = 0; i < N; ++i) ok &= v[i] == a[i];
    std::size_t i = 0;
    for (auto it = v.begin(); it != v.end(); ++it, ++i) ok &= *it == a[i];
    ok &= i == N;
    i = 0;
    for (auto it = v.cbegin(); it != v.cend(); ++it, ++i) ok &= *it == a[i];
    sx_assert(ok & (i == N), label);
}
HARNESS(features) {
    namespace ds = ffcl::datastruct;
    std::vector<int32_t> a = values<int32_t>(3, "value");
    const std::array<int32_t, 3> f{a[0], a[1], a[2]};
    same<ds::FeaturesVector<int32_t, 0>, 3>(ds::FeaturesVector<int32_t, 0>(a), a, "features vector: the values it was made of");
    same<ds::FeaturesVector<int32_t, 0>, 3>(ds::FeaturesVector<int32_t, 0>(a.begin(), a.end()), a, "features vector: the values it was made of");
    same<ds::FeaturesVector<int32_t, 0>, 3>(ds::FeaturesVector<int32_t, 0>{a[0], a[1], a[2]}, a, "features vector: the values it was made of");
    same<ds::FeaturesVector<int32_t, 3>, 3>(ds::FeaturesVector<int32_t, 3>(f), a, "features vector: the values it was made of");
    same<ds::FeaturesVector<int32_t, 3>, 3>(ds::FeaturesVector<int32_t, 3>(a[0], a[1], a[2]), a, "features vector: the values it was made of");
    const std::array<std::size_t, 4> all{0, 1, 2, 3};
    same<ds::FeaturesMask<std::size_t, 0>, 4>(ds::FeaturesMask<std::size_t, 0>(std::size_t(4)), all, "features mask: all features in order by default");
    same<ds::FeaturesMask<std::size_t, 4>, 4>(ds::FeaturesMask<std::size_t, 4>(), all, "features mask: all features in order by default");
    ds::FeaturesVector<int32_t, 0> v(a);
    v[1] = 5;
    sx_assert((v[0] == a[0]) & (v[1] == 5) & (v[2] == a[2]), "features vector: writing one value");
    sx_reach("features");
}

HARNESS(equal_i32_n20) { equal<int32_t, 20>(); }
HARNESS(equal_f32_n19) { equal<float, 19>(); }
HARNESS(membership_i32_n19) { membership<int32_t, 19>(); }
