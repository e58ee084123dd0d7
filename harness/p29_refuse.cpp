#include "sx.hpp"
#include "sx_random.hpp"
#include "sx_rt.hpp"
#include "ffcl/kmedoids/KMedoids.hpp"
#include "ffcl/common/math/random/VosesAliasMethod.hpp"
#include <array>

// A request is made; the exception is accepted exactly when the request is one the library documents as invalid, and an
// invalid request that comes back with an answer is reported (an exception on a valid one is reported by the engine).
struct Request {
    bool valid;
    explicit Request(bool v) : valid(v) { if (!valid) { sx_reach("invalid"); sx_allow_throw(1); } }
    void answered(const char*) const { sx_assert(valid, "an invalid request is refused"); sx_reach("answered"); }
};
static const float kF[] = {-3.f, 0.f, 1.f, 2.5f};
static const int32_t kI[] = {-4, 0, 3, 9};

template <typename T, std::size_t N>
static std::vector<std::size_t> some_medoids(std::size_t most) {
    const std::size_t k = sx_concretize(sx_choice("medoids", (uint32_t)most + 1)), from = sx_concretize(sx_choice("from", (uint32_t)N));
    std::vector<std::size_t> m;
    for (std::size_t i = 0; i < k; ++i) m.push_back((from + i) % N);
    return m;
}
// n-th nearest medoids: indices or distances, of samples or of a precomputed matrix
template <typename T, std::size_t N, std::size_t D>
static void nth(const T* table, uint32_t mt, std::size_t most) {
    std::vector<T> s(N * D);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = i + 1 < N * D ? (T)(int)((i * 5) % 7) : sx::pick_n("value", table, mt);
    const auto m = some_medoids<T, N>(most);
    const std::size_t n = sx_concretize(sx_choice("nth", 7)), way = sx_concretize(sx_choice("function", 4));
    using It = typename std::vector<T>::const_iterator;
    const ffcl::datastruct::PairwiseDistanceMatrix<It> matrix(s.cbegin(), s.cend(), D);
    const Request request(n >= 1 && n <= m.size() && n <= 3);
    std::size_t size = 0;
    if (way == 0) size = pam::utils::samples_to_nth_nearest_medoid_indices(s.cbegin(), s.cend(), D, m, n).size();
    if (way == 1) size = pam::utils::samples_to_nth_nearest_medoid_distances(s.cbegin(), s.cend(), D, m, n).size();
    if (way == 2) size = pam::utils::samples_to_nth_nearest_medoid_indices(matrix, m, n).size();
    if (way == 3) size = pam::utils::samples_to_nth_nearest_medoid_distances(matrix, m, n).size();
    request.answered("nth");
    sx_assert(size == N, "a valid request is answered for every sample");
}
HARNESS(nth_f32_n4) { nth<float, 4, 1>(kF, 4, 4); }
HARNESS(nth_i32_n5d2) { nth<int32_t, 5, 2>(kI, 4, 5); }

// no medoids at all: nothing can be nearest
template <typename T, std::size_t N, std::size_t D>
static void none(const T* table, uint32_t mt) {
    std::vector<T> s(N * D);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = i + 1 < N * D ? (T)(int)((i * 5) % 7) : sx::pick_n("value", table, mt);
    const auto m = some_medoids<T, N>(4);
    const std::size_t way = sx_concretize(sx_choice("function", 12));
    using It = typename std::vector<T>::const_iterator;
    const ffcl::datastruct::PairwiseDistanceMatrix<It> matrix(s.cbegin(), s.cend(), D);
    sx_assume(m.empty() | (m.size() > way / 4));
    const Request request(!m.empty());
    std::size_t size = 0;
    if (way == 0) size = pam::utils::samples_to_nearest_medoid_indices(s.cbegin(), s.cend(), D, m).size();
    if (way == 1) size = pam::utils::samples_to_nearest_medoid_indices(matrix, m).size();
    if (way == 2) size = pam::utils::samples_to_nearest_medoid_distances(s.cbegin(), s.cend(), D, m).size();
    if (way == 3) size = pam::utils::samples_to_nearest_medoid_distances(matrix, m).size();
    if (way == 4) size = pam::utils::samples_to_second_nearest_medoid_indices(s.cbegin(), s.cend(), D, m).size();
    if (way == 5) size = pam::utils::samples_to_second_nearest_medoid_indices(matrix, m).size();
    if (way == 6) size = pam::utils::samples_to_second_nearest_medoid_distances(s.cbegin(), s.cend(), D, m).size();
    if (way == 7) size = pam::utils::samples_to_second_nearest_medoid_distances(matrix, m).size();
    if (way == 8) size = pam::utils::samples_to_third_nearest_medoid_indices(s.cbegin(), s.cend(), D, m).size();
    if (way == 9) size = pam::utils::samples_to_third_nearest_medoid_indices(matrix, m).size();
    if (way == 10) size = pam::utils::samples_to_third_nearest_medoid_distances(s.cbegin(), s.cend(), D, m).size();
    if (way == 11) size = pam::utils::samples_to_third_nearest_medoid_distances(matrix, m).size();
    request.answered("none");
    sx_assert(size == N, "a valid request is answered for every sample");
}
HARNESS(none_f32_n4) { none<float, 4, 1>(kF, 4); }
HARNESS(none_i32_n4d2) { none<int32_t, 4, 2>(kI, 4); }

// a k-medoids that was never fitted cannot predict
HARNESS(unfitted) {
    std::vector<float> s{1.f, 4.f, 9.f, sx::pick("value", kF)};
    const bool fitted = sx_concretize(sx_choice("medoids", 2));
    const std::size_t way = sx_concretize(sx_choice("function", 4));
    using It = std::vector<float>::const_iterator;
    const ffcl::datastruct::PairwiseDistanceMatrix<It> matrix(s.cbegin(), s.cend(), 1);
    const auto kmedoids = fitted ? ffcl::KMedoids<float>(2, std::vector<std::size_t>{0, 2}) : ffcl::KMedoids<float>(2);
    const Request request(fitted);
    std::size_t size = 0;
    if (way == 0) size = kmedoids.predict(s.cbegin(), s.cend(), 1).size();
    if (way == 1) size = kmedoids.forward(s.cbegin(), s.cend(), 1).size();
    if (way == 2) size = kmedoids.predict(matrix).size();
    if (way == 3) size = kmedoids.forward(matrix).size();
    request.answered("unfitted");
    sx_assert(size == 4, "a valid request is answered for every sample");
}
// permutations of the wrong length
template <std::size_t Most>
static void permutation() {
    const std::size_t n = sx_concretize(sx_choice("elements", Most + 1)), k = sx_concretize(sx_choice("indices", Most + 1));
    std::vector<int32_t> v;
    for (std::size_t i = 0; i < n; ++i) v.push_back((int32_t)sx_any("value", 1, 32));
    std::vector<std::size_t> indices;
    for (std::size_t i = 0; i < k; ++i) indices.push_back(n ? (i + 1) % n : i);
    const Request request(n == k);
    const auto r = ffcl::common::permutation_from_indices(indices, v);
    request.answered("permutation");
    int ok = r.size() == n;
    for (std::size_t i = 0; i < n; ++i) ok &= r[i] == v[(i + 1) % n];
    sx_assert(ok, "a permutation of the right length is applied");
}
HARNESS(permutation_6) { permutation<6>(); }
template <std::size_t Most, std::size_t MostD>
static void rows() {
    const std::size_t n = sx_concretize(sx_choice("rows", Most + 1)), d = 1 + sx_concretize(sx_choice("features", MostD)), k = sx_concretize(sx_choice("indices", Most + 1));
    std::vector<int32_t> v;
    for (std::size_t i = 0; i < n * d; ++i) v.push_back((int32_t)sx_any("value", 1, 32));
    std::vector<std::size_t> indices;
    for (std::size_t i = 0; i < k; ++i) indices.push_back(n ? (i + 1) % n : i);
    const Request request(n == k);
    const auto r = ffcl::common::remap_ranges_from_indices(indices, v, d);
    request.answered("rows");
    int ok = r.size() == n * d;
    for (std::size_t i = 0; i < n; ++i) for (std::size_t f = 0; f < d; ++f) ok &= r[i * d + f] == v[((i + 1) % n) * d + f];
    sx_assert(ok, "a reordering of the right length is applied");
}
HARNESS(rows_5x4) { rows<5, 4>(); }
// a distribution without weights has no outcome
HARNESS(weights) {
    const std::size_t n = sx_concretize(sx_choice("weights", 4));
    std::vector<float> w;
    for (std::size_t i = 0; i < n; ++i) w.push_back(1.f + (float)i);
    const Request request(n > 0);
    ffcl::common::math::random::VosesAliasMethod<float> voses(w);
    request.answered("weights");
    const std::size_t outcome = voses();
    sx_assert(outcome < n, "a distribution with weights has an outcome");
}
