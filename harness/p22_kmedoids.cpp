#include "sx.hpp"
#include "sx_random.hpp"
#include "sx_rt.hpp"
#include "ffcl/kmedoids/KMedoids.hpp"
#include <array>

// Distances of the library (auto_distance: euclidean for floating point, manhattan for integers) between samples whose
// pairwise distances are all exactly representable: one feature, or several features of integer samples, so that sums
// of distances are exact and the oracle needs no tolerance.
static const float kF[] = {-3.f, 0.f, 1.f, 2.5f};
static const float kG[] = {0.f, 1.f, 5.f};
static const double kD[] = {-3., 0., 1., 2.5};
static const int32_t kI[] = {-4, 0, 3, 9};
static const uint16_t kU[] = {0, 2, 7, 600};
static inline int cloud(std::size_t i, std::size_t f) { return (int)((i * (f ? 5 : 7) + (i / 6) * (3 + f) + 2 * f) % 11) * 2 - 4; }

template <typename T>
static T dist(const T* a, const T* b, std::size_t D) {
    T r = 0;
    for (std::size_t f = 0; f < D; ++f) r = (T)(r + (a[f] < b[f] ? b[f] - a[f] : a[f] - b[f]));
    return r;
}
template <typename T, std::size_t N, std::size_t D>
static std::vector<T> samples(const T* table, uint32_t m, std::size_t fixed, const T* base = nullptr) {
    std::vector<T> s(N * D);
    if (base) for (std::size_t i = 0; i < N * D; ++i) s[i] = i / D < fixed ? base[i] : sx::pick_n("value", table, m);
    else for (std::size_t i = 0; i < N * D; ++i) s[i] = i / D < fixed ? (T)(cloud(i / D, i % D) + (std::is_unsigned_v<T> ? 4 : 0)) : sx::pick_n("value", table, m);
    return s;
}
// K distinct indices among N, in any order
template <std::size_t N, std::size_t K>
static std::vector<std::size_t> medoids() {
    std::vector<std::size_t> r, left(N);
    if (N > 12) {   // medoids spread over the samples from one of four starts
        const std::size_t o = sx_concretize(sx_choice("medoids", 4));
        for (std::size_t k = 0; k < K; ++k) r.push_back((o + 7 * k) % N);
        return r;
    }
    for (std::size_t i = 0; i < N; ++i) left[i] = i;
    for (std::size_t k = 0; k < K; ++k) {
        const std::size_t at = sx_concretize(sx_choice("medoid", (uint32_t)left.size()));
        r.push_back(left[at]);
        left.erase(left.begin() + (std::ptrdiff_t)at);
    }
    return r;
}
// the j-th smallest (0-based) of the distances of sample i to the medoids, branch-free
template <typename T>
static T nth(const std::vector<T>& s, std::size_t D, const std::vector<std::size_t>& m, std::size_t i, std::size_t j) {
    std::vector<T> d;
    for (auto x : m) d.push_back(dist<T>(&s[i * D], &s[x * D], D));
    for (std::size_t a = 0; a < d.size(); ++a)
        for (std::size_t b = a + 1; b < d.size(); ++b) {
            const T lo = d[b] < d[a] ? d[b] : d[a], hi = d[b] < d[a] ? d[a] : d[b];
            d[a] = lo; d[b] = hi;
        }
    return d[j];
}
template <typename T>
static T cost(const std::vector<T>& s, std::size_t D, const std::vector<std::size_t>& m) {
    T sum = 0;
    for (std::size_t i = 0; i * D < s.size(); ++i) {
        T best = dist<T>(&s[i * D], &s[m[0] * D], D);
        for (std::size_t k = 1; k < m.size(); ++k) { const T d = dist<T>(&s[i * D], &s[m[k] * D], D); best = d < best ? d : best; }
        sum = (T)(sum + best);
    }
    return sum;
}
template <typename T>
static T owned(const std::vector<T>& s, std::size_t D, const std::vector<std::size_t>& m, std::size_t i, std::size_t slot) {
    T own = 0;
    for (std::size_t k = 0; k < m.size(); ++k) { const T d = dist<T>(&s[i * D], &s[m[k] * D], D); own = slot == k ? d : own; }
    return own;
}

// ---- P22: predict, forward, n-th nearest medoids ----
template <typename T, std::size_t N, std::size_t K, std::size_t D, bool Matrix>
static void predict(const T* table, uint32_t mt, std::size_t fixed = 0) {
    const auto s = samples<T, N, D>(table, mt, fixed);
    const auto m = medoids<N, K>();
    using It = typename std::vector<T>::const_iterator;
    const ffcl::KMedoids<T> kmedoids(K, m);
    std::vector<std::size_t> labels;
    std::vector<T> distances;
    if constexpr (Matrix) {
        const ffcl::datastruct::PairwiseDistanceMatrix<It> matrix(s.begin(), s.end(), D);
        labels = kmedoids.predict(matrix);
        distances = kmedoids.forward(matrix);
    } else {
        labels = kmedoids.predict(s.begin(), s.end(), D);
        distances = kmedoids.forward(s.begin(), s.end(), D);
    }
    sx_assert((labels.size() == N) & (distances.size() == N), "predict: one label and distance per sample");
    int valid = 1, nearest = 1, exact = 1;
    for (std::size_t i = 0; i < N; ++i) {
        const T best = nth<T>(s, D, m, i, 0);
        valid &= labels[i] < K;
        nearest &= owned<T>(s, D, m, i, labels[i]) == best;
        exact &= distances[i] == best;
    }
    sx_assert(valid, "predict: labels are positions of medoids");
    sx_assert(nearest, "predict: no medoid is closer than the predicted one");
    sx_assert(exact, "forward: the distance to the nearest medoid");
    for (auto x : labels) sx::emit(x);
    for (auto x : distances) sx::emit(x);
    sx_reach("predict");
}
HARNESS(predict_f32_n4k2) { predict<float, 4, 2, 1, false>(kF, 4); }
HARNESS(predict_f32_n4k3_m) { predict<float, 4, 3, 1, true>(kF, 3); }
HARNESS(predict_f32_n3k1) { predict<float, 3, 1, 1, false>(kF, 4); }
HARNESS(predict_f64_n3k2) { predict<double, 3, 2, 1, false>(kD, 4); }
HARNESS(predict_i32_n3k2d2) { predict<int32_t, 3, 2, 2, false>(kI, 3); }
HARNESS(predict_i32_n3k2d2_m) { predict<int32_t, 3, 2, 2, true>(kI, 3); }
HARNESS(predict_u16_n3k2) { predict<uint16_t, 3, 2, 1, false>(kU, 4); }
HARNESS(predict_f32_n20k5) { predict<float, 20, 5, 1, false>(kF, 4, 19); }
HARNESS(predict_f32_n20k5_m) { predict<float, 20, 5, 1, true>(kF, 4, 19); }
HARNESS(predict_i32_n18k9d6) { predict<int32_t, 18, 9, 6, false>(kI, 2, 17); }

template <typename T, std::size_t N, std::size_t K, std::size_t D, bool Matrix>
static void nearest(const T* table, uint32_t mt, std::size_t fixed = 0) {
    const auto s = samples<T, N, D>(table, mt, fixed);
    const auto m = medoids<N, K>();
    using It = typename std::vector<T>::const_iterator;
    constexpr std::size_t J = K < 3 ? K : 3;
    std::array<std::vector<std::size_t>, J> index;
    std::array<std::vector<T>, J> distance;
    std::pair<T, std::size_t> first;
    const ffcl::datastruct::PairwiseDistanceMatrix<It> matrix(s.begin(), s.end(), D);
    for (std::size_t j = 0; j < J; ++j) {
        if constexpr (Matrix) {
            index[j] = pam::utils::samples_to_nth_nearest_medoid_indices(matrix, m, j + 1);
            distance[j] = pam::utils::samples_to_nth_nearest_medoid_distances(matrix, m, j + 1);
        } else {
            index[j] = pam::utils::samples_to_nth_nearest_medoid_indices(s.begin(), s.end(), D, m, j + 1);
            distance[j] = pam::utils::samples_to_nth_nearest_medoid_distances(s.begin(), s.end(), D, m, j + 1);
        }
    }
    if constexpr (Matrix) first = pam::utils::first_medoid_td_index_pair(matrix);
    else first = pam::utils::first_medoid_td_index_pair(s.begin(), s.end(), D);
    int exact = 1, own = 1, distinct = 1;
    for (std::size_t i = 0; i < N; ++i)
        for (std::size_t j = 0; j < J; ++j) {
            const T d = nth<T>(s, D, m, i, j);
            exact &= distance[j][i] == d;
            own &= (index[j][i] < K) & (owned<T>(s, D, m, i, index[j][i]) == d);
            for (std::size_t l = 0; l < j; ++l) distinct &= index[j][i] != index[l][i];
        }
    sx_assert(exact, "n-th nearest medoid: the n-th smallest distance");
    sx_assert(own, "n-th nearest medoid: a medoid at that distance");
    sx_assert(distinct, "n-th nearest medoids: different medoids");
    int best = 1;
    T at = 0;
    for (std::size_t c = 0; c < N; ++c) {
        const T td = cost<T>(s, D, {c});
        best &= first.first <= td;
        at = first.second == c ? td : at;
    }
    sx_assert(best & (first.second < N) & (at == first.first), "first medoid: the sample with the smallest total deviation, and that deviation");
    const auto centroids = pam::utils::medoids_to_centroids(s.begin(), s.end(), D, m);
    int copy = centroids.size() == K * D;
    for (std::size_t k = 0; k < K; ++k) for (std::size_t f = 0; f < D; ++f) copy &= centroids[k * D + f] == s[m[k] * D + f];
    sx_assert(copy, "medoids_to_centroids: the samples of the medoids");
    for (std::size_t j = 0; j < J; ++j) { for (auto x : index[j]) sx::emit(x); for (auto x : distance[j]) sx::emit(x); }
    sx::emit(first.first); sx::emit(first.second);
    sx_reach("nearest");
}
HARNESS(nearest_f32_n3k2) { nearest<float, 3, 2, 1, false>(kF, 4); }
HARNESS(nearest_f32_n4k3) { nearest<float, 4, 3, 1, false>(kG, 3); }
HARNESS(nearest_f32_n3k2_m) { nearest<float, 3, 2, 1, true>(kF, 4); }
HARNESS(nearest_f32_n4k3_m) { nearest<float, 4, 3, 1, true>(kG, 3); }
HARNESS(nearest_i32_n3k2d2) { nearest<int32_t, 3, 2, 2, false>(kI, 3); }
HARNESS(nearest_i32_n3k2d2_m) { nearest<int32_t, 3, 2, 2, true>(kI, 3); }
HARNESS(nearest_f32_n20k5) { nearest<float, 20, 5, 1, false>(kF, 4, 19); }
HARNESS(nearest_i32_n16k9d6_m) { nearest<int32_t, 16, 9, 6, true>(kI, 2, 15); }

// ---- P23: FasterPAM ----
enum Storage { samples_only, matrix_given };
template <typename T, std::size_t N, std::size_t K, std::size_t D, Storage S>
static void pam_steps(const T* table, uint32_t mt, std::size_t n, std::size_t fixed = 0, const T* base = nullptr) {
    const auto s = samples<T, N, D>(table, mt, fixed, base);
    auto m = medoids<N, K>();
    using It = typename std::vector<T>::const_iterator;
    using PAM = ffcl::FasterPAM<It>;
    auto run = [&](PAM& pam) {
        sx_assert(pam.total_deviation() == cost<T>(s, D, m), "total deviation: the sum of the distances to the nearest of the initial medoids");
        for (std::size_t step = 0; step < n; ++step) {
            const std::vector<std::size_t> next = pam.step();
            int valid = next.size() == K;
            for (std::size_t a = 0; a < next.size(); ++a) { valid &= next[a] < N; for (std::size_t b = 0; b < a; ++b) valid &= next[a] != next[b]; }
            sx_assert(valid, "step: as many medoids, all of them different samples");
            if (!valid) return;
            const T before = cost<T>(s, D, m), after = cost<T>(s, D, next);
            sx_assert(pam.total_deviation() == after, "total deviation: the sum of the distances to the nearest medoid");
            sx_assert(after <= before, "step: the total deviation does not grow");
            int same = 1;
            for (std::size_t k = 0; k < K; ++k) same &= next[k] == m[k];
            if (same) {
                for (std::size_t k = 0; k < K; ++k)
                    for (std::size_t c = 0; c < N; ++c) {
                        auto swapped = next;
                        swapped[k] = c;
                        sx_assert(cost<T>(s, D, swapped) >= after, "step: medoids are kept only when no swap of a medoid and a sample lowers the total deviation");
                    }
                sx_reach("fixpoint");
            } else {
                sx_assert(after < before, "step: medoids change only to lower the total deviation");
                sx_reach("swap");
            }
            m = next;
        }
    };
    if constexpr (S == matrix_given) {
        const ffcl::datastruct::PairwiseDistanceMatrix<It> matrix(s.begin(), s.end(), D);
        PAM pam(matrix, m);
        run(pam);
    } else {
        PAM pam(std::make_tuple(s.begin(), s.end(), (std::size_t)D), m);
        run(pam);
    }
    for (auto x : m) sx::emit(x);
}
HARNESS(pam_f32_n3k2) { pam_steps<float, 3, 2, 1, samples_only>(kG, 3, 2); }
HARNESS(pam_f32_n3k2_m) { pam_steps<float, 3, 2, 1, matrix_given>(kG, 3, 2); }
HARNESS(pam_f32_n4k2) { pam_steps<float, 4, 2, 1, samples_only>(kG, 3, 2); }
HARNESS(pam_f32_n4k3) { pam_steps<float, 4, 3, 1, samples_only>(kG, 3, 2); }
HARNESS(pam_f32_n5k3_m) { pam_steps<float, 5, 3, 1, matrix_given>(kG, 3, 2); }
HARNESS(pam_f32_n4k2_f1) { pam_steps<float, 4, 2, 1, samples_only>(kG, 3, 2, 1); }
HARNESS(pam_f32_n4k3_f2) { pam_steps<float, 4, 3, 1, samples_only>(kG, 3, 2, 2); }
HARNESS(pam_f32_n5k3_f3_m) { pam_steps<float, 5, 3, 1, matrix_given>(kG, 3, 2, 3); }
HARNESS(pam_i32_n4k2_f2) { pam_steps<int32_t, 4, 2, 1, samples_only>(kI, 4, 2, 2); }
HARNESS(pam_i32_n5k2d2_f4_m) { pam_steps<int32_t, 5, 2, 2, matrix_given>(kI, 3, 3, 4); }
static const uint32_t kU32[] = {0, 2, 9, 30};
HARNESS(predict_u32_n3k2d2) { predict<uint32_t, 3, 2, 2, false>(kU32, 3); }
HARNESS(predict_u32_n18k9d6_m) { predict<uint32_t, 18, 9, 6, true>(kU32, 2, 17); }
HARNESS(nearest_u32_n3k2d2) { nearest<uint32_t, 3, 2, 2, false>(kU32, 3); }
HARNESS(nearest_u32_n16k9d6_m) { nearest<uint32_t, 16, 9, 6, true>(kU32, 2, 15); }
HARNESS(pam_u32_n4k2_f2) { pam_steps<uint32_t, 4, 2, 1, samples_only>(kU32, 4, 2, 2); }
HARNESS(pam_u32_n5k2d2_f4_m) { pam_steps<uint32_t, 5, 2, 2, matrix_given>(kU32, 3, 3, 4); }
HARNESS(pam_u32_cloud_n16k5d1) { pam_steps<uint32_t, 16, 5, 1, samples_only>(kU32, 3, 3, 15); }
HARNESS(pam_cloud_n8k2d1_m) { pam_steps<float, 8, 2, 1, matrix_given>(kF, 4, 4, 7); }
HARNESS(pam_cloud_n7k5d1) { pam_steps<float, 7, 5, 1, samples_only>(kF, 4, 3, 6); }
HARNESS(pam_i32_n4k2d2) { pam_steps<int32_t, 4, 2, 2, samples_only>(kI, 3, 3, 2); }
HARNESS(pam_cloud_n8k3d2) { pam_steps<int32_t, 8, 3, 2, matrix_given>(kI, 4, 3, 7); }
HARNESS(pam_cloud_n9k4d1) { pam_steps<float, 9, 4, 1, samples_only>(kF, 4, 3, 8); }
HARNESS(pam_cloud_n16k5d1) { pam_steps<int32_t, 16, 5, 1, samples_only>(kI, 4, 3, 15); }
HARNESS(pam_cloud_n20k8d1_m) { pam_steps<float, 20, 8, 1, matrix_given>(kF, 4, 3, 19); }
HARNESS(pam_rnd_n12k4d2) { pam_steps<int32_t, 12, 4, 2, samples_only>(kI, 4, 5); }

// the same samples with D features: the value is the last one, the others are the same for all samples
template <std::size_t D>
static std::vector<float> embed(const std::vector<float>& s) {
    std::vector<float> r(s.size() * D, 5.f);
    for (std::size_t i = 0; i < s.size(); ++i) r[i * D + D - 1] = s[i];
    return r;
}
template <std::size_t N, std::size_t K, bool Precompute, bool Matrix, std::size_t D = 1>
static void fit(const float* table, uint32_t mt, std::size_t fixed, std::size_t n_init) {
    const auto s = samples<float, N, 1>(table, mt, fixed);
    const auto e = embed<D>(s);
    using It = typename std::vector<float>::const_iterator;
    using KMedoids = ffcl::KMedoids<float, Precompute>;
    std::vector<std::size_t> m;
    KMedoids* kmedoids;
    if (n_init) kmedoids = new KMedoids(K, typename KMedoids::Options().max_iter(20).early_stopping(true).patience(0).n_init(n_init));
    else { m = medoids<N, K>(); kmedoids = new KMedoids(K, m, typename KMedoids::Options().max_iter(20).early_stopping(true).patience(0)); }
    std::vector<std::size_t> r;
    if constexpr (Matrix) r = kmedoids->fit(ffcl::datastruct::PairwiseDistanceMatrix<It>(e.begin(), e.end(), D));
    else r = kmedoids->fit(e.begin(), e.end(), D);
    int valid = r.size() == K;
    for (std::size_t a = 0; a < r.size(); ++a) { valid &= r[a] < N; for (std::size_t b = 0; b < a; ++b) valid &= r[a] != r[b]; }
    sx_assert(valid, "fit: as many medoids as requested, all of them different samples");
    if (!valid) return;
    const float td = cost<float>(s, 1, r);
    if (!n_init) sx_assert(td <= cost<float>(s, 1, m), "fit: the total deviation is not above the one of the given medoids");
    for (std::size_t k = 0; k < K; ++k)
        for (std::size_t c = 0; c < N; ++c) { auto swapped = r; swapped[k] = c; sx_assert(cost<float>(s, 1, swapped) >= td, "fit: no swap of a medoid and a sample lowers the total deviation"); }
    const auto distances = kmedoids->forward(e.begin(), e.end(), D);
    float sum = 0;
    for (auto d : distances) sum += d;
    sx_assert(sum == td, "fit: forward measures the distances to the medoids returned");
    delete kmedoids;
    for (auto x : r) sx::emit(x);
    sx_reach("fit");
}
HARNESS(fit_n4k2) { fit<4, 2, true, false>(kG, 3, 0, 0); }
HARNESS(fit_n4k2_dyn) { fit<4, 2, false, false>(kG, 3, 0, 0); }
HARNESS(fit_n4k2_matrix) { fit<4, 2, true, true>(kG, 3, 0, 0); }
HARNESS(fit_n4k2_random) { fit<4, 2, true, false>(kG, 3, 2, 2); }
HARNESS(fit_n7k3_dyn) { fit<7, 3, false, false>(kF, 4, 6, 0); }
HARNESS(fit_n4k2_d2) { fit<4, 2, true, false, 2>(kG, 3, 1, 0); }
HARNESS(fit_n4k2_d3_dyn) { fit<4, 2, false, false, 3>(kG, 3, 1, 0); }
HARNESS(fit_n4k2_d2_matrix) { fit<4, 2, true, true, 2>(kG, 3, 1, 0); }
HARNESS(fit_n4k2_d2_random) { fit<4, 2, true, false, 2>(kG, 3, 2, 2); }
HARNESS(fit_n4k2_d2_random_dyn) { fit<4, 2, false, false, 2>(kG, 3, 2, 2); }
HARNESS(fit_n4k2_f1) { fit<4, 2, true, false>(kG, 3, 1, 0); }
HARNESS(fit_n4k2_f1_dyn) { fit<4, 2, false, false>(kG, 3, 1, 0); }
HARNESS(fit_n4k2_f1_matrix) { fit<4, 2, true, true>(kG, 3, 1, 0); }

// ---- P24: FasterMSC ----
// the loss FasterMSC minimises: the sum over the samples of the distance to the nearest medoid over the distance to
// the second nearest one (0 when both are 0), that is the number of samples minus their total medoid silhouette
static float msc_loss(const std::vector<float>& s, const std::vector<std::size_t>& m) {
    float sum = 0;
    for (std::size_t i = 0; i < s.size(); ++i) {
        float d1 = dist<float>(&s[i], &s[m[0]], 1), d2 = 1e30f;
        for (std::size_t k = 1; k < m.size(); ++k) {
            const float d = dist<float>(&s[i], &s[m[k]], 1);
            d2 = d < d1 ? d1 : d < d2 ? d : d2;
            d1 = d < d1 ? d : d1;
        }
        sum += d2 == 0 ? 0.f : d1 / (d2 == 0 ? 1.f : d2);
    }
    return sum;
}
// ratios of distances on this grid are exact
static const float kR[] = {0.f, 2.f, 4.f};
static const float kQ[] = {0.f, 3.f, 4.f, 10.f};
template <std::size_t N, std::size_t K, Storage S, std::size_t D = 1>
static void msc_steps(const float* table, uint32_t mt, std::size_t n, float tol, std::size_t fixed = 0, const float* base = nullptr) {
    auto s = samples<float, N, 1>(table, mt, fixed, base);
    if (tol == 0) for (std::size_t i = 0; i < fixed; ++i) s[i] = kR[(i * 2 + i / 3 + i / 5) % 3];
    const auto e = embed<D>(s);
    auto m = medoids<N, K>();
    using It = typename std::vector<float>::const_iterator;
    using MSC = ffcl::FasterMSC<It>;
    auto near = [&](float a, float b) { return (int)(a - b <= tol) & (int)(b - a <= tol); };
    auto run = [&](MSC& msc) {
        sx_assert(near(msc.total_deviation(), msc_loss(s, m)), "loss: the sum of nearest over second nearest distances of the initial medoids");
        for (std::size_t step = 0; step < n; ++step) {
            const std::vector<std::size_t> next = msc.step();
            int valid = next.size() == K;
            for (std::size_t a = 0; a < next.size(); ++a) { valid &= next[a] < N; for (std::size_t b = 0; b < a; ++b) valid &= next[a] != next[b]; }
            sx_assert(valid, "step: as many medoids, all of them different samples");
            if (!valid) return;
            const float before = msc_loss(s, m), after = msc_loss(s, next);
            sx_assert(near(msc.total_deviation(), after), "loss: the sum of nearest over second nearest distances");
            sx_assert(after <= before + tol, "step: the loss does not grow");
            int same = 1;
            for (std::size_t k = 0; k < K; ++k) same &= next[k] == m[k];
            // where ratios are rounded, a swap and its inverse can both seem to gain: no local optimum is promised
            if (same && tol == 0) {
                for (std::size_t k = 0; k < K; ++k)
                    for (std::size_t c = 0; c < N; ++c) {
                        int is_medoid = 0;
                        for (auto x : next) is_medoid |= x == c;
                        if (is_medoid) continue;
                        auto swapped = next;
                        swapped[k] = c;
                        sx_assert(msc_loss(s, swapped) >= after - tol, "step: medoids are kept only when no swap of a medoid and a sample lowers the loss");
                    }
                sx_reach("fixpoint");
            } else {
                if (tol == 0) sx_assert(after < before, "step: medoids change only to lower the loss");
                sx_reach("step");
            }
            m = next;
        }
    };
    if constexpr (S == matrix_given) {
        const ffcl::datastruct::PairwiseDistanceMatrix<It> matrix(e.begin(), e.end(), D);
        MSC msc(matrix, m);
        run(msc);
    } else {
        MSC msc(std::make_tuple(e.begin(), e.end(), (std::size_t)D), m);
        run(msc);
    }
    for (auto x : m) sx::emit(x);
}
HARNESS(msc_n3k2) { msc_steps<3, 2, samples_only>(kR, 3, 2, 0.f); }
HARNESS(msc_n4k2_f1_d2) { msc_steps<4, 2, samples_only, 2>(kR, 3, 2, 0.f, 1); }
HARNESS(msc_n5k3_f3_d3_m) { msc_steps<5, 3, matrix_given, 3>(kR, 3, 2, 0.f, 3); }
HARNESS(msc_cloud_n8k3_d2) { msc_steps<8, 3, samples_only, 2>(kQ, 4, 4, 1e-3f, 7); }
HARNESS(msc_n4k2_f1) { msc_steps<4, 2, samples_only>(kR, 3, 2, 0.f, 1); }
HARNESS(msc_n4k2_f1_m) { msc_steps<4, 2, matrix_given>(kR, 3, 2, 0.f, 1); }
HARNESS(msc_n4k3_f1) { msc_steps<4, 3, samples_only>(kR, 3, 2, 0.f, 1); }
HARNESS(msc_n5k3_f3_m) { msc_steps<5, 3, matrix_given>(kR, 3, 2, 0.f, 3); }
HARNESS(msc_n5k4_f3) { msc_steps<5, 4, samples_only>(kR, 3, 2, 0.f, 3); }
HARNESS(msc_n8k3_f7) { msc_steps<8, 3, samples_only>(kR, 3, 3, 0.f, 7); }
HARNESS(msc_n9k2_f8_m) { msc_steps<9, 2, matrix_given>(kR, 3, 3, 0.f, 8); }
HARNESS(msc_cloud_n9k2) { msc_steps<9, 2, samples_only>(kQ, 4, 4, 1e-3f, 8); }
HARNESS(msc_cloud_n8k3) { msc_steps<8, 3, matrix_given>(kQ, 4, 4, 1e-3f, 7); }
HARNESS(msc_cloud_n7k4) { msc_steps<7, 4, samples_only>(kQ, 4, 3, 1e-3f, 6); }
HARNESS(msc_n4k3_f2) { msc_steps<4, 3, samples_only>(kR, 3, 2, 0.f, 2); }
HARNESS(pam_cloud_n6k5d1) { pam_steps<float, 6, 5, 1, samples_only>(kF, 4, 3, 5); }
HARNESS(msc_n4k2) { msc_steps<4, 2, samples_only>(kR, 3, 2, 0.f); }
HARNESS(msc_n5k3_f1) { msc_steps<5, 3, matrix_given>(kR, 3, 2, 0.f, 1); }
HARNESS(msc_cloud2_n9k2_m) { msc_steps<9, 2, matrix_given>(kQ, 4, 4, 1e-3f, 7); }
HARNESS(msc_cloud2_n8k3) { msc_steps<8, 3, samples_only>(kQ, 4, 4, 1e-3f, 6); }
HARNESS(msc_cloud_n16k5) { msc_steps<16, 5, samples_only>(kQ, 4, 3, 1e-3f, 15); }
HARNESS(msc_cloud_n20k8_m) { msc_steps<20, 8, matrix_given>(kQ, 4, 3, 1e-3f, 19); }
HARNESS(msc_n18k4_f17) { msc_steps<18, 4, samples_only>(kR, 3, 3, 0.f, 17); }
HARNESS(msc_rnd_n12k2) { msc_steps<12, 2, matrix_given>(kQ, 4, 4, 1e-3f, 2); }
HARNESS(msc_rnd_n12k3) { msc_steps<12, 3, matrix_given>(kQ, 4, 4, 1e-3f, 6); }
HARNESS(msc_rnd_n12k5) { msc_steps<12, 5, matrix_given>(kQ, 4, 4, 1e-3f, 6); }
HARNESS(msc_rndx_n12k2) { msc_steps<12, 2, matrix_given>(kR, 3, 4, 0.f, 0); }
HARNESS(msc_rndx_n12k5) { msc_steps<12, 5, matrix_given>(kR, 3, 4, 0.f, 0); }

// ---- fit's own part: attempts, stopping, selection, over an algorithm whose steps and losses are arbitrary ----
static std::vector<std::vector<std::vector<std::size_t>>> g_results;  // per attempt: the initial medoids, then each step's
static std::vector<float> g_losses;
static const float kL[] = {0.f, 1.5f, 7.f};
template <typename It>
struct Arbitrary {
    std::size_t me;
    Arbitrary(const std::tuple<It, It, std::size_t>&, const std::vector<std::size_t>& m) { init(m); }
    Arbitrary(const ffcl::datastruct::PairwiseDistanceMatrix<It>&, const std::vector<std::size_t>& m) { init(m); }
    Arbitrary(const Arbitrary&) = delete;
    void init(const std::vector<std::size_t>& m) {
        me = g_results.size();
        g_results.push_back({m});
        g_losses.push_back(sx::pick_n("loss", kL, 3));
    }
    std::vector<std::size_t> step() {
        std::vector<std::size_t> r = g_results[me].size() == 1 || sx_concretize(sx_choice("changed", 2)) ? std::vector<std::size_t>{me, 10 + g_results[me].size()} : g_results[me].back();
        g_results[me].push_back(r);
        return r;
    }
    float total_deviation() const { return g_losses[me]; }
};
template <bool Precompute, bool Matrix>
static void attempts(std::size_t inits, bool given) {
    const std::vector<float> s = {1.f, 4.f, 2.f};
    using It = typename std::vector<float>::const_iterator;
    using KMedoids = ffcl::KMedoids<float, Precompute>;
    g_results.clear();
    g_losses.clear();
    const std::size_t max_iter = 1 + sx_concretize(sx_choice("iterations", 4)), patience = sx_concretize(sx_choice("patience", 3));
    const bool early = sx_concretize(sx_choice("early", 2));
    typename KMedoids::Options options;
    options = typename KMedoids::Options().max_iter(max_iter).early_stopping(early).patience(patience).n_init(inits);
    const std::vector<std::size_t> m = {2, 0};
    KMedoids kmedoids(2, given ? m : std::vector<std::size_t>{}, given ? typename KMedoids::Options() : options);
    if (given) kmedoids.set_options(options);
    std::vector<std::size_t> r;
    if constexpr (Matrix) r = kmedoids.template fit<Arbitrary>(ffcl::datastruct::PairwiseDistanceMatrix<It>(s.begin(), s.end(), 1));
    else r = kmedoids.template fit<Arbitrary>(s.begin(), s.end(), 1);
    sx_assert(g_results.size() == (given ? 1 : inits), "fit: as many attempts as n_init, one from given medoids");
    int started = 1, stopped = 1, least = 0;
    float best = g_losses[0];
    for (auto x : g_losses) best = x < best ? x : best;
    for (std::size_t a = 0; a < g_results.size(); ++a) {
        const auto& v = g_results[a];
        if (given) started &= v[0] == m;
        else started &= (v[0].size() == 2) && (v[0][0] != v[0][1]) & (v[0][0] < 3) & (v[0][1] < 3);
        const std::size_t steps = v.size() - 1;
        std::size_t unchanged = 0;
        for (std::size_t i = 2; i < v.size(); ++i) {
            stopped &= !early || unchanged <= patience;
            unchanged = v[i] == v[i - 1] ? unchanged + 1 : 0;
        }
        stopped &= steps <= max_iter && (steps == max_iter || (early && unchanged == patience + 1));
        least |= (int)(g_losses[a] == best) & (int)(r == v.back());
    }
    sx_assert(started, "fit: attempts start from different samples, or from the medoids given");
    sx_assert(stopped, "fit: an attempt makes max_iter steps, or stops as soon as patience + 1 steps in a row changed nothing");
    sx_assert(least, "fit: the final medoids of the attempt with the smallest loss are returned");
    for (auto x : r) sx::emit(x);
    sx_reach("attempts");
}
HARNESS(attempts_given) { attempts<true, false>(3, true); }
HARNESS(attempts_2) { attempts<true, false>(2, false); }
HARNESS(attempts_2_dyn) { attempts<false, false>(2, false); }
HARNESS(attempts_2_matrix) { attempts<true, true>(2, false); }
HARNESS(attempts_given_matrix) { attempts<true, true>(3, true); }
// many swaps on the way to the optimum
static const float kLineA[] = {24, 29, 15, 6, 22, 26, 14, 30, 12, 21, 13, 2}, kLineB[] = {0, 1, 3, 7, 15, 31, 40, 44, 46, 47, 80, 81}, kLineV[] = {4, 18, 43};
HARNESS(pam_line_n10k3) { pam_steps<float, 10, 3, 1, samples_only>(kLineV, 3, 3, 9, kLineA); }
HARNESS(pam_line_n10k3_m) { pam_steps<float, 10, 3, 1, matrix_given>(kLineV, 3, 3, 9, kLineB); }
HARNESS(pam_line_n12k3_m) { pam_steps<float, 12, 3, 1, matrix_given>(kLineV, 3, 3, 11, kLineB); }
HARNESS(pam_line_n7k4) { pam_steps<float, 7, 4, 1, samples_only>(kLineV, 3, 3, 6, kLineB + 2); }
HARNESS(pam_line_n8k4_m) { pam_steps<float, 8, 4, 1, matrix_given>(kLineV, 3, 3, 7, kLineA); }
HARNESS(msc_line_n10k2) { msc_steps<10, 2, samples_only>(kLineV, 3, 3, 1e-3f, 9, kLineA); }
HARNESS(msc_line_n12k3_m) { msc_steps<12, 3, matrix_given>(kLineV, 3, 3, 1e-3f, 11, kLineB); }
HARNESS(msc_line_n8k4) { msc_steps<8, 4, samples_only>(kLineV, 3, 3, 1e-3f, 7, kLineA); }
HARNESS(msc_line_n10k3) { msc_steps<10, 3, samples_only>(kLineV, 3, 3, 1e-3f, 9, kLineA); }
