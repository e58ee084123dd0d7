#include "sx.hpp"
#include "sx_random.hpp"
#include "sx_rt.hpp"
#include "ffcl/kmeans/KMeans.hpp"
#include <array>

static const float kF[] = {-3.f, 0.f, 1.f, 2.5f};
static const float kG[] = {0.f, 1.f, 5.f};
static const double kD[] = {-3., 0., 1., 2.5};
static const int32_t kI[] = {-4, 0, 3, 9};
static const uint16_t kU[] = {0, 2, 7, 60000};
static const float kC[] = {-2.5f, 1.5f, 6.5f};
static inline float cloud(std::size_t i, std::size_t f) { return (float)(int)((i * (f ? 5 : 7) + (i / 6) * (3 + f) + 2 * f) % 9) - 2.f; }

template <typename T> static T cloud_of(std::size_t i, std::size_t f) { return (T)(cloud(i, f) + (std::is_unsigned_v<T> ? 2.f : 0.f)); }

// distance of the library for the type: euclidean (squared here), manhattan for integers
template <typename T>
static double dist(const T* a, const T* b, std::size_t D) {
    double r = 0;
    for (std::size_t f = 0; f < D; ++f) {
        const double d = (double)a[f] - (double)b[f];
        r += std::is_floating_point_v<T> ? d * d : d < 0 ? -d : d;
    }
    return r;
}
template <typename T, std::size_t N, std::size_t K, std::size_t D>
static void predict(const T* table, uint32_t m, std::size_t fixed = 0) {
    std::vector<T> s(N * D), c(K * D);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = i / D < fixed ? cloud_of<T>(i / D, i % D) : sx::pick_n("value", table, m);
    for (std::size_t i = 0; i < K * D; ++i) c[i] = fixed == N ? T(0) : fixed && i / D + 1 < K ? cloud_of<T>(i / D + 50, i % D) : sx::pick_n("centroid", table, m);
    if (fixed == N) {   // many dimensions: one coordinate of one sample is free
        for (std::size_t i = 0; i < N * D; ++i) s[i] = (T)(int)((i * 5 + i / D * 3 + i * i % 7) % 11);
        for (std::size_t i = 0; i < K * D; ++i) c[i] = (T)(int)((i * 7 + i / D * 4 + i * i % 5) % 13);
        s[(N - 1) * D + sx_concretize(sx_choice("coordinate", (uint32_t)D))] = sx::pick_n("value", table, m);
    }
    const ffcl::KMeans<T> kmeans(K, c);
    const auto labels = kmeans.predict(s.begin(), s.end(), D);
    const auto distances = kmeans.forward(s.begin(), s.end(), D);
    sx_assert((labels.size() == N) & (distances.size() == N), "predict: one label and distance per sample");
    int valid = 1, nearest = 1, exact = 1;
    for (std::size_t i = 0; i < N; ++i) {
        double best = 1e300, own = -1;
        for (std::size_t k = 0; k < K; ++k) { const double d = dist<T>(&s[i * D], &c[k * D], D); best = d < best ? d : best; own = labels[i] == k ? d : own; }
        valid &= labels[i] < K;
        nearest &= own == best;
        if (std::is_floating_point_v<T>) { const double x = (double)distances[i] * (double)distances[i] - best, tol = 1e-4 * (1 + best); exact &= (x <= tol) & (-x <= tol) & (distances[i] >= 0); }
        else exact &= (double)distances[i] == best;
    }
    sx_assert(valid, "predict: labels are centroid indices");
    sx_assert(nearest, "predict: no centroid is closer than the predicted one");
    sx_assert(exact, "forward: the distance to the nearest centroid");
    for (auto x : labels) sx::emit(x);
    for (auto x : distances) sx::emit(x);
    sx_reach("predict");
}
HARNESS(predict_f32_n2k2d1) { predict<float, 2, 2, 1>(kF, 4); }
HARNESS(predict_f32_n1k3d1) { predict<float, 1, 3, 1>(kF, 4); }
HARNESS(predict_f32_n1k2d2) { predict<float, 1, 2, 2>(kF, 3); }
HARNESS(predict_f32_n1k1d2) { predict<float, 1, 1, 2>(kF, 3); }
HARNESS(predict_f32_n2k2d2) { predict<float, 2, 2, 2>(kF, 2); }
HARNESS(predict_f64_n1k2d2) { predict<double, 1, 2, 2>(kD, 3); }
HARNESS(predict_i32_n2k2d1) { predict<int32_t, 2, 2, 1>(kI, 4); }
HARNESS(predict_i32_n1k3d2) { predict<int32_t, 1, 3, 2>(kI, 3); }
HARNESS(predict_u16_n1k3d1) { predict<uint16_t, 1, 3, 1>(kU, 3); }
HARNESS(predict_wide_n6k5d5) { predict<float, 6, 5, 5>(kF, 4, 6); }
HARNESS(predict_wide_n4k12d9) { predict<double, 4, 12, 9>(kD, 4, 4); }
HARNESS(predict_wide_i32_n4k9d6) { predict<int32_t, 4, 9, 6>(kI, 4, 4); }
HARNESS(predict_cloud_n20k5d2) { predict<float, 20, 5, 2>(kC, 3, 19); }

// ---- steps ----
// Is `next` a k-means step from `c`: every centroid the mean of the samples assigned to it, each sample assigned to a
// nearest centroid (any of them when tied, up to rounding), a centroid without samples where it was?
template <typename T>
static bool close(double a, double b) { const double x = a - b, t = std::is_floating_point_v<T> ? 1e-3 : 0; return (x <= t) & (-x <= t); }
template <typename T, std::size_t N, std::size_t K, std::size_t D>
static bool is_step(const std::vector<T>& s, const std::vector<T>& c, const std::vector<T>& next) {
    std::array<std::vector<std::size_t>, N> tied;
    for (std::size_t i = 0; i < N; ++i) {
        double best = 1e300;
        for (std::size_t k = 0; k < K; ++k) { const double d = dist<T>(&s[i * D], &c[k * D], D); best = d < best ? d : best; }
        for (std::size_t k = 0; k < K; ++k) if (dist<T>(&s[i * D], &c[k * D], D) <= best + (std::is_floating_point_v<T> ? 1e-4 : 0)) tied[i].push_back(k);
    }
    std::array<std::size_t, N> pick{};
    for (;;) {
        int ok = 1;
        for (std::size_t k = 0; k < K; ++k)
            for (std::size_t f = 0; f < D; ++f) {
                double sum = 0;
                std::size_t n = 0;
                for (std::size_t i = 0; i < N; ++i) if (tied[i][pick[i]] == k) { sum += s[i * D + f]; ++n; }
                double mean = n ? sum / (double)n : c[k * D + f];
                if (!std::is_floating_point_v<T>) mean = (double)(int64_t)mean;
                ok &= close<T>(next[k * D + f], mean);
            }
        if (ok) return true;
        std::size_t i = 0;
        while (i < N && ++pick[i] == tied[i].size()) pick[i++] = 0;
        if (i == N) return false;
    }
}
template <typename T, std::size_t N, std::size_t K, std::size_t D>
static double cost(const std::vector<T>& s, const std::vector<T>& c, bool root = false) {
    double sum = 0;
    for (std::size_t i = 0; i < N; ++i) {
        double best = 1e300;
        for (std::size_t k = 0; k < K; ++k) { const double d = dist<T>(&s[i * D], &c[k * D], D); best = d < best ? d : best; }
        sum += root ? std::sqrt(best) : best;
    }
    return sum;
}
template <typename T, std::size_t N, std::size_t D>
static std::vector<T> samples(const T* table, uint32_t m, std::size_t fixed) {
    std::vector<T> s(N * D);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = i / D < fixed ? cloud_of<T>(i / D, i % D) : sx::pick_n("value", table, m);
    return s;
}
template <template <typename> class Algorithm, typename T, std::size_t N, std::size_t K, std::size_t D>
static void steps(const T* table, uint32_t m, std::size_t n, std::size_t fixed = 0, std::size_t fixed_centroids = 0) {
    const auto s = samples<T, N, D>(table, m, fixed);
    std::vector<T> c(K * D);
    for (std::size_t i = 0; i < K * D; ++i) c[i] = i / D < fixed_centroids ? cloud_of<T>(i / D + 50, i % D) : sx::pick_n("centroid", table, m);
    auto algorithm = Algorithm(std::make_tuple(s.begin(), s.end(), D), c);
    for (std::size_t step = 0; step < n; ++step) {
        const std::vector<T> next = algorithm.step();
        sx_assert(next.size() == K * D, "step: as many centroids as before");
        sx_assert(is_step<T, N, K, D>(s, c, next), "step: every centroid moves to the mean of the samples nearest to it");
        if (std::is_floating_point_v<T> && fixed > 8) sx_assert(cost<T, N, K, D>(s, next) <= cost<T, N, K, D>(s, c) + 1e-3, "step: the sum of squared distances does not grow");
        c = next;
    }
    for (auto x : c) sx::emit(x);
    sx_reach("steps");
}
HARNESS(lloyd_n3k3d1) { steps<ffcl::Lloyd, float, 3, 3, 1>(kG, 3, 2); }
HARNESS(lloyd_n3k1d1) { steps<ffcl::Lloyd, float, 3, 1, 1>(kF, 4, 2); }
HARNESS(lloyd_n3k2d2) { steps<ffcl::Lloyd, float, 3, 2, 2>(kG, 2, 2); }
HARNESS(lloyd_i32_n3k2d1) { steps<ffcl::Lloyd, int32_t, 3, 2, 1>(kI, 3, 2); }
HARNESS(lloyd_cloud_n12k3d2) { steps<ffcl::Lloyd, float, 12, 3, 2>(kC, 3, 2, 11, 3); }
HARNESS(lloyd_cloud_n12k4d2) { steps<ffcl::Lloyd, float, 12, 4, 2>(kC, 3, 2, 12, 3); }
HARNESS(hamerly_n3k1d1) { steps<ffcl::Hamerly, float, 3, 1, 1>(kF, 4, 2); }
HARNESS(hamerly_n3k2d2) { steps<ffcl::Hamerly, float, 3, 2, 2>(kG, 2, 3); }
HARNESS(hamerly_cloud_n12k3d2) { steps<ffcl::Hamerly, float, 12, 3, 2>(kC, 3, 4, 11, 3); }
HARNESS(hamerly_cloud_n12k4d2) { steps<ffcl::Hamerly, float, 12, 4, 2>(kC, 3, 4, 12, 3); }
HARNESS(hamerly_n6k3d1) { steps<ffcl::Hamerly, float, 6, 3, 1>(kF, 4, 4); }
HARNESS(hamerly_n8k3d2) { steps<ffcl::Hamerly, float, 8, 3, 2>(kF, 4, 5); }
HARNESS(lloyd_n8k3d2) { steps<ffcl::Lloyd, float, 8, 3, 2>(kF, 4, 5); }

// ---- fit ----
template <template <typename> class Algorithm, std::size_t N, std::size_t K, std::size_t D>
static void fit(const float* table, uint32_t m, std::size_t fixed = 0) {
    const auto s = samples<float, N, D>(table, m, fixed);
    std::vector<float> c(K * D);
    for (auto& x : c) x = sx::pick_n("centroid", table, m);
    using KMeans = ffcl::KMeans<float>;
    const std::size_t n = 1 + sx_concretize(sx_choice("iterations", 3));
    KMeans kmeans(K, c, KMeans::Options().max_iter(n).early_stopping(false).n_init(3));
    const auto result = kmeans.template fit<Algorithm>(s.begin(), s.end(), D);
    auto algorithm = Algorithm(std::make_tuple(s.begin(), s.end(), D), c);
    std::vector<float> expected;
    for (std::size_t i = 0; i < n; ++i) expected = algorithm.step();
    sx_assert(result.size() == K * D, "fit: one position per centroid");
    int same = 1;
    for (std::size_t i = 0; i < K * D; ++i) same &= (result[i] == expected[i]);
    sx_assert(same, "fit: the centroids given, after max_iter steps");
    KMeans stopping(K, c, KMeans::Options().max_iter(50).early_stopping(true).patience(n - 1));
    const auto stopped = stopping.template fit<Algorithm>(s.begin(), s.end(), D);
    const bool stationary = is_step<float, N, K, D>(s, stopped, stopped);
    sx_assert(stationary, "fit: stops where a further step changes nothing");
    sx_assert(cost<float, N, K, D>(s, stopped) <= cost<float, N, K, D>(s, c) + 1e-3, "fit: not worse than the initial centroids");
    const auto labels = stopping.predict(s.begin(), s.end(), D);
    int nearest = 1;
    for (std::size_t i = 0; i < N; ++i) for (std::size_t k = 0; k < K; ++k) nearest &= dist<float>(&s[i * D], &stopped[labels[i] * D], D) <= dist<float>(&s[i * D], &stopped[k * D], D) + 1e-4;
    sx_assert(nearest, "fit: predicts with the centroids returned");
    for (auto x : stopped) sx::emit(x);
    sx_reach("fit");
}
template <template <typename> class Algorithm, std::size_t N, std::size_t K, std::size_t D>
static void best(const float* table, uint32_t m, std::size_t inits, std::size_t iterations, std::size_t fixed = 0) {
    const auto s = samples<float, N, D>(table, m, fixed);
    std::vector<std::vector<float>> c(inits, std::vector<float>(K * D));
    for (auto& v : c) for (auto& x : v) x = sx::pick_n("centroid", table, m);
    using KMeans = ffcl::KMeans<float>;
    using It = decltype(s.begin());
    KMeans kmeans(K, KMeans::Options().max_iter(iterations).n_init(inits));
    std::size_t calls = 0;
    const auto result = kmeans.template fit<Algorithm>(s.begin(), s.end(), D, [&](const It&, const It&, std::size_t n_features, std::size_t k) {
        sx_assert((calls < inits) & (n_features == D) & (k == K), "fit: the initialiser is asked for n_init sets of centroids");
        return c[calls++];
    });
    sx_assert(calls == inits, "fit: the initialiser is asked for n_init sets of centroids");
    const double loss = cost<float, N, K, D>(s, result, true);
    int least = 1;
    for (auto& v : c) {
        KMeans single(K, v, KMeans::Options().max_iter(iterations));
        const auto other = single.template fit<Algorithm>(s.begin(), s.end(), D);
        least &= loss <= cost<float, N, K, D>(s, other, true) + 1e-3;
    }
    sx_assert(least, "fit: the attempt with the smallest total distance is returned");
    for (auto x : result) sx::emit(x);
    sx_reach("best");
}
HARNESS(fit_lloyd_n4k2d1) { fit<ffcl::Lloyd, 4, 2, 1>(kF, 3); }
HARNESS(fit_hamerly_n6k3d2) { fit<ffcl::Hamerly, 6, 3, 2>(kF, 4); }
HARNESS(best_lloyd_n3k2d1) { best<ffcl::Lloyd, 3, 2, 1>(kG, 3, 2, 10); }
HARNESS(best_hamerly_n3k2d1) { best<ffcl::Hamerly, 3, 2, 1>(kG, 3, 2, 10); }
HARNESS(best_hamerly_n4k2d1) { best<ffcl::Hamerly, 4, 2, 1>(kG, 2, 3, 3); }
HARNESS(best_hamerly_n6k3d2) { best<ffcl::Hamerly, 6, 3, 2>(kF, 4, 3, 10); }
HARNESS(lloyd_n3k2d1) { steps<ffcl::Lloyd, float, 3, 2, 1>(kF, 3, 2); }
HARNESS(lloyd_n4k2d1) { steps<ffcl::Lloyd, float, 4, 2, 1>(kG, 2, 2); }
HARNESS(hamerly_n3k2d1) { steps<ffcl::Hamerly, float, 3, 2, 1>(kF, 3, 3); }
HARNESS(hamerly_n4k2d1) { steps<ffcl::Hamerly, float, 4, 2, 1>(kG, 2, 3); }
HARNESS(hamerly_n3k3d1) { steps<ffcl::Hamerly, float, 3, 3, 1>(kG, 2, 3); }
HARNESS(hamerly_mixed_n4k3d1) { steps<ffcl::Hamerly, float, 4, 3, 1>(kF, 3, 3, 2, 1); }
HARNESS(hamerly_mixed_n6k3d1) { steps<ffcl::Hamerly, float, 6, 3, 1>(kF, 3, 4, 4, 2); }
HARNESS(hamerly_mixed_n6k2d1) { steps<ffcl::Hamerly, float, 6, 2, 1>(kF, 3, 4, 4, 1); }
HARNESS(hamerly_i32_mixed_n5k3d1) { steps<ffcl::Hamerly, int32_t, 5, 3, 1>(kI, 4, 3, 3, 2); }
HARNESS(lloyd_i32_mixed_n5k3d2) { steps<ffcl::Lloyd, int32_t, 5, 3, 2>(kI, 3, 3, 4, 2); }
HARNESS(fit_lloyd_n3k2d1) { fit<ffcl::Lloyd, 3, 2, 1>(kG, 2); }
HARNESS(fit_hamerly_n3k2d1) { fit<ffcl::Hamerly, 3, 2, 1>(kG, 2); }
HARNESS(fit_hamerly_mixed_n5k2d1) { fit<ffcl::Hamerly, 5, 2, 1>(kF, 3, 4); }
HARNESS(fit_hamerly_mixed_n6k3d1) { fit<ffcl::Hamerly, 6, 3, 1>(kF, 3, 5); }
HARNESS(best_hamerly_mixed_n5k2d1) { best<ffcl::Hamerly, 5, 2, 1>(kF, 3, 2, 10, 5); }
HARNESS(best_lloyd_mixed_n5k2d1) { best<ffcl::Lloyd, 5, 2, 1>(kF, 3, 2, 10, 5); }
HARNESS(hamerly_cloud2_n16k4d2) { steps<ffcl::Hamerly, float, 16, 4, 2>(kC, 3, 5, 15, 3); }
HARNESS(hamerly_cloud_n30k5d2) { steps<ffcl::Hamerly, float, 30, 5, 2>(kC, 3, 6, 30, 4); }
HARNESS(hamerly_mixed_n8k3d2) { steps<ffcl::Hamerly, float, 8, 3, 2>(kF, 3, 5, 8, 2); }
HARNESS(lloyd_cloud_n30k5d2) { steps<ffcl::Lloyd, float, 30, 5, 2>(kC, 3, 4, 30, 4); }
// the total deviation of an algorithm: the sum of the distances to the nearest centroid, one feature or integers
template <typename T, std::size_t N, std::size_t K, std::size_t D, typename A>
static void deviation(const A& algorithm, const std::vector<T>& s, const std::vector<T>& c) {
    double sum = 0;
    for (std::size_t i = 0; i < N; ++i) {
        double best = 1e300;
        for (std::size_t k = 0; k < K; ++k) {
            double d = 0;
            for (std::size_t f = 0; f < D; ++f) { const double x = (double)s[i * D + f] - (double)c[k * D + f]; d += x < 0 ? -x : x; }
            best = d < best ? d : best;
        }
        sum += best;
    }
    const double x = (double)algorithm.total_deviation() - sum, t = std::is_floating_point_v<T> ? 1e-2 : 0;
    sx_assert((x <= t) & (-x <= t), "total deviation: the sum of the distances to the nearest centroid");
}
// initial centroids close to each other: samples change their centroid again and again on the way
template <template <typename> class A, std::size_t N, std::size_t K, std::size_t M>
static void line(const float* base, const float (&bunch)[M], std::size_t n) {
    std::vector<float> s(base, base + N), c(K);
    static const float kV[] = {0.f, 9.f, 21.f};
    s[N / 2] = sx::pick("value", kV);
    s[1] = kV[sx_concretize(sx_choice("value", 3))];
    std::array<int, M> taken{};
    for (auto& x : c) { const std::size_t w = sx_concretize(sx_choice("centroid", M)); sx_assume(!taken[w]); taken[w] = 1; x = bunch[w]; }
    auto algorithm = A<std::vector<float>::const_iterator>(std::make_tuple(s.cbegin(), s.cend(), 1), c);
    deviation<float, N, K, 1>(algorithm, s, c);
    for (std::size_t step = 0; step < n; ++step) {
        const std::vector<float> next = algorithm.step();
        sx_assert((next.size() == K && is_step<float, N, K, 1>(s, c, next)), "step: every centroid moves to the mean of the samples nearest to it");
        c = next;
        deviation<float, N, K, 1>(algorithm, s, c);
    }
    for (auto x : c) sx::emit(x);
    sx_reach("steps");
}
static const float kLineA[] = {24, 29, 15, 6, 22, 26, 15, 30, 12, 22, 13, 2}, kLineB[] = {20, 6, 16, 15, 7, 26, 27, 23, 8, 26}, kLineC[] = {30, 16, 30, 7, 22, 24, 11, 8, 10, 27};
HARNESS(hamerly_line_n12k3) { static const float b[] = {2, 4, 6}; line<ffcl::Hamerly, 12, 3>(kLineA, b, 7); }
HARNESS(hamerly_line_n10k4) { static const float b[] = {24, 30, 27, 26}; line<ffcl::Hamerly, 10, 4>(kLineB, b, 6); }
HARNESS(hamerly_line_n10k3) { static const float b[] = {9, 4, 5, 12}; line<ffcl::Hamerly, 10, 3>(kLineC, b, 7); }
HARNESS(lloyd_line_n12k3) { static const float b[] = {2, 4, 6}; line<ffcl::Lloyd, 12, 3>(kLineA, b, 7); }
// many dimensions and centroids: fixed samples without ties, centroids that start close together, one coordinate of one
// sample, at any position, free
template <template <typename> class A, typename T, std::size_t N, std::size_t K, std::size_t D>
static void broad(std::size_t n) {
    static const T kV[] = {std::is_unsigned_v<T> ? T(50) : T(-7), T(3), T(16)};
    std::vector<T> s(N * D), c(K * D);
    for (std::size_t i = 0; i < N; ++i) for (std::size_t f = 0; f < D; ++f) s[i * D + f] = (T)((double)((i * i * (7 + f) + i * (13 + 5 * f) + f * 11) % 101) * (std::is_floating_point_v<T> ? 0.173 : 3));
    for (std::size_t k = 0; k < K; ++k) for (std::size_t f = 0; f < D; ++f) c[k * D + f] = (T)((double)((k * (17 + f) + f * 3) % 23) * (std::is_floating_point_v<T> ? 0.31 : 5));
    s[(N / 2) * D + sx_concretize(sx_choice("coordinate", D))] = kV[sx_concretize(sx_choice("near", 3))] + sx::pick("value", kV) / 2;
    auto algorithm = A<typename std::vector<T>::const_iterator>(std::make_tuple(s.cbegin(), s.cend(), D), c);
    if constexpr (!std::is_floating_point_v<T>) deviation<T, N, K, D>(algorithm, s, c);
    for (std::size_t step = 0; step < n; ++step) {
        const std::vector<T> next = algorithm.step();
        sx_assert((next.size() == K * D && is_step<T, N, K, D>(s, c, next)), "step: every centroid moves to the mean of the samples nearest to it");
        c = next;
        if constexpr (!std::is_floating_point_v<T>) deviation<T, N, K, D>(algorithm, s, c);
    }
    for (auto x : c) sx::emit(x);
    sx_reach("steps");
}
HARNESS(hamerly_broad_n24k8d3) { broad<ffcl::Hamerly, float, 24, 8, 3>(6); }
HARNESS(hamerly_broad_n16k6d5) { broad<ffcl::Hamerly, double, 16, 6, 5>(6); }
HARNESS(hamerly_broad_n40k9d2) { broad<ffcl::Hamerly, float, 40, 9, 2>(7); }
HARNESS(hamerly_broad_n30k9d9) { broad<ffcl::Hamerly, double, 30, 9, 9>(5); }
HARNESS(lloyd_broad_n24k8d3) { broad<ffcl::Lloyd, float, 24, 8, 3>(5); }
HARNESS(hamerly_broad_i32_n16k4d2) { broad<ffcl::Hamerly, int32_t, 16, 4, 2>(4); }
HARNESS(lloyd_broad_i32_n24k6d3) { broad<ffcl::Lloyd, int32_t, 24, 6, 3>(4); }
static const uint32_t kU32[] = {0, 2, 7, 30};
HARNESS(lloyd_u32_n3k2d1) { steps<ffcl::Lloyd, uint32_t, 3, 2, 1>(kU32, 3, 2); }
HARNESS(hamerly_u32_mixed_n5k3d1) { steps<ffcl::Hamerly, uint32_t, 5, 3, 1>(kU32, 4, 3, 3, 2); }
HARNESS(hamerly_u32_n3k1d1) { steps<ffcl::Hamerly, uint32_t, 3, 1, 1>(kU32, 4, 2); }
HARNESS(lloyd_u32_mixed_n5k3d2) { steps<ffcl::Lloyd, uint32_t, 5, 3, 2>(kU32, 3, 3, 4, 2); }
HARNESS(hamerly_broad_u32_n16k4d2) { broad<ffcl::Hamerly, uint32_t, 16, 4, 2>(4); }
HARNESS(lloyd_broad_u32_n24k6d3) { broad<ffcl::Lloyd, uint32_t, 24, 6, 3>(4); }
HARNESS(predict_u32_n2k2d2) { predict<uint32_t, 2, 2, 2>(kU32, 2); }
HARNESS(predict_wide_u32_n4k9d6) { predict<uint32_t, 4, 9, 6>(kU32, 4, 4); }
// ---- fit's own part: attempts, stopping, selection, over an algorithm whose steps and losses are arbitrary ----
static std::vector<std::vector<std::vector<float>>> g_results;  // per attempt: the initial centroids, then each step's
static std::vector<float> g_losses;
static const float kL[] = {0.f, 1.5f, 7.f}, kMove[] = {0.f, 0.25f, 0.5f};
template <typename It>
struct Arbitrary {
    std::size_t me;
    Arbitrary(const std::tuple<It, It, std::size_t>&, const std::vector<float>& c) {
        me = g_results.size();
        g_results.push_back({c});
        g_losses.push_back(sx::pick_n("loss", kL, 3));
    }
    Arbitrary(const Arbitrary&) = delete;
    std::vector<float> step() {
        std::vector<float> r = g_results[me].size() == 1 ? std::vector<float>{(float)me + 1, 9.f} : g_results[me].back();
        if (g_results[me].size() > 1) r[1] -= kMove[sx_concretize(sx_choice("moved", 3))];
        g_results[me].push_back(r);
        return r;
    }
    float total_deviation() const { return g_losses[me]; }
};
static void attempts(std::size_t inits, bool given, std::size_t iterations) {
    const std::vector<float> s = {1.f, 4.f, 2.f};
    using It = typename std::vector<float>::const_iterator;
    using KMeans = ffcl::KMeans<float>;
    g_results.clear();
    g_losses.clear();
    const std::size_t max_iter = 1 + sx_concretize(sx_choice("iterations", iterations)), patience = sx_concretize(sx_choice("patience", 3));
    const bool early = sx_concretize(sx_choice("early", 2));
    const float tolerance = kMove[sx_concretize(sx_choice("tolerance", 2))];
    KMeans::Options options;
    options = KMeans::Options().max_iter(max_iter).early_stopping(early).patience(patience).tolerance(tolerance).n_init(inits);
    const std::vector<float> c = {7.f, -3.f};
    std::size_t calls = 0;
    KMeans kmeans(2, given ? c : std::vector<float>{}, given ? KMeans::Options() : options);
    if (given) kmeans.set_options(options);
    const std::vector<float> r = kmeans.template fit<Arbitrary>(s.begin(), s.end(), 1, [&](const It&, const It&, std::size_t, std::size_t) {
        ++calls;
        return std::vector<float>{(float)calls * 10, 0.f};
    });
    sx_assert((calls == (given ? 0 : inits)) & (g_results.size() == (given ? 1 : inits)), "fit: as many attempts as n_init, one from given centroids");
    int started = 1, stopped = 1, least = 0;
    float best = g_losses[0];
    for (auto x : g_losses) best = x < best ? x : best;
    for (std::size_t a = 0; a < g_results.size(); ++a) {
        const auto& v = g_results[a];
        started &= v[0] == (given ? c : std::vector<float>{(float)(a + 1) * 10, 0.f});
        const std::size_t steps = v.size() - 1;
        std::size_t unchanged = 0;
        for (std::size_t i = 2; i < v.size(); ++i) {
            stopped &= !early || unchanged <= patience;
            unchanged = v[i - 1][1] - v[i][1] <= tolerance ? unchanged + 1 : 0;
        }
        stopped &= steps <= max_iter && (steps == max_iter || (early && unchanged == patience + 1));
        least |= (int)(g_losses[a] == best) & (int)(r == v.back());
    }
    sx_assert(started, "fit: attempts start from the initialiser's centroids, or from those given");
    sx_assert(stopped, "fit: an attempt makes max_iter steps, or stops as soon as patience + 1 steps in a row moved no centroid by more than the tolerance");
    sx_assert(least, "fit: the final centroids of the attempt with the smallest loss are returned");
    for (auto x : r) sx::emit(x);
    sx_reach("attempts");
}
HARNESS(attempts_given) { attempts(3, true, 5); }
HARNESS(attempts_2) { attempts(2, false, 3); }
HARNESS(attempts_3) { attempts(3, false, 2); }
static const float kBig[] = {-3e4f, 0.f, 1.f, 7e5f};
static const double kHuge[] = {-1e60, 0., 1e90, 2.5};
HARNESS(predict_big_n2k2d1) { predict<float, 2, 2, 1>(kBig, 4); }
HARNESS(predict_big_f64_n2k2d1) { predict<double, 2, 2, 1>(kHuge, 4); }
