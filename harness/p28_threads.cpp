// The multithreaded build (OpenMP): the number of threads and the order in which they run are solver variables; an access
// to memory that another thread of the region accesses too, one of them writing, is a violation.
#include "kd_common.hpp"
#include "sx_omp.hpp"
#include "ffcl/dbscan/DBSCAN.hpp"
#include "ffcl/hdbscan/HDBSCAN.hpp"
#include "ffcl/kmeans/KMeans.hpp"
#include "ffcl/kmedoids/KMedoids.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrix.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp"
#include "ffcl/common/math/linear_algebra/Transpose.hpp"
#include <array>
namespace ds = ffcl::datastruct;
namespace la = ffcl::common::math::linear_algebra;

static const float kF[] = {-3.f, 0.f, 1.f, 2.5f};
static const double kD[] = {-3., 0., 1., 2.5};
static const int32_t kI[] = {-4, 0, 3, 9};
static inline int cloud(std::size_t i, std::size_t f) { return (int)((i * (f ? 5 : 7) + (i / 6) * (3 + f) + 2 * f) % 11) * 2 - 4; }

static void one_thread() { sx_omp::threads = 1; sx_omp::backwards = 0; }
static void any_threads() {
    static const int n[] = {1, 2, 3, 4, 8};
    sx_omp::threads = n[sx_concretize(sx_choice("threads", 5))];
    sx_omp::backwards = (int)sx_concretize(sx_choice("backwards", 2));
}
// a cloud of samples, one of which (any) has a free coordinate (any)
template <typename T>
static std::vector<T> samples(std::size_t n, std::size_t d, const T* table, uint32_t m) {
    std::vector<T> s(n * d);
    for (std::size_t i = 0; i < n * d; ++i) s[i] = (T)cloud(i / d, i % d);
    s[sx_concretize(sx_choice("position", (uint32_t)(n * d > 6 ? 6 : n * d)) * (n * d > 6 ? n * d / 6 : 1))] = sx::pick_n("value", table, m);
    return s;
}
template <typename V>
static int same(const V& a, const V& b) {
    if (a.size() != b.size()) return 0;
    int r = 1;
    for (std::size_t i = 0; i < a.size(); ++i) r &= a[i] == b[i];
    return r;
}
template <typename T>
static void transpose(std::size_t n, std::size_t d) {
    std::vector<T> s(n * d);
    for (std::size_t i = 0; i < n * d; ++i) s[i] = (T)(int)(i * 7 + i / 3);
    for (std::size_t i = 0; i < n * d; i += n * d / 8 + 1) s[i] = (T)sx::any_i32("value");
    any_threads();
    const auto [t, rows, columns] = la::transpose(s.begin(), s.end(), d);
    sx_assert((rows == d) & (columns == n) & (t.size() == n * d), "transpose: rows and columns exchanged");
    int ok = 1;
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < d; ++j) ok &= t[j * n + i] == s[i * d + j];
    sx_assert(ok, "transpose by several threads: every element in its place");
    for (std::size_t i = 0; i < n * d; i += 17) sx::emit(t[i]);
    sx_reach("transpose");
}
HARNESS(transpose_n3d2) { transpose<int32_t>(3, 2); }
HARNESS(transpose_n70d3) { transpose<int32_t>(70, 3); }
HARNESS(transpose_n3d70) { transpose<int32_t>(3, 70); }
HARNESS(transpose_n66d66) { transpose<int32_t>(66, 66); }
HARNESS(transpose_n130d2) { transpose<int32_t>(130, 2); }

template <typename T>
static void matrix(std::size_t n, std::size_t d, const T* table) {
    std::vector<T> s = samples<T>(n, d, table, 4);
    any_threads();
    const ds::PairwiseDistanceMatrix<typename std::vector<T>::iterator> m(s.begin(), s.end(), d);
    sx_assert((m.n_rows() == n) & (m.n_columns() == n), "matrix by several threads: one row per sample");
    int ok = 1;
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < n; ++j) {
            double e = 0;
            for (std::size_t f = 0; f < d; ++f) {
                const double x = (double)s[i * d + f] - (double)s[j * d + f];
                e += std::is_floating_point_v<T> ? x * x : x < 0 ? -x : x;
            }
            const double v = (double)m(i, j), x = (std::is_floating_point_v<T> ? v * v : v) - e, tol = std::is_floating_point_v<T> ? 1e-5 * (1 + e) : 0;
            ok &= (v >= 0) & (x <= tol) & (-x <= tol);
        }
    sx_assert(ok, "matrix by several threads: the distance of every pair");
    for (std::size_t i = 0; i < n; ++i) sx::emit(m(i, (i * 3 + 1) % n));
    sx_reach("matrix");
}
HARNESS(matrix_f32_n2d1) { matrix<float>(2, 1, kF); }
HARNESS(matrix_f32_n5d2) { matrix<float>(5, 2, kF); }
HARNESS(matrix_f64_n9d2) { matrix<double>(9, 2, kD); }
HARNESS(matrix_i32_n7d2) { matrix<int32_t>(7, 2, kI); }

// several attempts: the initial centroids of each are fixed, the samples have a free coordinate
template <typename T, template <typename> class Algorithm>
static void attempts_of_kmeans(std::size_t n, std::size_t k, std::size_t d, std::size_t attempts, const T* table, uint32_t m) {
    std::vector<T> s = samples<T>(n, d, table, m);
    auto run = [&] {
        std::size_t attempt = 0;
        auto means = ffcl::KMeans<T>(k, typename ffcl::KMeans<T>::Options().max_iter(4).early_stopping(true).patience(1).n_init(attempts));
        auto centroids = means.template fit<Algorithm>(s.begin(), s.end(), d, [&](const auto&, const auto&, std::size_t nf, std::size_t nc) {
            std::vector<T> c(nf * nc);
            for (std::size_t i = 0; i < c.size(); ++i) c[i] = (T)cloud(i / nf + 20 + 3 * attempt, i % nf);
            ++attempt;
            return c;
        });
        sx_assert(attempt == attempts, "as many attempts as asked for");
        return centroids;
    };
    one_thread();
    const auto expected = run();
    any_threads();
    const auto found = run();
    sx_assert(found.size() == k * d, "k-means by several threads: one centroid per cluster");
    sx_assert(same(found, expected), "k-means by several threads: the centroids one thread finds");
    for (auto x : found) sx::emit(x);
    sx_reach("kmeans");
}
HARNESS(lloyd_f32_n6k2d1) { attempts_of_kmeans<float, ffcl::Lloyd>(6, 2, 1, 3, kF, 2); }
HARNESS(lloyd_f64_n8k2d2) { attempts_of_kmeans<double, ffcl::Lloyd>(8, 2, 2, 4, kD, 2); }
HARNESS(hamerly_f32_n6k2d1) { attempts_of_kmeans<float, ffcl::Hamerly>(6, 2, 1, 3, kF, 2); }
HARNESS(hamerly_f64_n8k3d2) { attempts_of_kmeans<double, ffcl::Hamerly>(8, 3, 2, 4, kD, 2); }

static const unsigned kDraws[4][16] = {{0, 1, 2, 3, 4, 5, 1, 3, 0, 2, 4, 1, 5, 0, 3, 2}, {5, 3, 1, 0, 2, 4, 4, 1, 3, 3, 0, 5, 2, 1, 0, 4}, {1, 1, 4, 0, 3, 2, 0, 5, 5, 2, 1, 3, 4, 0, 2, 1}, {2, 0, 5, 5, 1, 3, 3, 0, 4, 1, 2, 2, 0, 4, 1, 5}};
template <typename T, bool Precompute, template <typename> class Algorithm>
static void attempts_of_kmedoids(std::size_t n, std::size_t k, std::size_t d, std::size_t attempts, const T* table, uint32_t m, bool from_matrix) {
    std::vector<T> s = samples<T>(n, d, table, m);
    std::sx_int_script = kDraws[sx_concretize(sx_choice("draws", 4))];
    auto run = [&] {
        std::sx_int_scripted = 0;
        auto medoids = ffcl::KMedoids<T, Precompute>(k, typename ffcl::KMedoids<T, Precompute>::Options().max_iter(4).early_stopping(true).patience(0).n_init(attempts));
        if (from_matrix) return medoids.template fit<Algorithm>(ds::PairwiseDistanceMatrix<typename std::vector<T>::iterator>(s.begin(), s.end(), d));
        return medoids.template fit<Algorithm>(s.begin(), s.end(), d);
    };
    one_thread();
    const auto expected = run();
    any_threads();
    const auto found = run();
    std::sx_int_script = nullptr;
    sx_assert(found.size() == k, "k-medoids by several threads: one medoid per cluster");
    sx_assert(same(found, expected), "k-medoids by several threads: the medoids one thread finds");
    for (auto x : found) sx::emit(x);
    sx_reach("kmedoids");
}
HARNESS(fasterpam_pre_n6k2d2) { attempts_of_kmedoids<float, true, ffcl::FasterPAM>(6, 2, 2, 3, kF, 2, false); }
HARNESS(fasterpam_dyn_n6k2d1) { attempts_of_kmedoids<float, false, ffcl::FasterPAM>(6, 2, 1, 3, kF, 2, false); }
HARNESS(fasterpam_matrix_n6k3d1) { attempts_of_kmedoids<double, true, ffcl::FasterPAM>(6, 3, 1, 4, kD, 2, true); }
HARNESS(fastermsc_pre_n6k2d1) { attempts_of_kmedoids<double, true, ffcl::FasterMSC>(6, 2, 1, 3, kD, 2, false); }
HARNESS(fastermsc_dyn_n6k2d2) { attempts_of_kmedoids<float, false, ffcl::FasterMSC>(6, 2, 2, 3, kF, 2, false); }
HARNESS(fastermsc_matrix_n6k2d2) { attempts_of_kmedoids<float, true, ffcl::FasterMSC>(6, 2, 2, 3, kF, 2, true); }

// Several threads use one index, model or matrix at the same time.
namespace buffer = ffcl::search::buffer;
template <typename B>
static std::vector<double> found(const B& b) {
    std::vector<double> r;
    for (auto i : b.indices()) r.push_back((double)i);
    for (auto d : b.distances()) r.push_back((double)d);
    return r;
}
template <typename F>
static void shared(F&& query, const char* label) {
    sx_omp::backwards = (int)sx_concretize(sx_choice("backwards", 2));
    std::array<std::vector<double>, 3> alone, together;
    for (int t = 0; t < 3; ++t) alone[t] = query(t);
    sx_omp::concurrently(3, [&](int t) { together[t] = query(t); });
    int ok = 1;
    for (int t = 0; t < 3; ++t) { ok &= same(alone[t], together[t]); for (auto x : together[t]) sx::emit(x); }
    sx_assert(ok, label);
    sx_reach("shared");
}
namespace bounds = ffcl::datastruct::bounds;
enum Query { NEAREST, RADIUS, BOX, EDGE, CORE };
template <std::size_t N, std::size_t D>
static void searches(Query what, int axis, std::size_t bucket) {
    static const float t[] = {-2.f, 1.f, 4.f}, u[] = {-3.f, 1.f, 2.5f, 7.f};
    std::vector<float> s(N * D);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = kd::cloud(i / D, i % D);
    s[(N - 1) * D] = sx::pick("value", t);
    std::array<std::vector<float>, 3> q;
    for (std::size_t i = 0; i < 3; ++i) for (std::size_t f = 0; f < D; ++f) q[i].push_back(i == 1 && f == 0 ? sx::pick("query", u) : kd::cloud(30 + i, f) + 0.5f);
    std::vector<std::size_t> ix(N);
    for (std::size_t i = 0; i < N; ++i) ix[i] = i;
    const auto searcher = ffcl::search::Searcher(kd::Tree<float>(ix.begin(), ix.end(), s.begin(), s.end(), D, kd::options<float>(axis, bucket, 8)));
    std::array<std::vector<std::size_t>, 3> qi;
    std::vector<kd::Tree<float>> qt;
    if (what == EDGE || what == CORE)
        for (std::size_t i = 0; i < 3; ++i) {
            for (std::size_t j = 0; j < 3; ++j) qi[i].push_back((3 * i + j) % N);
            qt.emplace_back(qi[i].begin(), qi[i].end(), s.begin(), s.end(), D, kd::options<float>(axis, bucket, 8));
        }
    shared([&](int t) -> std::vector<double> {
        const std::size_t k = 3;
        if (what == NEAREST) return found(searcher(buffer::Unsorted(q[t].begin(), q[t].end(), k)));
        if (what == RADIUS) return found(searcher(buffer::Unsorted(bounds::BallView<std::vector<float>::iterator>(q[t].begin(), q[t].end(), 3.f), 0)));
        if (what == BOX) {
            using Segment = bounds::segment::LowerBoundAndUpperBound<float>;
            std::vector<Segment> segs;
            for (std::size_t f = 0; f < D; ++f) segs.push_back(Segment(q[t][f] - 2, q[t][f] + 2));
            return found(searcher(buffer::Unsorted(bounds::AABBWithCentroid<Segment>(segs), 0)));
        }
        const auto [a, b, d] = what == EDGE ? searcher.dual_tree_shortest_edge(qt[t], k) : searcher.dual_tree_shortest_edge_with_core_distances(qt[t], k);
        return {(double)a, (double)b, (double)d};
    }, "searches at the same time: each finds what it finds alone");
}
HARNESS(shared_nearest_n10d1) { searches<10, 1>(NEAREST, kd::CYCLE, 1); }
HARNESS(shared_nearest_n16d2) { searches<16, 2>(NEAREST, kd::SPREAD, 2); }
HARNESS(shared_box_n10d2) { searches<10, 2>(BOX, kd::CYCLE, 2); }
HARNESS(shared_radius_n16d2) { searches<16, 2>(RADIUS, kd::CYCLE, 2); }
HARNESS(shared_edge_n10d1) { searches<10, 1>(EDGE, kd::CYCLE, 2); }
HARNESS(shared_edge_n12d2) { searches<12, 2>(EDGE, kd::CYCLE, 1); }
HARNESS(shared_core_n10d1) { searches<10, 1>(CORE, kd::CYCLE, 2); }
HARNESS(shared_box_n14d3) { searches<14, 3>(BOX, kd::SPREAD, 1); }
HARNESS(shared_core_n12d2) { searches<12, 2>(CORE, kd::SPREAD, 1); }
HARNESS(shared_nearest_n40d2) { searches<40, 2>(NEAREST, kd::CYCLE, 3); }

// models that were fitted, matrices
template <typename T>
static std::vector<double> numbers(const std::vector<T>& a, const std::vector<T>& b = {}) {
    std::vector<double> r;
    for (auto x : a) r.push_back((double)x);
    for (auto x : b) r.push_back((double)x);
    return r;
}
template <typename V>
static std::vector<double> numbers_of(const V& v) { return std::vector<double>(v.begin(), v.end()); }
HARNESS(shared_kmeans_n5k3d2) {
    std::vector<float> s = samples<float>(5, 2, kF, 3), c{-3.f, 0.f, 1.f, 4.f, 8.f, 2.f};
    const ffcl::KMeans<float> means(3, c);
    shared([&](int t) { return t ? numbers_of(means.forward(s.begin(), s.end(), 2)) : numbers_of(means.predict(s.begin(), s.end(), 2)); }, "predictions at the same time: each finds what it finds alone");
}
HARNESS(shared_kmedoids_n6k2d1) {
    std::vector<float> s = samples<float>(6, 1, kF, 3);
    const ffcl::KMedoids<float, true> medoids(2, std::vector<std::size_t>{1, 4});
    shared([&](int t) { return t ? numbers_of(medoids.forward(s.begin(), s.end(), 1)) : numbers_of(medoids.predict(s.begin(), s.end(), 1)); }, "predictions at the same time: each finds what it finds alone");
}
HARNESS(shared_matrix_n5d2) {
    std::vector<float> s = samples<float>(5, 2, kF, 3);
    const ds::PairwiseDistanceMatrix<std::vector<float>::iterator> m(s.begin(), s.end(), 2);
    const ds::PairwiseDistanceMatrixDynamic<std::vector<float>::iterator> d(s.begin(), s.end(), 2);
    shared([&](int t) { std::vector<double> r; for (std::size_t i = 0; i < 5; ++i) for (std::size_t j = 0; j < 5; ++j) r.push_back(t == 1 ? (double)m(i, j) : t ? (double)d(i, j) : (double)m(j, i)); return r; }, "lookups at the same time: each finds what it finds alone");
}
// threads that share nothing but the samples: fits, trees, random draws
static const double kReal[2] = {0.25, 0.625};
enum Work { LLOYD, HAMERLY, PAM, MSC, PLUSPLUS, SPATIAL, UNIFORM, VOSE, CYCLES, SPREADS, VARIANCES, DENSITY, HIERARCHY };
static void separate(Work what, std::size_t n, std::size_t d) {
    std::vector<float> s = samples<float>(n, d, kF, 3);
    namespace rnd = ffcl::common::math::random;
    std::sx_script = kReal;
    std::sx_int_script = kDraws[sx_concretize(sx_choice("draws", 4))];
    shared([&](int t) -> std::vector<double> {
        std::sx_scripted = t; std::sx_int_scripted = 2 * t;
        const std::size_t k = 2;
        if (what == LLOYD || what == HAMERLY) {
            auto means = ffcl::KMeans<float>(k, ffcl::KMeans<float>::Options().max_iter(3));
            return numbers(what == LLOYD ? means.fit<ffcl::Lloyd>(s.begin(), s.end(), d, rnd::init_uniform<std::vector<float>::iterator>) : means.fit<ffcl::Hamerly>(s.begin(), s.end(), d, rnd::init_uniform<std::vector<float>::iterator>));
        }
        if (what == PAM || what == MSC) {
            auto medoids = ffcl::KMedoids<float, true>(k, ffcl::KMedoids<float, true>::Options().max_iter(3));
            return numbers(what == PAM ? medoids.fit<ffcl::FasterPAM>(s.begin(), s.end(), d) : medoids.fit<ffcl::FasterMSC>(s.begin(), s.end(), d));
        }
        if (what == PLUSPLUS) return numbers(ffcl::kmeansplusplus::make_centroids(s.begin(), s.end(), d, k));
        if (what == SPATIAL) return numbers(rnd::init_spatial_uniform(s.begin(), s.end(), d, k));
        if (what == UNIFORM) return numbers(rnd::init_uniform(s.begin(), s.end(), d, k));
        if (what == VOSE) { auto v = rnd::VosesAliasMethod(std::vector<float>{1.f, 3.f, 2.f, 4.f}); std::vector<double> r; for (int i = 0; i < 3; ++i) r.push_back((double)v()); return r; }
        std::vector<std::size_t> ix(n);
        for (std::size_t i = 0; i < n; ++i) ix[i] = (i + t) % n;
        if (what == DENSITY || what == HIERARCHY) {
            auto tree = kd::Tree<float>(ix.begin(), ix.end(), s.begin(), s.end(), d, kd::options<float>(kd::CYCLE, 2, 8));
            if (what == DENSITY) return numbers_of(ffcl::DBSCAN<kd::Tree<float>>(ffcl::DBSCAN<kd::Tree<float>>::Options().min_samples(2).radius(2.5f)).predict(std::move(tree)));
            using Hierarchy = ffcl::HDBSCAN<kd::Tree<float>>;
            Hierarchy hierarchy;
            hierarchy.set_options(Hierarchy::Options().k_nearest_neighbors(2).min_cluster_size(2).return_leaf_nodes(t == 1).allow_single_cluster(true));
            return numbers_of(hierarchy.predict(std::move(tree)));
        }
        const auto searcher = ffcl::search::Searcher(kd::Tree<float>(ix.begin(), ix.end(), s.begin(), s.end(), d, kd::options<float>(what == CYCLES ? kd::CYCLE : what == SPREADS ? kd::SPREAD : kd::VARIANCE, 2, 8)));
        return found(searcher(buffer::Unsorted(s.begin(), s.begin() + d, k)));
    }, "threads that work apart: each finds what it finds alone");
    std::sx_script = nullptr; std::sx_int_script = nullptr;
}
HARNESS(apart_lloyd_n6d1) { separate(LLOYD, 6, 1); }
HARNESS(apart_hamerly_n6d2) { separate(HAMERLY, 6, 2); }
HARNESS(apart_fasterpam_n6d1) { separate(PAM, 6, 1); }
HARNESS(apart_fastermsc_n6d1) { separate(MSC, 6, 1); }
HARNESS(apart_plusplus_n6d1) { separate(PLUSPLUS, 6, 1); }
HARNESS(apart_spatial_n6d2) { separate(SPATIAL, 6, 2); }
HARNESS(apart_uniform_n6d2) { separate(UNIFORM, 6, 2); }
HARNESS(apart_vose) { separate(VOSE, 4, 1); }
HARNESS(apart_trees_cycle_n9d2) { separate(CYCLES, 9, 2); }
HARNESS(apart_trees_spread_n9d2) { separate(SPREADS, 9, 2); }
HARNESS(apart_trees_variance_n9d2) { separate(VARIANCES, 9, 2); }
HARNESS(apart_dbscan_n7d1) { separate(DENSITY, 7, 1); }
HARNESS(apart_dbscan_n9d2) { separate(DENSITY, 9, 2); }
HARNESS(apart_hdbscan_n7d1) { separate(HIERARCHY, 7, 1); }
HARNESS(apart_hdbscan_n8d2) { separate(HIERARCHY, 8, 2); }
