#include "kd_oracle.hpp"
#include "ffcl/dbscan/DBSCAN.hpp"

static const float kG[] = {-3.f, 0.f, 1.f, 2.f};
static const float kH[] = {0.f, 1.f, 2.f, 4.f};
static const float kB[] = {0.f, 1.f};
static const float kC[] = {-2.5f, 1.5f, 6.5f};
static const float kR[] = {1.f, 2.f, 1.5f, 0.f};

// N samples of which those in `use` (all when empty) are indexed
template <std::size_t N, std::size_t D, typename T>
static void dbscan(const T* table, uint32_t m, const T* radii, uint32_t mr, std::size_t min_n, std::size_t bucket, std::size_t fixed = 0, std::vector<std::size_t> use = {}, std::size_t min_lo = 0, const T* chain = nullptr) {
    std::vector<T> s(N * D);
    if (chain) {  // given samples, in a rotated order, and a free last one
        const std::size_t turn = sx_concretize(sx_choice("order", fixed)), back = sx_concretize(sx_choice("backwards", 2));
        for (std::size_t i = 0; i < fixed; ++i) s[i] = chain[back ? fixed - 1 - (i + turn) % fixed : (i + turn) % fixed];
        for (std::size_t i = fixed; i < N; ++i) s[i] = sx::pick_n("value", table, m);
    } else for (std::size_t i = 0; i < N * D; ++i) s[i] = i / D < fixed ? kd::cloud_of<T>(i / D, i % D) : sx::pick_n("value", table, m);
    if (fixed == N && !chain) {   // many dimensions: one coordinate of one sample, at any position, is free
        for (std::size_t i = 0; i < N * D; ++i) s[i] = (T)kd::wide(i / D, i % D);
        s[(N / 2) * D + sx_concretize(sx_choice("coordinate", D))] = sx::pick_n("value", table, m);
    }
    const T radius = sx::pick_n("radius", radii, mr);
    const std::size_t min_samples = min_lo + sx_concretize(sx_choice("min samples", min_n));
    std::vector<std::size_t> ix = use;
    if (use.empty()) for (std::size_t i = 0; i < N; ++i) ix.push_back(i);
    std::array<int, N> in{};
    for (auto i : ix) in[i] = 1;
    using Algorithm = ffcl::DBSCAN<kd::Tree<T>>;
    Algorithm algorithm(typename Algorithm::Options().min_samples(bucket == 1 ? min_samples : 100).radius(radius));
    if (bucket != 1) algorithm.set_options(typename Algorithm::Options().min_samples(min_samples).radius(radius));
    const auto l = algorithm.predict(kd::Tree<T>(ix.begin(), ix.end(), s.begin(), s.end(), D, kd::options<T>(kd::CYCLE, bucket, 8)));
    sx_assert(l.size() == N, "dbscan: one label per sample");
    int near[N][N], conn[N][N];
    std::array<int, N> core{}, border{};
    const double r2 = (double)radius * radius;
    for (std::size_t i = 0; i < N; ++i) {
        std::size_t c = 0;
        for (std::size_t j = 0; j < N; ++j) { near[i][j] = (sq_dist(&s[i * D], &s[j * D], D) < r2) & in[i] & in[j]; c += near[i][j]; }
        core[i] = c > min_samples;
    }
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) conn[i][j] = near[i][j] & core[i] & core[j];
    for (std::size_t x = 0; x < N; ++x) for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) conn[i][j] |= conn[i][x] & conn[x][j];
    int noise = 1, same = 1, belongs = 1, range = 1;
    std::array<int, N + 1> used{};
    for (std::size_t i = 0; i < N; ++i) {
        int joined = core[i], one = core[i];
        for (std::size_t j = 0; j < N; ++j) { joined |= near[i][j] & core[j]; one |= near[i][j] & core[j] & (l[i] == l[j]); }
        noise &= (l[i] != 0) == joined;
        belongs &= (!joined) | one;
        for (std::size_t j = 0; j < i; ++j) same &= (!core[i]) | (!core[j]) | ((l[i] == l[j]) == (conn[i][j] != 0));
        range &= l[i] <= N;
        for (std::size_t v = 0; v <= N; ++v) used[v] |= l[i] == v;
    }
    for (std::size_t v = 2; v <= N; ++v) range &= (!used[v]) | used[v - 1];
    sx_assert(noise, "dbscan: noise exactly the samples that are not dense and not near a dense one");
    sx_assert(same, "dbscan: dense samples together exactly when connected through dense samples");
    sx_assert(belongs, "dbscan: a border sample belongs to the cluster of a dense sample near it");
    sx_assert(range, "dbscan: clusters are numbered from one without a gap");
    for (auto x : l) sx::emit(x);
    sx_reach("dbscan");
}
HARNESS(dbscan_n1d1) { dbscan<1, 1>(kG, 4, kR, 4, 3, 1); }
HARNESS(dbscan_n2d1) { dbscan<2, 1>(kG, 4, kR, 4, 3, 1); }
HARNESS(dbscan_n3d1) { dbscan<3, 1>(kG, 4, kR, 4, 3, 1); }
HARNESS(dbscan_n4d1) { dbscan<4, 1>(kH, 3, kR, 2, 2, 2, 0, {}, 1); }
HARNESS(dbscan_n5d1) { dbscan<5, 1>(kH, 3, kR, 1, 1, 1, 0, {}, 1); }
HARNESS(dbscan_n5d1_m2) { dbscan<5, 1>(kH, 3, kR + 1, 1, 1, 2, 0, {}, 2); }
HARNESS(dbscan_n3d2) { dbscan<3, 2>(kB, 2, kR, 3, 2, 1); }
HARNESS(dbscan_n4d2) { dbscan<4, 2>(kB, 2, kR + 2, 1, 2, 1, 0, {}, 1); }
HARNESS(dbscan_subset_n4d1) { dbscan<4, 1>(kH, 3, kR, 2, 2, 1, 0, {1, 3, 2}); }
HARNESS(dbscan_subset_n5d1) { dbscan<5, 1>(kH, 3, kR + 2, 1, 2, 1, 0, {4, 2, 1, 3}, 1); }
HARNESS(dbscan_cloud_n12d2) { dbscan<12, 2>(kC, 3, kR + 2, 1, 2, 2, 11, {}, 1); }
HARNESS(dbscan_cloud_n20d2) { dbscan<20, 2>(kC, 3, kR + 2, 1, 3, 3, 19, {}, 2); }
HARNESS(dbscan_subset_cloud_n14d2) { dbscan<14, 2>(kC, 3, kR + 2, 1, 2, 2, 13, {1, 3, 4, 5, 7, 9, 10, 13, 12}, 1); }
HARNESS(dbscan_n6d1) { dbscan<6, 1>(kH, 3, kR, 2, 2, 1, 0, {}, 1); }
HARNESS(dbscan_cloud2_n16d2) { dbscan<16, 2>(kC, 3, kR + 1, 2, 2, 2, 14, {}, 2); }
HARNESS(dbscan_n6d1_m2) { dbscan<6, 1>(kH, 4, kR + 1, 1, 1, 2, 0, {}, 2); }
// chains: a sample with exactly min_samples neighbours at the end of a cluster, clusters that touch at a border sample
static const float kChain[] = {0, 0.25f, 0.5f, 1.25f, 2, 2.75f, 3, 3.25f}, kLink[] = {-0.75f, 1.f, 1.5f, 2.25f, 4, 1.875f};
HARNESS(dbscan_chain_n9) { dbscan<9, 1>(kLink, 6, kR + 1, 1, 4, 1, 8, {}, 1, kChain); }
HARNESS(dbscan_chain_n6) { dbscan<6, 1>(kLink, 6, kR, 4, 3, 2, 5, {}, 2, kChain); }
HARNESS(dbscan_chain_n7) { static const float r[] = {0.8f}; dbscan<7, 1>(kLink, 6, r, 1, 4, 1, 5, {}, 1, kChain + 1); }
HARNESS(dbscan_chain_n9_r) { static const float r[] = {0.8f, 0.75f, 0.5f}; dbscan<9, 1>(kLink, 6, r, 3, 4, 1, 8, {}, 1, kChain); }
static const float kWideR[] = {4.f, 5.5f, 7.f};
HARNESS(dbscan_wide_n14d5) { dbscan<14, 5>(kC, 3, kWideR, 3, 3, 1, 14, {}, 0); }
HARNESS(dbscan_wide_n20d9) { dbscan<20, 9>(kC, 3, kWideR + 2, 1, 5, 2, 20, {}, 0); }
HARNESS(dbscan_wide_n30d3) { dbscan<30, 3>(kC, 3, kWideR, 1, 6, 3, 30, {}, 2); }
// integer samples: the sum of the coordinate differences is the distance
static const std::int32_t kI[] = {-3, 0, 1, 2}, kIR[] = {2, 3, 6, 0};
static const std::uint32_t kU[] = {0, 1, 2, 5}, kUR[] = {2, 3, 6, 0};
HARNESS(dbscan_i32_n3d1) { dbscan<3, 1>(kI, 4, kIR, 4, 3, 1); }
HARNESS(dbscan_i32_n4d2) { dbscan<4, 2>(kI + 1, 2, kIR, 1, 2, 1, 0, {}, 1); }
HARNESS(dbscan_i32_cloud_n20d2) { dbscan<20, 2>(kI, 3, kIR + 1, 2, 3, 3, 19, {}, 2); }
HARNESS(dbscan_u32_n4d1) { dbscan<4, 1>(kU, 3, kUR, 2, 2, 2, 0, {}, 1); }
HARNESS(dbscan_u32_subset_n4d1) { dbscan<4, 1>(kU, 3, kUR, 2, 2, 1, 0, {1, 3, 2}); }
HARNESS(dbscan_u32_cloud_n20d2) { dbscan<20, 2>(kU, 3, kUR + 1, 2, 3, 3, 19, {}, 2); }
