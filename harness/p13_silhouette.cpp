#include "sx.hpp"
#include "sx_rt.hpp"
#include "ffcl/common/math/heuristics/SilhouetteMethod.hpp"
namespace h = ffcl::common::math::heuristics;

static const float kF[] = {-2.f, 0.f, 1.5f, 4.f};
static const float kG[] = {0.f, 3.f};

template <typename Label, std::size_t N, std::size_t D>
static void scores(const float* table, uint32_t m, uint32_t n_labels, std::size_t fixed = 0) {
    std::vector<float> s(N * D);
    std::vector<Label> l(N);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = i / D < fixed ? (float)((i * 7 + i / 3) % 11) - 4 : sx::pick_n("value", table, m);
    for (std::size_t i = 0; i < N; ++i) l[i] = (Label)(i < fixed ? (i * 5 + 1) % n_labels : sx_concretize(sx_choice("label", n_labels)));
    if (fixed == N) {
        s[sx_concretize(sx_choice("place", 16)) * (N * D / 16)] = sx::pick_n("value", table, m);
        l[sx_concretize(sx_choice("at", 4)) * (N / 4)] = (Label)sx_concretize(sx_choice("label", n_labels));
    }
    std::array<std::size_t, 8> size{};
    std::size_t top = 0, used = 0;
    for (auto x : l) { ++size[x]; if ((std::size_t)x > top) top = x; }
    for (auto x : size) used += x != 0;
    const auto sizes = h::get_cluster_sizes(l.begin(), l.end());
    sx_assert(sizes.size() == top + 1, "cluster sizes: one per label up to the largest");
    int ok = 1;
    for (std::size_t c = 0; c <= top; ++c) ok &= (std::size_t)sizes[c] == size[c];
    sx_assert(ok, "cluster sizes: number of samples with each label");
    if (used < 2) return;                         // no other cluster to compare with
    double dist[N][N];
    for (std::size_t i = 0; i < N; ++i)
        for (std::size_t j = 0; j < N; ++j) {
            double e = 0;
            for (std::size_t f = 0; f < D; ++f) { const double x = (double)s[i * D + f] - (double)s[j * D + f]; e += x * x; }
            dist[i][j] = D == 1 ? __builtin_fabs((double)s[i] - (double)s[j]) : __builtin_sqrt(e);
        }
    const auto coh = h::cohesion(s.begin(), s.end(), D, l.begin(), l.end());
    const auto sep = h::separation(s.begin(), s.end(), D, l.begin(), l.end());
    const auto sil = h::silhouette(s.begin(), s.end(), D, l.begin(), l.end());
    sx_assert((coh.size() == N) & (sep.size() == N) & (sil.size() == N), "silhouette: one score per sample");
    int okc = 1, oks = 1, okr = 1, range = 1, alone = 1;
    const double t = 1e-4;
    double total = 0;
    for (std::size_t i = 0; i < N; ++i) {
        std::array<double, 8> sum{};
        for (std::size_t j = 0; j < N; ++j) sum[l[j]] += dist[i][j];
        const double a = size[l[i]] > 1 ? sum[l[i]] / (double)(size[l[i]] - 1) : 0;
        double b = 1e30;
        for (std::size_t c = 0; c <= top; ++c) { const double mean = (c == (std::size_t)l[i]) || !size[c] ? 1e30 : sum[c] / (double)size[c]; b = mean < b ? mean : b; }
        const double da = (double)coh[i] - a, db = (double)sep[i] - b;
        okc &= (da <= t) & (-da <= t);
        oks &= (db <= t) & (-db <= t);
        const double r = (double)sil[i], top2 = a > b ? a : b, dr = r * top2 - (b - a);
        if (size[l[i]] == 1) alone &= r == 0;
        else okr &= (dr <= t) & (-dr <= t);
        range &= (r <= 1) & (r >= -1);
        total += r;
    }
    sx_assert(okc, "cohesion: mean distance to the other samples of the own cluster");
    sx_assert(oks, "separation: smallest mean distance to another cluster");
    sx_assert(okr, "silhouette: (b - a) / max(a, b)");
    sx_assert(alone, "silhouette: zero for a sample alone in its cluster");
    sx_assert(range, "silhouette: between -1 and 1");
    const double d = (double)h::get_average_silhouette(sil.begin(), sil.end()) * N - total;
    sx_assert((d <= t) & (-d <= t), "average silhouette: mean of the scores");
    sx::emit(sil[0]);
    sx_reach("scores");
}
template <std::size_t N>
static void crowded() {   // more samples than the label type can count
    std::vector<uint8_t> l(N, 1);
    const std::size_t p = sx_concretize(sx_choice("place", 3)) * (N / 3);
    l[p] = (uint8_t)sx_concretize(sx_choice("label", 3));
    const auto sizes = h::get_cluster_sizes(l.begin(), l.end());
    std::size_t ones = N - 1 + (l[p] == 1);
    sx_assert(((std::size_t)sizes[1] == ones) & (sizes.size() == (l[p] == 2 ? 3u : 2u)), "cluster sizes: exact for long ranges of small labels");
    sx_reach("crowded");
}
HARNESS(scores_n3d1) { scores<std::size_t, 3, 1>(kF, 4, 3); }
HARNESS(scores_n4d1) { scores<std::size_t, 4, 1>(kF, 2, 3); }
HARNESS(scores_wide_n4d1) { scores<std::size_t, 4, 1>(kF, 3, 3); }
HARNESS(scores_n5d1) { scores<int, 5, 1>(kG, 2, 2); }
HARNESS(scores_n3d2) { scores<unsigned, 3, 2>(kG, 2, 4); }
HARNESS(scores_mixed_n12d2) { scores<std::size_t, 12, 2>(kF, 4, 4, 11); }
HARNESS(scores_mixed_n20d2) { scores<std::size_t, 20, 2>(kF, 4, 5, 19); }
HARNESS(crowded_n400) { crowded<400>(); }
HARNESS(scores_wide_n10d5) { scores<std::size_t, 10, 5>(kF, 3, 3, 10); }
HARNESS(scores_wide_n40d1) { scores<int, 40, 1>(kF, 3, 6, 40); }
// integer samples: whole-number means of Manhattan distances, in a type without an infinity
template <typename T, std::size_t N, std::size_t D>
static void whole_scores(uint32_t m, uint32_t n_labels, std::size_t fixed = 0) {
    static const T table[] = {T(0), T(3), T(4), T(11)};
    std::vector<T> s(N * D);
    std::vector<std::size_t> l(N);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = i / D < fixed ? (T)((i * 7 + i / 3) % 11) : sx::pick_n("value", table, m);
    for (std::size_t i = 0; i < N; ++i) l[i] = i < fixed ? (i * 5 + 1) % n_labels : sx_concretize(sx_choice("label", n_labels));
    std::array<std::size_t, 8> size{};
    std::size_t used = 0;
    for (auto x : l) ++size[x];
    for (auto x : size) used += x != 0;
    if (used < 2) return;
    const auto coh = h::cohesion(s.begin(), s.end(), D, l.begin(), l.end());
    const auto sep = h::separation(s.begin(), s.end(), D, l.begin(), l.end());
    sx_assert((coh.size() == N) & (sep.size() == N), "silhouette: one score per sample");
    int okc = 1, oks = 1;
    for (std::size_t i = 0; i < N; ++i) {
        std::array<int64_t, 8> sum{};
        for (std::size_t j = 0; j < N; ++j)
            for (std::size_t f = 0; f < D; ++f) { const int64_t d = (int64_t)s[i * D + f] - (int64_t)s[j * D + f]; sum[l[j]] += d < 0 ? -d : d; }
        // q is the quotient of x by y, rounded down
        const auto mean = [](int64_t q, int64_t x, int64_t y) { return (q * y <= x) & (x < (q + 1) * y); };
        okc &= size[l[i]] > 1 ? mean((int64_t)coh[i], sum[l[i]], (int64_t)size[l[i]] - 1) : coh[i] == 0;
        int some = 0, none_less = 1;
        for (std::size_t c = 0; c < 8; ++c) {
            if (c == l[i] || !size[c]) continue;
            some |= mean((int64_t)sep[i], sum[c], (int64_t)size[c]);
            none_less &= (int64_t)sep[i] * (int64_t)size[c] <= sum[c];
        }
        oks &= some & none_less;
    }
    sx_assert(okc, "cohesion: mean distance to the other samples of the own cluster");
    sx_assert(oks, "separation: smallest mean distance to another cluster");
    sx::emit(sep[0]);
    sx_reach("scores");
}
HARNESS(scores_i32_n4d1) { whole_scores<int, 4, 1>(3, 3); }
HARNESS(scores_i32_n3d2) { whole_scores<int, 3, 2>(2, 3); }
HARNESS(scores_u32_n4d1) { whole_scores<unsigned, 4, 1>(3, 2); }
HARNESS(scores_i32_mixed_n12d2) { whole_scores<int, 12, 2>(4, 4, 11); }
