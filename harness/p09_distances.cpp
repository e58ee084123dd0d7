#include "sx.hpp"
#include "sx_rt.hpp"
#include "ffcl/common/math/heuristics/Distances.hpp"
namespace h = ffcl::common::math::heuristics;

static const float kF[] = {-2.5f, 0.f, 1.f, 3.f};
static const float kG[] = {-1.5f, 0.f, 2.f};
static const float kB[] = {-1.f, 2.f};
static const int kI[] = {-5, 0, 3};
static const unsigned kU[] = {0u, 3u, 4000000000u};

static int near(double a, double b) { const double d = a - b, t = 1e-5 * (1 + (b < 0 ? -b : b)); return (d <= t) & (-d <= t); }
template <typename T> static double sq(const std::vector<T>& a, const std::vector<T>& b) { double r = 0; for (std::size_t i = 0; i < a.size(); ++i) r += ((double)a[i] - (double)b[i]) * ((double)a[i] - (double)b[i]); return r; }
template <typename T> static double l1(const std::vector<T>& a, const std::vector<T>& b) { double r = 0; for (std::size_t i = 0; i < a.size(); ++i) { const double d = (double)a[i] - (double)b[i]; r += d < 0 ? -d : d; } return r; }
#define ARGS(a, b) a.begin(), a.end(), b.begin(), b.end()

template <typename T, std::size_t D>
static void fill(std::vector<T>& a, const char* n, const T* t, uint32_t m) {
    a.resize(D);
    if (D <= 6) { for (auto& v : a) v = sx::pick_n(n, t, m); return; }
    // long vectors: one feature at any position is free, the others are fixed
    const std::size_t free = sx_concretize(sx_choice("position", D)), salt = *n == 'b';
    for (std::size_t i = 0; i < D; ++i) a[i] = i == free ? sx::pick_n(n, t, m) : t[(i * 5 + i / 3 + salt) % m];
}

template <typename T, std::size_t D>
static void euclidean(const T* t, uint32_t m) {
    std::vector<T> a, b, z(D, T(0));
    fill<T, D>(a, "a", t, m); fill<T, D>(b, "b", t, m);
    const double e = sq(a, b), o = sq(a, z);
    const T s = h::squared_euclidean_distance(ARGS(a, b)), d = h::euclidean_distance(ARGS(a, b));
    sx_assert(near(s, e), "squared euclidean: the sum of squared differences");
    sx_assert((d >= 0) & near((double)d * d, e), "euclidean: the root of the sum of squared differences");
    sx_assert((s == h::squared_euclidean_distance(ARGS(b, a))) & (d == h::euclidean_distance(ARGS(b, a))), "euclidean: symmetric");
    sx_assert((d == 0) == (e == 0), "euclidean: zero exactly for equal samples");
    sx_assert(near(h::squared_euclidean_distance_from_origin(a.begin(), a.end()), o), "squared euclidean from the origin");
    const T dor = h::euclidean_distance_from_origin(a.begin(), a.end());
    sx_assert(near((double)dor * dor, o), "euclidean from the origin");
    sx_assert((h::auto_distance(ARGS(a, b)) == d) & (h::auto_distance_from_origin(a.begin(), a.end()) == dor), "automatic distance of floating point samples is the euclidean one");
    sx::emit(d);
    sx_reach("euclidean");
}
template <typename T, std::size_t D>
static void triangle(const T* t, uint32_t m) {
    std::vector<T> a, b, c;
    fill<T, D>(a, "a", t, m); fill<T, D>(b, "b", t, m); fill<T, D>(c, "c", t, m);
    const double ab = h::auto_distance(ARGS(a, b)), bc = h::auto_distance(ARGS(b, c)), ac = h::auto_distance(ARGS(a, c));
    sx_assert(ac <= (ab + bc) * (1 + 1e-6), "automatic distance: triangle inequality");
    sx_reach("triangle");
}
template <typename T, std::size_t D>
static void manhattan(const T* t, uint32_t m) {
    std::vector<T> a, b, z(D, T(0));
    fill<T, D>(a, "a", t, m); fill<T, D>(b, "b", t, m);
    const double e = l1(a, b);
    const auto d = h::manhattan_distance(ARGS(a, b));
    sx_assert(near(d, e), "manhattan: the sum of absolute differences");
    sx_assert(d == h::manhattan_distance(ARGS(b, a)), "manhattan: symmetric");
    sx_assert((d == 0) == (e == 0), "manhattan: zero exactly for equal samples");
    sx_assert(near(h::manhattan_distance_from_origin(a.begin(), a.end()), l1(a, z)), "manhattan from the origin");
    if constexpr (std::is_integral_v<T>) sx_assert((h::auto_distance(ARGS(a, b)) == d) & (h::auto_distance_from_origin(a.begin(), a.end()) == h::manhattan_distance_from_origin(a.begin(), a.end())), "automatic distance of signed integers is the manhattan one");
    sx_reach("manhattan");
}
template <std::size_t D>
static void unsigned_manhattan() {
    std::vector<unsigned> a, b;
    static const unsigned kV[] = {0u, 3u, 400000000u};
    fill<unsigned, D>(a, "a", D > 6 ? kV : kU, 3); fill<unsigned, D>(b, "b", D > 6 ? kV : kU, 3);
    std::uint64_t e = 0;
    for (std::size_t i = 0; i < D; ++i) e += a[i] > b[i] ? a[i] - b[i] : b[i] - a[i];
    sx_assume(e < 4294967296ull);
    const auto d = h::unsigned_manhattan_distance(ARGS(a, b));
    sx_assert(d == e, "unsigned manhattan: the sum of absolute differences");
    sx_assert(d == h::unsigned_manhattan_distance(ARGS(b, a)), "unsigned manhattan: symmetric");
    sx_assert(d == h::auto_distance(ARGS(a, b)), "automatic distance of unsigned integers is the manhattan one");
    std::uint64_t o = 0;
    for (const auto v : a) o += v;
    if (o < 4294967296ull) sx_assert((h::unsigned_manhattan_distance_from_origin(a.begin(), a.end()) == o) & (h::auto_distance_from_origin(a.begin(), a.end()) == o), "unsigned manhattan from the origin");
    sx_reach("unsigned manhattan");
}
template <std::size_t D>
static void cosine(const float* t, uint32_t m) {
    std::vector<float> a, b, z(D, 0.f);
    fill<float, D>(a, "a", t, m); fill<float, D>(b, "b", t, m);
    const double na = sq(a, z), nb = sq(b, z);
    double dot = 0;
    for (std::size_t i = 0; i < D; ++i) dot += (double)a[i] * b[i];
    const float c = h::cosine_similarity(ARGS(a, b));
    if ((na == 0) | (nb == 0)) sx_assert(c == std::numeric_limits<float>::infinity(), "cosine: infinity when a sample is the origin");
    else {
        sx_assert((c >= -1.00001f) & (c <= 1.00001f), "cosine: between -1 and 1");
        sx_assert(near((double)c * c * na * nb, dot * dot) & ((dot > 0) == (c > 0)) & ((dot < 0) == (c < 0)), "cosine: the scalar product over the product of the lengths");
        sx_assert(near(c, h::cosine_similarity(ARGS(b, a))), "cosine: symmetric");
    }
    sx_reach("cosine");
}
template <std::size_t N, std::size_t M>
static void levenshtein(uint32_t alphabet) {
    std::vector<int> a(N), b(M);
    // long sequences: three symbols of each are free
    for (std::size_t i = 0; i < N; ++i) a[i] = (N <= 5 || i % (N > 12 ? 8 : 4) == 1) ? (int)sx_choice("a", alphabet) - 1 : (int)((i * 3 + i / 2) % alphabet) - 1;
    for (std::size_t i = 0; i < M; ++i) b[i] = (M <= 5 || i % (M > 12 ? 8 : 4) == 2) ? (int)sx_choice("b", alphabet) - 1 : (int)((i * 2 + i / 3) % alphabet) - 1;
    int d[N + 1][M + 1];  // the textbook recurrence over the whole matrix
    for (std::size_t i = 0; i <= N; ++i)
        for (std::size_t j = 0; j <= M; ++j) {
            if (i == 0) d[i][j] = j;
            else if (j == 0) d[i][j] = i;
            else {
                const int s = d[i - 1][j - 1] + (a[i - 1] != b[j - 1]), x = d[i - 1][j] + 1, y = d[i][j - 1] + 1;
                const int t = x < y ? x : y;
                d[i][j] = s < t ? s : t;
            }
        }
    const int r = h::levenshtein_distance(ARGS(a, b));
    sx_assert(r == d[N][M], "levenshtein: the smallest number of insertions, deletions and substitutions");
    sx_assert(r == h::levenshtein_distance(ARGS(b, a)), "levenshtein: symmetric");
    sx_assert((r <= (int)(N > M ? N : M)) & (r >= (int)(N > M ? N - M : M - N)), "levenshtein: between the difference of the lengths and the longer length");
    sx::emit(r);
    sx_reach("levenshtein");
}
HARNESS(euclidean_f32_d1) { euclidean<float, 1>(kF, 4); }
HARNESS(euclidean_f32_d2) { euclidean<float, 2>(kG, 3); }
HARNESS(euclidean_f32_d3) { euclidean<float, 3>(kB, 2); }
HARNESS(euclidean_f32_d5) { euclidean<float, 5>(kB, 2); }
HARNESS(euclidean_f64_d2) { static const double t[] = {-1.25, 0.0, 1e9}; euclidean<double, 2>(t, 3); }
HARNESS(triangle_f32_d1) { triangle<float, 1>(kF, 4); }
HARNESS(triangle_f32_d2) { triangle<float, 2>(kG, 3); }
HARNESS(triangle_i32_d2) { triangle<int, 2>(kI, 3); }
HARNESS(manhattan_f32_d2) { manhattan<float, 2>(kF, 4); }
HARNESS(manhattan_i32_d2) { manhattan<int, 2>(kI, 3); }
HARNESS(manhattan_i32_d5) { static const int t[] = {-3, 4}; manhattan<int, 5>(t, 2); }
HARNESS(unsigned_d1) { unsigned_manhattan<1>(); }
HARNESS(unsigned_d2) { unsigned_manhattan<2>(); }
HARNESS(unsigned_d5) { unsigned_manhattan<5>(); }
HARNESS(cosine_d1) { cosine<1>(kF, 4); }
HARNESS(cosine_d2) { cosine<2>(kG, 3); }
HARNESS(cosine_d3) { cosine<3>(kB, 2); }
HARNESS(levenshtein_33) { levenshtein<3, 3>(3); }
HARNESS(levenshtein_42) { levenshtein<4, 2>(2); }
HARNESS(levenshtein_23) { levenshtein<2, 3>(3); }
HARNESS(levenshtein_03) { levenshtein<1, 3>(3); std::vector<int> e, x{1, 2}; sx_assert(h::levenshtein_distance(ARGS(e, x)) == 2, "levenshtein: from the empty sequence"); sx_assert(h::levenshtein_distance(ARGS(x, e)) == 2, "levenshtein: to the empty sequence"); }
HARNESS(levenshtein_44) { levenshtein<4, 4>(3); }

// long vectors and sequences
HARNESS(euclidean_f32_d9) { euclidean<float, 9>(kF, 4); }
HARNESS(euclidean_f64_d19) { static const double t[] = {-1.5, 0.25, 2.0}; euclidean<double, 19>(t, 3); }
HARNESS(manhattan_i32_d11) { manhattan<int, 11>(kI, 3); }
HARNESS(manhattan_f32_d18) { manhattan<float, 18>(kG, 3); }
HARNESS(unsigned_d9) { unsigned_manhattan<9>(); }
HARNESS(cosine_d10) { cosine<10>(kG, 3); }
HARNESS(levenshtein_12_9) { levenshtein<12, 9>(3); }
HARNESS(levenshtein_20_17) { levenshtein<20, 17>(2); }
