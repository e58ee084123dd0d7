#include "sx.hpp"
#include "sx_rt.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrix.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp"
#include "ffcl/common/math/linear_algebra/Transpose.hpp"
#include "ffcl/common/math/linear_algebra/Translation.hpp"
#include "ffcl/common/Utils.hpp"
namespace ds = ffcl::datastruct;
namespace la = ffcl::common::math::linear_algebra;

static const float kF[] = {-2.f, 0.f, 0.5f, 3.f};
static const int kI[] = {-4, 0, 7};

template <typename T, std::size_t D>
static int is_distance(T d, const std::vector<T>& s, std::size_t i, std::size_t j) {
    double e = 0;
    for (std::size_t f = 0; f < D; ++f) {
        const double x = (double)s[i * D + f] - (double)s[j * D + f];
        if constexpr (std::is_integral_v<T>) e += x < 0 ? -x : x;
        else e += x * x;
    }
    if constexpr (std::is_integral_v<T>) return (double)d == e;
    const double r = (double)d * d - e, t = 1e-5 * (1 + e);
    return (d >= 0) & (r <= t) & (-r <= t) & ((e == 0) == (d == 0));
}
template <typename T, std::size_t N, std::size_t D>
static void matrix(const T* table, uint32_t m, std::size_t fixed = 0) {
    using It = typename std::vector<T>::iterator;
    std::vector<T> s(N * D);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = i / D < fixed ? (T)(int)((i * 7 + i / 5) % 11) - 3 : sx::pick_n("value", table, m);
    if (fixed == N) s[sx_concretize(sx_choice("place", 16)) * (N * D / 16)] = sx::pick_n("value", table, m);
    const ds::PairwiseDistanceMatrix<It> p(s.begin(), s.end(), D), pt(std::make_tuple(s.begin(), s.end(), D));
    const ds::PairwiseDistanceMatrixDynamic<It> q(s.begin(), s.end(), D), qt(std::make_tuple(s.begin(), s.end(), D));
    sx_assert((p.n_rows() == N) & (p.n_columns() == N) & (q.n_rows() == N) & (q.n_columns() == N) & (pt.n_rows() == N) & (qt.n_rows() == N), "matrix: one row and one column per sample");
    int val = 1, dyn = 1, symmetric = 1, diagonal = 1, tuple = 1;
    for (std::size_t i = 0; i < N; ++i)
        for (std::size_t j = 0; j < N; ++j) {
            const T a = p(i, j), b = q(i, j);
            val &= is_distance<T, D>(a, s, i, j);
            dyn &= is_distance<T, D>(b, s, i, j);
            symmetric &= (a == p(j, i)) & (b == q(j, i));
            tuple &= (pt(i, j) == a) & (qt(i, j) == b);
            if (i == j) diagonal &= (a == 0) & (b == 0);
        }
    sx_assert(val, "matrix: every entry is the distance between its two samples");
    sx_assert(dyn, "matrix on demand: every entry is the distance between its two samples");
    sx_assert(symmetric, "matrix: symmetric");
    sx_assert(diagonal, "matrix: zero diagonal");
    sx_assert(tuple, "matrix: the same from a dataset descriptor");
    sx::emit((double)p(0, N - 1));
    sx_reach("matrix");
}
template <typename T, std::size_t N, std::size_t D>
static void transpose() {
    std::vector<T> s(N * D);
    for (auto& v : s) v = (T)sx_any("value", 1, 32);
    const auto [t, n, d] = la::transpose(s.begin(), s.end(), D);
    const auto [u, n2, d2] = la::transpose_parallel_openmp(s.begin(), s.end(), D);
    sx_assert((n == D) & (d == N) & (t.size() == N * D) & (n2 == D) & (d2 == N) & (u.size() == N * D), "transpose: rows and columns exchanged");
    int ok = 1, same = 1, back = 1;
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < D; ++j) { ok &= t[j * N + i] == s[i * D + j]; same &= u[j * N + i] == s[i * D + j]; }
    sx_assert(ok, "transpose: every element in its place");
    sx_assert(same, "transpose in blocks: every element in its place");
    const auto [b, bn, bd] = la::transpose(t.begin(), t.end(), d);
    for (std::size_t i = 0; i < N * D; ++i) back &= b[i] == s[i];
    sx_assert(back & (bn == N) & (bd == D), "transpose: transposing twice gives the original");
    sx_reach("transpose");
}
template <std::size_t D>
static void translate() {
    std::vector<float> a(D), b(D);
    for (auto& v : a) v = sx::pick("left", kF);
    for (auto& v : b) v = sx::pick("right", kF);
    const auto r = la::translate_right_range_to_origin(a.begin(), a.end(), b.begin(), b.end());
    sx_assert(r.size() == D, "translation: same number of features");
    int ok = 1;
    for (std::size_t i = 0; i < D; ++i) ok &= r[i] == b[i] - a[i];
    sx_assert(ok, "translation: the right vector seen from the left one");
    sx_reach("translation");
}
template <std::size_t N, std::size_t D>
static void reorder() {
    std::vector<std::size_t> p(N);
    std::vector<float> s(N * D), w(N);
    for (auto& v : p) v = sx_choice("index", N);
    for (auto& v : s) v = sx::pick("value", kF);
    for (auto& v : w) v = sx::pick("w", kF);
    const auto r = ffcl::common::remap_ranges_from_indices(p, s, D);
    const auto q = ffcl::common::permutation_from_indices(p, w);
    sx_assert((r.size() == N * D) & (q.size() == N), "reordering: same size");
    int ok = 1, okw = 1;
    for (std::size_t i = 0; i < N; ++i) { okw &= q[i] == w[p[i]]; for (std::size_t f = 0; f < D; ++f) ok &= r[i * D + f] == s[p[i] * D + f]; }
    sx_assert(okw, "reordering: element i is the element the i-th index names");
    sx_assert(ok, "reordering: row i is the row the i-th index names");
    sx_reach("reorder");
}
HARNESS(matrix_f32_n3d2) { matrix<float, 3, 2>(kF, 4); }
HARNESS(matrix_f32_n5d1) { matrix<float, 5, 1>(kF, 4); }
HARNESS(matrix_i32_n4d2) { matrix<int, 4, 2>(kI, 3); }
HARNESS(matrix_f32_n1d1) { matrix<float, 1, 1>(kF, 4); }
HARNESS(matrix_cloud_n12d2) { matrix<float, 12, 2>(kF, 4, 10); }
HARNESS(transpose_n3d2) { transpose<int, 3, 2>(); }
HARNESS(transpose_n2d5) { transpose<int, 2, 5>(); }
HARNESS(transpose_n1d3) { transpose<int, 1, 3>(); }
HARNESS(transpose_n66d3) { transpose<int, 66, 3>(); }
HARNESS(transpose_n2d66) { transpose<int, 2, 66>(); }
HARNESS(translate_d3) { translate<3>(); }
HARNESS(reorder_n3d2) { reorder<3, 2>(); }
HARNESS(reorder_n4d1) { reorder<4, 1>(); }
HARNESS(matrix_wide_f32_n10d9) { matrix<float, 10, 9>(kF, 4, 10); }
HARNESS(matrix_wide_i32_n40d2) { matrix<int, 40, 2>(kI, 3, 40); }
HARNESS(transpose_n34d33) { transpose<int, 34, 33>(); }
HARNESS(translate_d9) { translate<9>(); }
HARNESS(transpose_n67d66) { transpose<int, 67, 66>(); }
HARNESS(transpose_n65d130) { transpose<short, 65, 130>(); }
