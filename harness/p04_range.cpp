#include "kd_oracle.hpp"
#include "ffcl/datastruct/bounds/AABBWithCentroid.hpp"
#include "ffcl/datastruct/bounds/Ball.hpp"
#include "ffcl/datastruct/bounds/segment/LowerBoundAndUpperBound.hpp"
namespace search = ffcl::search;
namespace bounds = ffcl::datastruct::bounds;

static const float kG[] = {-3.f, 0.f, 1.f};
static const float kF[] = {-3.f, 0.f, 1.f, 2.5f};
static const float kR[] = {0.5f, 1.f, 2.f, 3.f, 4.f};

template <typename T> static const T kRi[] = {T(1), T(2), T(3), T(5), T(8)};
template <typename T> static const T* radii() { if constexpr (std::is_same_v<T, float>) return kR; else return kRi<T>; }

enum Kind { BALL, BALL_STATIC, VIEW, BOX };

template <std::size_t N, std::size_t D, typename Table>
static void check(const Table& table, int kind, int axis, std::size_t bucket, std::size_t kmax, std::size_t fixed = 0) {
    using T = std::remove_cv_t<std::remove_extent_t<Table>>;
    std::vector<T> s(N * D), q(D);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = i / D < fixed ? kd::cloud_of<T>(i / D, i % D) : sx::pick("value", table);
    const std::size_t k = kmax == 0 ? 0 : sx_concretize(sx_choice("capacity", kmax + 1));  // 0: no limit
    std::vector<std::size_t> ix(N);
    for (std::size_t i = 0; i < N; ++i) ix[i] = N - 1 - i;
    std::array<int, N> el;
    el.fill(1);
    const auto searcher = search::Searcher(kd::Tree<T>(ix.begin(), ix.end(), s.begin(), s.end(), D, kd::options<T>(axis, bucket, 8)));
    const std::size_t limit = k == 0 ? N : k;
    if (kind == BOX) {
        using Segment = bounds::segment::LowerBoundAndUpperBound<T>;
        std::vector<Segment> segs;
        for (std::size_t f = 0; f < D; ++f) {
            const T lo = sx::pick("lower", table), hi = sx::pick("upper", table);
            sx_assume(lo <= hi);
            segs.push_back(Segment(lo, hi));
            q[f] = (lo + hi) / 2;
            for (std::size_t i = 0; i < N; ++i) el[i] &= (s[i * D + f] >= lo) & (s[i * D + f] <= hi);
        }
        bounds::AABBWithCentroid<Segment> box(segs);
        if (std::is_integral_v<T>)   // the middle of an odd number of values is rounded
            for (std::size_t f = 0; f < D; ++f) q[f] = box.centroid_begin()[f];
        const auto b = searcher(search::buffer::Unsorted(std::move(box), k));
        search_oracle<T, N, D>(s, q, limit, el, b);
        return;
    }
    for (auto& v : q) v = sx::pick("query", table);
    const T r = sx::pick_n("radius", radii<T>(), 5);
    for (std::size_t i = 0; i < N; ++i) el[i] = sq_dist(&s[i * D], &q[0], D) < (double)r * r;
    if (kind == BALL) search_oracle<T, N, D>(s, q, limit, el, searcher(search::buffer::Unsorted(bounds::Ball<T>(typename bounds::Ball<T>::CentroidType(q.begin(), q.end()), r), k)));
    else search_oracle<T, N, D>(s, q, limit, el, searcher(search::buffer::Unsorted(bounds::BallView<typename std::vector<T>::iterator>(q.begin(), q.end(), r), k)));
}
HARNESS(ball_n4d1) { check<4, 1>(kF, BALL, kd::CYCLE, 1, 0); }
HARNESS(view_n4d1) { check<4, 1>(kF, VIEW, kd::CYCLE, 1, 2); }
HARNESS(view_n3d2) { check<3, 2>(kG, VIEW, kd::SPREAD, 1, 0); }
HARNESS(view_n4d2) { check<4, 2>(kG, VIEW, kd::CYCLE, 1, 0); }
HARNESS(view_n5d1) { check<5, 1>(kG, VIEW, kd::CYCLE, 2, 0); }
HARNESS(box_n4d1) { check<4, 1>(kF, BOX, kd::CYCLE, 1, 0); }
HARNESS(box_n3d2) { check<3, 2>(kG, BOX, kd::CYCLE, 1, 0); }
HARNESS(box_capped_n4d1) { check<4, 1>(kG, BOX, kd::CYCLE, 1, 2); }

// larger trees, most of the samples fixed
HARNESS(view_cloud_n20d2) { check<20, 2>(kG, VIEW, kd::CYCLE, 1, 2, 19); }
HARNESS(ball_cloud_n40d2) { check<40, 2>(kG, BALL, kd::SPREAD, 3, 0, 39); }
HARNESS(box_cloud_n20d2) { check<20, 2>(kG, BOX, kd::CYCLE, 2, 0, 19); }
HARNESS(box_cloud_n40d2) { check<40, 2>(kF, BOX, kd::CYCLE, 2, 2, 40); }

// many dimensions
template <std::size_t N, std::size_t D>
static void wide(int kind, int axis, std::size_t bucket) {
    std::vector<float> s(N * D), q(D);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = kd::wide(i / D, i % D);
    std::vector<std::size_t> ix(N);
    for (std::size_t i = 0; i < N; ++i) ix[i] = N - 1 - i;
    const auto searcher = search::Searcher(kd::Tree<float>(ix.begin(), ix.end(), s.begin(), s.end(), D, kd::options<float>(axis, bucket, kd::DEFAULT_DEPTH)));
    std::array<int, N> el;
    el.fill(1);
    if (kind == BOX) {
        static const float los[] = {-4.f, -1.f, 0.f}, his[] = {0.f, 2.f, 4.f};
        using Segment = bounds::segment::LowerBoundAndUpperBound<float>;
        const std::size_t at = sx_concretize(sx_choice("coordinate", D));
        std::vector<Segment> segs;
        for (std::size_t f = 0; f < D; ++f) {
            const float lo = f == at ? sx::pick("lower", los) : f % 2 ? -3.f : -4.f, hi = f == at ? sx::pick("upper", his) : f % 3 ? 3.f : 2.f;
            segs.push_back(Segment(lo, hi));
            q[f] = (lo + hi) / 2;
            for (std::size_t i = 0; i < N; ++i) el[i] &= (s[i * D + f] >= lo) & (s[i * D + f] <= hi);
        }
        search_oracle<float, N, D>(s, q, N, el, searcher(search::buffer::Unsorted(bounds::AABBWithCentroid<Segment>(segs), 0)));
        return;
    }
    static const float radii[] = {0.5f, 4.f, 6.f, 8.f, 20.f};
    kd::wide_query(q, D);
    const float r = sx::pick("radius", radii);
    for (std::size_t i = 0; i < N; ++i) el[i] = sq_dist(&s[i * D], &q[0], D) < (double)r * r;
    if (kind == BALL) search_oracle<float, N, D>(s, q, N, el, searcher(search::buffer::Unsorted(bounds::Ball<float>(bounds::Ball<float>::CentroidType(q.begin(), q.end()), r), 0)));
    else search_oracle<float, N, D>(s, q, N, el, searcher(search::buffer::Unsorted(bounds::BallView<std::vector<float>::iterator>(q.begin(), q.end(), r), 0)));
}
HARNESS(ball_wide_n14d5) { wide<14, 5>(BALL, kd::CYCLE, 1); }
HARNESS(view_wide_n18d9) { wide<18, 9>(VIEW, kd::SPREAD, 2); }
HARNESS(box_wide_n14d5) { wide<14, 5>(BOX, kd::CYCLE, 1); }
HARNESS(box_wide_n18d9) { wide<18, 9>(BOX, kd::SPREAD, 2); }

// double precision, bounds whose number of features is fixed at compile time, a tree over some of the samples only
template <typename T, std::size_t N, std::size_t D, std::size_t NFeatures>
static void typed(int kind, std::size_t bucket, std::size_t skip, std::size_t fixed) {
    static const T table[] = {-3, 0, 1};
    static const T radii[] = {T(0.5), 1, 2, 3, 4};
    std::vector<T> s(N * D), q(D);
    for (std::size_t i = 0; i < N * D; ++i) s[i] = i / D < fixed ? T(kd::cloud(i / D, i % D)) : sx::pick("value", table);
    std::vector<std::size_t> ix;
    std::array<int, N> el;
    for (std::size_t i = 0; i < N; ++i) { el[i] = !(skip && i % skip == 0); if (el[i]) ix.push_back(i); }
    const auto searcher = search::Searcher(kd::Tree<T>(ix.begin(), ix.end(), s.begin(), s.end(), D, kd::options<T>(kd::CYCLE, bucket, kd::DEFAULT_DEPTH)));
    if (kind == BOX) {
        using Segment = bounds::segment::LowerBoundAndUpperBound<T>;
        T lo[D], hi[D];
        for (std::size_t f = 0; f < D; ++f) {
            lo[f] = sx::pick("lower", table); hi[f] = sx::pick("upper", table);
            sx_assume(lo[f] <= hi[f]);
            q[f] = (lo[f] + hi[f]) / 2;
            for (std::size_t i = 0; i < N; ++i) el[i] &= (s[i * D + f] >= lo[f]) & (s[i * D + f] <= hi[f]);
        }
        static_assert(D == 2);
        using Box = bounds::AABBWithCentroid<Segment, NFeatures>;
        search_oracle<T, N, D>(s, q, N, el, searcher(search::buffer::Unsorted(Box(typename Box::SegmentsType{Segment(lo[0], hi[0]), Segment(lo[1], hi[1])}), 0)));
        return;
    }
    for (auto& v : q) v = sx::pick("query", table);
    const T r = sx::pick("radius", radii);
    for (std::size_t i = 0; i < N; ++i) el[i] &= sq_dist(&s[i * D], &q[0], D) < (double)r * r;
    if (kind == BALL) search_oracle<T, N, D>(s, q, N, el, searcher(search::buffer::Unsorted(bounds::Ball<T, NFeatures>(typename bounds::Ball<T, NFeatures>::CentroidType{q[0], q[1]}, r), 0)));
    else search_oracle<T, N, D>(s, q, N, el, searcher(search::buffer::Unsorted(bounds::BallView<typename std::vector<T>::iterator>(q.begin(), q.end(), r), 0)));
}
HARNESS(box_f64_n8d2) { typed<double, 8, 2, 0>(BOX, 1, 0, 7); }
HARNESS(box_fixed_n8d2) { typed<float, 8, 2, 2>(BOX, 1, 0, 7); }
HARNESS(box_some_n12d2) { typed<float, 12, 2, 0>(BOX, 2, 3, 11); }
HARNESS(ball_f64_n8d2) { typed<double, 8, 2, 0>(BALL, 1, 0, 7); }
HARNESS(ball_fixed_n8d2) { typed<float, 8, 2, 2>(BALL, 1, 0, 7); }
HARNESS(ball_fixed_f64_n12d2) { typed<double, 12, 2, 2>(BALL, 1, 0, 11); }
HARNESS(view_some_n12d2) { typed<float, 12, 2, 0>(VIEW, 1, 3, 11); }
HARNESS(view_f64_n12d2) { typed<double, 12, 2, 0>(VIEW, 1, 0, 11); }

// integer samples: Manhattan balls, and boxes with an odd number of values along a side
static const int kI[] = {-3, 0, 2, 3};
static const unsigned kU[] = {0u, 3u, 4u, 9u};
HARNESS(ball_i32_n4d1) { check<4, 1>(kI, BALL, kd::CYCLE, 1, 0); }
HARNESS(view_u32_n4d1) { check<4, 1>(kU, VIEW, kd::CYCLE, 1, 2); }
HARNESS(box_i32_n4d1) { check<4, 1>(kI, BOX, kd::CYCLE, 1, 0); }
HARNESS(box_u32_n4d1) { check<4, 1>(kU, BOX, kd::CYCLE, 1, 2); }
HARNESS(ball_u32_cloud_n20d2) { check<20, 2>(kU, BALL, kd::SPREAD, 2, 0, 20); }
HARNESS(view_i32_cloud_n20d2) { check<20, 2>(kI, VIEW, kd::CYCLE, 1, 0, 20); }
HARNESS(box_i32_cloud_n20d2) { check<20, 2>(kI, BOX, kd::CYCLE, 1, 0, 20); }
HARNESS(box_u32_cloud_n20d2) { check<20, 2>(kU, BOX, kd::SPREAD, 1, 0, 20); }
