#include "kd_oracle.hpp"
#include "ffcl/datastruct/Interval.hpp"
#include "ffcl/datastruct/bounds/AABB.hpp"
#include "ffcl/datastruct/bounds/AABBWithCentroid.hpp"
#include "ffcl/datastruct/bounds/Ball.hpp"
#include "ffcl/datastruct/bounds/UnboundedBall.hpp"
#include "ffcl/datastruct/bounds/distances/MinDistance.hpp"
#include "ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp"
#include "ffcl/datastruct/bounds/segment/LowerBoundAndUpperBound.hpp"
#include "ffcl/datastruct/bounds/segment/distances/MinDistance.hpp"
namespace bd = ffcl::datastruct::bounds;
namespace sg = ffcl::datastruct::bounds::segment;

static const float kV[] = {-3.f, -0.5f, 0.f, 1.5f, 4.f};
static const float kW[] = {-3.f, 0.f, 1.5f, 4.f};
static const int kI[] = {-7, -4, -3, -1, 0, 2, 5};

static int close(double a, double b) { const double d = a - b, t = 1e-5 * (1 + (b < 0 ? -b : b)); return (d <= t) & (-d <= t); }

// a segment behaves as the closed interval [lo, hi] (for integers given by a length: [lo, lo + length - 1])
template <typename Seg, typename T, bool Length>
static void segment(const T* table, uint32_t n) {
    const T lo = sx::pick_n("lower", table, n), hi = sx::pick_n("upper", table, n), v = sx::pick_n("value", table, n), w = sx::pick_n("new bound", table, n);
    sx_assume(lo <= hi);
    if (Length && std::is_integral_v<T>) sx_assume(lo < hi);
    Seg s(lo, Length ? T(hi - lo) : hi);
    sx_assert((s.lower_bound() == lo) & (s.upper_bound() == hi), "segment: bounds");
    const T last = (Length && std::is_integral_v<T>) ? hi - 1 : hi;
    sx_assert(s.contains_value(v) == ((lo <= v) & (v <= last)), "segment: contains exactly the values between its bounds");
    const T c = s.centroid();
    if constexpr (std::is_integral_v<T>) {
        sx_assert((2 * c <= lo + last) & (lo + last <= 2 * c + 1), "segment: the integer centre is the middle, rounded to the left");
        sx_assert(s.centroid_to_bound_distance() == 1 + last - c, "segment: the distance from the integer centre");
    } else {
        sx_assert(c - lo == hi - c, "segment: the centre is equidistant to the bounds");
        sx_assert(s.centroid_to_bound_distance() == hi - c, "segment: the distance from the centre to a bound");
    }
    sx_assert(s.contains_value(c), "segment: contains its centre");
    Seg a = s, b = s;
    sx_assume((w <= hi) & (lo <= w));
    a.update_lower_bound(w);
    sx_assert((a.lower_bound() == w) & (a.upper_bound() == hi), "segment: moving the lower bound leaves the upper one");
    b.update_upper_bound(w);
    sx_assert((b.lower_bound() == lo) & (b.upper_bound() == w), "segment: moving the upper bound leaves the lower one");
    sx::emit(c);
    sx_reach("segment");
}
template <typename T>
static void segments_distance(const T* table, uint32_t n) {
    using A = sg::LowerBoundAndUpperBound<T>;
    using B = sg::LowerBoundAndLength<T>;
    const T al = sx::pick_n("al", table, n), ah = sx::pick_n("ah", table, n), bl = sx::pick_n("bl", table, n), bh = sx::pick_n("bh", table, n);
    sx_assume((al <= ah) & (bl <= bh));
    const T e = (ah < bl) ? bl - ah : (bh < al) ? al - bh : T(0);
    sx_assert(bd::min_distance(A(al, ah), A(bl, bh)) == e, "segments: distance between the closest values");
    sx_assert(bd::min_distance(A(bl, bh), A(al, ah)) == e, "segments: the distance is symmetric");
    sx_assert(bd::min_distance(B(al, ah - al), A(bl, bh)) == e, "segments: distance between different representations");
    sx_reach("segments");
}
// in many dimensions one feature, at any position, is free and the others are fixed
static std::size_t free_feature(std::size_t D) { return D > 4 ? sx_concretize(sx_choice("free feature", (uint32_t)D)) : D; }
template <typename T>
static T coordinate(const char* n, const T* t, uint32_t m, std::size_t f, std::size_t free, std::size_t D, std::size_t salt) {
    return (D <= 4 || f == free) ? sx::pick_n(n, t, m) : t[(f * 3 + f / 2 + salt) % m];
}
template <typename Box, std::size_t D>
static Box box(const char* l, const char* h, const float* t, uint32_t n, std::array<float, D>& lo, std::array<float, D>& hi, std::size_t free = D) {
    using S = sg::LowerBoundAndUpperBound<float>;
    std::vector<S> segs;
    for (std::size_t f = 0; f < D; ++f) {
        lo[f] = coordinate(l, t, n, f, free, D, *l == 'b'); hi[f] = coordinate(h, t, n, f, free, D, *l == 'b' ? 1 : 2);
        if (D > 4 && f != free && lo[f] > hi[f]) std::swap(lo[f], hi[f]);
        sx_assume(lo[f] <= hi[f]);
        segs.push_back(S(lo[f], hi[f]));
    }
    if constexpr (Box::SegmentsType::NFeaturesSize::value == 0) return Box(segs);
    else {
        static_assert(D == 2);
        return Box(std::array<S, D>{segs[0], segs[1]});
    }
}
using BoxC = bd::AABBWithCentroid<sg::LowerBoundAndUpperBound<float>>;
using BoxP = bd::AABB<sg::LowerBoundAndUpperBound<float>>;
template <typename Box, std::size_t D>
static void aabb(const float* t, uint32_t n) {
    std::array<float, D> lo, hi;
    const std::size_t free = free_feature(D);
    const auto b = box<Box, D>("lower", "upper", t, n, lo, hi, free);
    std::vector<float> p(D);
    int in = 1; double diag = 0, far = 0, dc = 0;
    for (std::size_t f = 0; f < D; ++f) {
        p[f] = (D <= 4 || f == free) ? sx::pick_n("point", t, n) : (f % 2 ? lo[f] : hi[f]);
        in &= (lo[f] <= p[f]) & (p[f] <= hi[f]);
        const double l = (double)hi[f] - lo[f], c = ((double)hi[f] + lo[f]) / 2;
        diag += l * l;
        far = l / 2 > far ? l / 2 : far;
        dc += (p[f] - c) * (p[f] - c);
    }
    sx_assert(b.n_features() == D, "box: number of features");
    sx_assert(b.is_in_bounds(p.begin(), p.end()) == in, "box: contains exactly the points within every side");
    sx_assert(is_root_of(b.diameter(), diag), "box: the diameter is the length of the diagonal");
    if constexpr (!std::is_same_v<Box, BoxP>) {
        int ce = 1, cd = 1;
        for (std::size_t f = 0; f < D; ++f) {
            ce &= b.centroid_begin()[f] == (lo[f] + hi[f]) / 2;
            cd &= b.centroid_to_bound_distance(f) == (hi[f] - lo[f]) / 2;
        }
        sx_assert(ce, "box: the centroid is its middle");
        sx_assert(cd, "box: distance from the centroid to each side");
        sx_assert(close(b.centroid_to_furthest_bound_distance(), far), "box: distance from the centroid to the furthest side");
        sx_assert(is_root_of(b.distance_to_centroid(p.begin(), p.end()), dc), "box: distance of a point to the centroid");
        const auto o = b.compute_distance_to_centroid_if_within_bounds(p.begin(), p.end());
        sx_assert(o.has_value() == (bool)in, "box: distance given exactly for the points inside");
        if (o) sx_assert(is_root_of(*o, dc), "box: distance of a contained point");
    }
    sx_reach("box");
}
template <typename Box, std::size_t D>
static void boxes(const float* t, uint32_t n) {
    std::array<float, D> al, ah, bl, bh;
    const std::size_t free = free_feature(D);
    const auto a = box<Box, D>("al", "ah", t, n, al, ah, free), b = box<Box, D>("bl", "bh", t, n, bl, bh, free);
    double e = 0;
    for (std::size_t f = 0; f < D; ++f) {
        const double g = (ah[f] < bl[f]) ? bl[f] - ah[f] : (bh[f] < al[f]) ? al[f] - bh[f] : 0.0;
        e += g * g;
    }
    const float d = bd::min_distance(a, b);
    sx_assert(is_root_of(d, e), "boxes: the distance is that of their closest points");
    sx_assert(d == bd::min_distance(b, a), "boxes: the distance is symmetric");
    sx::emit(d);
    sx_reach("boxes");
}
template <typename B, typename T>
static typename B::CentroidType centre(std::vector<T>& c) {
    if constexpr (B::CentroidType::NFeaturesSize::value == 0) return typename B::CentroidType(c.begin(), c.end());
    else {
        std::array<T, B::CentroidType::NFeaturesSize::value> a;
        std::copy(c.begin(), c.end(), a.begin());
        return typename B::CentroidType(a);
    }
}
template <std::size_t D, std::size_t NFeatures = 0, typename T = float>
static void balls(const T* t, uint32_t n) {
    static const T kR[] = {std::is_integral_v<T> ? T(5) : T(0.5f), T(1), T(2.5f)};
    std::vector<T> c(D), e(D), p(D);
    const std::size_t free = free_feature(D);
    for (std::size_t f = 0; f < D; ++f) {
        c[f] = coordinate("centre", t, n, f, free, D, 0);
        p[f] = (D > 4 && f % 3) && f != free ? c[f] : coordinate("point", t, n, f, free, D, 1);
        e[f] = coordinate("other centre", t, n, f, free, D, 2);
    }
    const T r = sx::pick("radius", kR), q = sx::pick("other radius", kR);
    const double pc = sq_dist(&p[0], &c[0], D), ce = sq_dist(&c[0], &e[0], D);
    using Ball = bd::Ball<T, NFeatures>;
    using View = bd::BallView<typename std::vector<T>::iterator>;
    const Ball b(centre<Ball>(c), r), b2(centre<Ball>(e), q);
    const View v(c.begin(), c.end(), r), v2(e.begin(), e.end(), q);
    const int in = pc < (double)r * r;
    sx_assert((b.is_in_bounds(p.begin(), p.end()) == in) & (v.is_in_bounds(p.begin(), p.end()) == in), "ball: contains exactly the points strictly within the radius");
    sx_assert((b.diameter() == 2 * r) & (v.diameter() == 2 * r), "ball: the diameter is twice the radius");
    sx_assert((b.n_features() == D) & (v.n_features() == D), "ball: number of features");
    sx_assert((b.centroid_to_furthest_bound_distance() == r) & (v.centroid_to_furthest_bound_distance() == r) & (b.centroid_to_bound_distance(0) == r) & (v.centroid_to_bound_distance(0) == r), "ball: distance from the centre to the border");
    sx_assert(is_root_of(b.distance_to_centroid(p.begin(), p.end()), pc) & is_root_of(v.distance_to_centroid(p.begin(), p.end()), pc), "ball: distance to the centre");
    const auto o = b.compute_distance_to_centroid_if_within_bounds(p.begin(), p.end());
    const auto ov = v.compute_distance_to_centroid_if_within_bounds(p.begin(), p.end());
    sx_assert((o.has_value() == (bool)in) & (ov.has_value() == (bool)in), "ball: distance given exactly for the points inside");
    if (o) sx_assert(is_root_of(*o, pc), "ball: distance of a contained point");
    if (ov) sx_assert(is_root_of(*ov, pc), "ball: distance of a contained point");
    const T d = bd::min_distance(b, b2), dv = bd::min_distance(v, v2);
    // d is max(0, sqrt(ce) - r - q): (d + r + q)^2 == ce, or d == 0 and ce <= (r + q)^2
    const double rq = (double)r + q, s = (double)d + rq;
    sx_assert((d >= 0) & ((ce <= rq * rq) ? (d <= 1e-5) : close(s * s, ce)), "balls: the distance is that of their closest points");
    sx_assert(close(d, dv), "balls: views give the same distance");
    using U = bd::UnboundedBall<T, NFeatures>;
    using UV = bd::UnboundedBallView<typename std::vector<T>::iterator>;
    const U u{centre<U>(c)};
    const UV uv(c.begin(), c.end());
    sx_assert(u.is_in_bounds(p.begin(), p.end()) & uv.is_in_bounds(p.begin(), p.end()), "unbounded ball: contains every point");
    const auto ou = u.compute_distance_to_centroid_if_within_bounds(p.begin(), p.end());
    const auto ouv = uv.compute_distance_to_centroid_if_within_bounds(p.begin(), p.end());
    sx_assert(ou.has_value() & ouv.has_value(), "unbounded ball: always gives the distance");
    sx_assert(is_root_of(*ou, pc) & is_root_of(*ouv, pc), "unbounded ball: distance to the centre");
    sx_reach("ball");
}
// tight segments and boxes around samples
template <std::size_t N, std::size_t D>
static void tight(const float* t, uint32_t n) {
    std::vector<float> s((N + 1) * D);
    if (N <= 5) for (auto& v : s) v = sx::pick_n("value", t, n);
    else {  // one sample, at any position, is free
        const std::size_t free = sx_concretize(sx_choice("free sample", N + 1));
        for (std::size_t i = 0; i < s.size(); ++i) s[i] = i / D == free ? sx::pick_n("value", t, n) : -1.f + 0.25f * ((i * 7) % 11);
    }
    std::vector<std::size_t> ix(N);
    for (std::size_t i = 0; i < N; ++i) ix[i] = N - i;  // sample 0 is not indexed
    const auto all = ffcl::datastruct::make_tight_bound(s.begin(), s.end(), D);
    const auto sub = ffcl::datastruct::make_tight_bound(ix.begin(), ix.end(), s.begin(), s.end(), D);
    int ok = 1, seg = 1;
    for (std::size_t f = 0; f < D; ++f) {
        float lo = s[D + f], hi = s[D + f];
        for (std::size_t i = 2; i <= N; ++i) { lo = s[i * D + f] < lo ? s[i * D + f] : lo; hi = s[i * D + f] > hi ? s[i * D + f] : hi; }
        const float lo2 = s[f] < lo ? s[f] : lo, hi2 = s[f] > hi ? s[f] : hi;
        ok &= (sub.segment_at(f).lower_bound() == lo) & (sub.segment_at(f).upper_bound() == hi);
        ok &= (all.segment_at(f).lower_bound() == lo2) & (all.segment_at(f).upper_bound() == hi2);
        const auto a = ffcl::datastruct::make_tight_segment(s.begin(), s.end(), D, f);
        const auto b = ffcl::datastruct::make_tight_segment(ix.begin(), ix.end(), s.begin(), s.end(), D, f);
        seg &= (a.lower_bound() == lo2) & (a.upper_bound() == hi2) & (b.lower_bound() == lo) & (b.upper_bound() == hi);
        ok &= (all.centroid_begin()[f] == (lo2 + hi2) / 2) & (sub.centroid_begin()[f] == (lo + hi) / 2);
    }
    sx_assert(ok, "tight box: the minimum and maximum of each feature");
    sx_assert(seg, "tight segment: the minimum and maximum of the feature");
    sx_reach("tight");
}
HARNESS(segment_f32) { segment<sg::LowerBoundAndUpperBound<float>, float, false>(kV, 5); }
HARNESS(segment_length_f32) { segment<sg::LowerBoundAndLength<float>, float, true>(kV, 5); }
HARNESS(segment_i32) { segment<sg::LowerBoundAndUpperBound<int>, int, false>(kI, 7); }
HARNESS(segment_length_i32) { segment<sg::LowerBoundAndLength<int>, int, true>(kI, 7); }
HARNESS(segments_f32) { segments_distance<float>(kV, 5); }
HARNESS(segments_i32) { segments_distance<int>(kI, 7); }
HARNESS(aabb_centroid_d1) { aabb<BoxC, 1>(kV, 5); }
HARNESS(aabb_centroid_d2) { static const float t[] = {-1.f, 0.25f, 2.f}; aabb<BoxC, 2>(t, 3); }
HARNESS(aabb_centroid_wide_d2) { aabb<BoxC, 2>(kW, 4); }
HARNESS(aabb_centroid_d3) { static const float t[] = {-1.f, 2.5f}; aabb<BoxC, 3>(t, 2); }
HARNESS(aabb_d2) { aabb<BoxP, 2>(kW, 4); }
HARNESS(boxes_centroid_d2) { static const float t[] = {-1.f, 0.f, 2.f}; boxes<BoxC, 2>(t, 3); }
HARNESS(boxes_d2) { static const float t[] = {-1.f, 0.f, 2.f}; boxes<BoxP, 2>(t, 3); }
HARNESS(boxes_d1) { boxes<BoxC, 1>(kV, 5); boxes<BoxP, 1>(kV, 5); }
HARNESS(balls_d1) { balls<1>(kV, 5); }
HARNESS(balls_d2) { static const float t[] = {-1.f, 0.f, 2.f}; balls<2>(t, 3); }
HARNESS(tight_n3d2) { tight<3, 2>(kV, 3); }
HARNESS(tight_n4d1) { tight<4, 1>(kV, 5); }

// many dimensions, many samples
HARNESS(aabb_centroid_d9) { static const float t[] = {-1.f, 0.25f, 2.f}; aabb<BoxC, 9>(t, 3); }
HARNESS(aabb_d6) { static const float t[] = {-1.f, 0.25f, 2.f}; aabb<BoxP, 6>(t, 3); }
HARNESS(boxes_centroid_d9) { static const float t[] = {-1.f, 0.f, 2.f}; boxes<BoxC, 9>(t, 3); }
HARNESS(boxes_d6) { static const float t[] = {-1.f, 0.f, 2.f}; boxes<BoxP, 6>(t, 3); }
HARNESS(balls_d9) { static const float t[] = {-1.f, 0.f, 2.f}; balls<9>(t, 3); }
HARNESS(tight_n20d3) { tight<20, 3>(kV, 5); }
HARNESS(tight_n9d6) { static const float t[] = {-2.f, 5.f}; tight<9, 6>(t, 2); }

// every way to make a bound and every accessor tell the same
template <typename Seg, std::size_t N>
static Seg seg_of(float lo, float hi) { (void)N; return std::is_same_v<Seg, sg::LowerBoundAndLength<typename Seg::ValueType>> ? Seg(lo, hi - lo) : Seg(lo, hi); }
template <typename Seg, std::size_t NFeatures>
static void box_accessors() {
    constexpr std::size_t D = 2;
    using T = typename Seg::ValueType;
    using C = bd::AABBWithCentroid<Seg, NFeatures>;
    using P = bd::AABB<Seg, NFeatures>;
    static const T t[] = {-2, 0, 4};
    T lo[D], hi[D], p[D];
    for (std::size_t f = 0; f < D; ++f) {
        lo[f] = sx::pick("lower", t); hi[f] = sx::pick("upper", t); p[f] = sx::pick("point", t);
        sx_assume(lo[f] <= hi[f]);
    }
    const std::vector<T> pv(p, p + D);
    auto segs = [&]() -> typename C::SegmentsType {
        if constexpr (NFeatures == 0) return std::vector<Seg>{seg_of<Seg, 0>(lo[0], hi[0]), seg_of<Seg, 0>(lo[1], hi[1])};
        else return std::array<Seg, 2>{seg_of<Seg, 0>(lo[0], hi[0]), seg_of<Seg, 0>(lo[1], hi[1])};
    }();
    auto segs2 = segs;
    C a(segs);
    P q(segs);
    const C b(std::move(segs));
    const P r(std::move(segs2));
    int ok = (a.n_features() == D) & (b.n_features() == D) & (q.n_features() == D) & (r.n_features() == D), in = 1, ce = 1;
    for (std::size_t f = 0; f < D; ++f) {
        const T c = (lo[f] + hi[f]) / 2;
        in &= (lo[f] <= p[f]) & (p[f] <= hi[f]);
        ok &= (a.segment_at(f).lower_bound() == lo[f]) & (a.segment_at(f).upper_bound() == hi[f]) & (b.segment_at(f).lower_bound() == lo[f]) & (b.segment_at(f).upper_bound() == hi[f]);
        ok &= (q.segment_at(f).lower_bound() == lo[f]) & (q.segment_at(f).upper_bound() == hi[f]) & (r.segment_at(f).lower_bound() == lo[f]) & (r.segment_at(f).upper_bound() == hi[f]);
        ok &= (b.segments_begin() + f)->upper_bound() == hi[f];
        ce &= (a.centroid_at(f) == c) & (b.centroid_at(f) == c) & (*(b.centroid_begin() + f) == c) & (q.centroid_at(f) == c);
    }
    ok &= ((std::size_t)std::distance(b.segments_begin(), b.segments_end()) == D) & ((std::size_t)std::distance(b.centroid_begin(), b.centroid_end()) == D);
    sx_assert(ok, "box: however it is made it has the sides it was given");
    sx_assert(ce, "box: however it is made its centroid is its middle");
    sx_assert((a.is_in_bounds(pv.begin(), pv.end()) == in) & (b.is_in_bounds(pv.begin(), pv.end()) == in) & (q.is_in_bounds(pv.begin(), pv.end()) == in) & (r.is_in_bounds(pv.begin(), pv.end()) == in), "box: however it is made it contains the same points");
    a.segment_at(0).update_upper_bound(hi[0] + 1);
    q.segment_at(1).update_lower_bound(lo[1] - 1);
    sx_assert((a.segment_at(0).upper_bound() == hi[0] + 1) & (a.segment_at(0).lower_bound() == lo[0]) & (a.segment_at(1).upper_bound() == hi[1]) & (q.segment_at(1).lower_bound() == lo[1] - 1) & (q.segment_at(1).upper_bound() == hi[1]) & (q.segment_at(0).lower_bound() == lo[0]), "box: widening one side changes that side only");
    sx_reach("box accessors");
}
template <typename T>
static void ball_accessors() {
    static const T t[] = {std::is_unsigned_v<T> ? T(7) : T(-2), T(0), T(3)}, rad[] = {0, 1, 2};
    const T c[2] = {sx::pick("c0", t), sx::pick("c1", t)};
    const T r = sx::pick("radius", rad);
    std::vector<T> cv(c, c + 2);
    using B = bd::Ball<T>;
    using V = bd::BallView<typename std::vector<T>::iterator>;
    using U = bd::UnboundedBall<T>;
    using UV = bd::UnboundedBallView<typename std::vector<T>::iterator>;
    const typename B::CentroidType ct(cv.begin(), cv.end());
    const B b(ct, r), b2(typename B::CentroidType(cv.begin(), cv.end()), r);
    const V v(cv.begin(), cv.end(), r);
    const U u(ct), u2{typename U::CentroidType(cv.begin(), cv.end())};
    const UV uv(cv.begin(), cv.end());
    int ok = 1;
    for (std::size_t f = 0; f < 2; ++f) {
        ok &= (*(b.centroid_begin() + f) == c[f]) & (*(b2.centroid_begin() + f) == c[f]) & (*(v.centroid_begin() + f) == c[f]) & (*(u.centroid_begin() + f) == c[f]) & (*(u2.centroid_begin() + f) == c[f]) & (*(uv.centroid_begin() + f) == c[f]);
        ok &= (b.centroid_to_bound_distance(f) == r) & (v.centroid_to_bound_distance(f) == r);
    }
    sx_assert(ok, "ball: the centre is the one given");
    sx_assert((std::distance(b.centroid_begin(), b.centroid_end()) == 2) & (std::distance(v.centroid_begin(), v.centroid_end()) == 2) & (std::distance(u.centroid_begin(), u.centroid_end()) == 2) & (std::distance(uv.centroid_begin(), uv.centroid_end()) == 2), "ball: the centre has one value per feature");
    sx_assert((u.n_features() == 2) & (uv.n_features() == 2) & (b2.n_features() == 2), "ball: number of features");
    const T inf = std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max();
    sx_assert((u.centroid_to_furthest_bound_distance() == inf) & (uv.centroid_to_furthest_bound_distance() == inf) & (u.centroid_to_bound_distance(1) == inf) & (uv.centroid_to_bound_distance(1) == inf), "unbounded ball: its border is infinitely far");
    sx_assert((bd::min_distance(u, u2) == 0) & (bd::min_distance(uv, uv) == 0), "unbounded balls: they overlap");
    const auto vc = v.centroid();
    sx_assert((vc.size() == 2) & (vc[0] == c[0]) & (vc[1] == c[1]), "ball: a copy of the centre");
    const auto uc = uv.centroid();
    sx_assert((uc.size() == 2) & (uc[0] == c[0]) & (uc[1] == c[1]), "ball: a copy of the centre");
    sx_reach("ball accessors");
}
HARNESS(box_accessors_f32) { box_accessors<sg::LowerBoundAndUpperBound<float>, 0>(); }
HARNESS(box_accessors_f64_fixed) { box_accessors<sg::LowerBoundAndUpperBound<double>, 2>(); }
HARNESS(box_accessors_length) { box_accessors<sg::LowerBoundAndLength<float>, 0>(); }
HARNESS(ball_accessors_f32) { ball_accessors<float>(); }
HARNESS(ball_accessors_i32) { ball_accessors<std::int32_t>(); }
HARNESS(ball_accessors_u32) { ball_accessors<std::uint32_t>(); }
HARNESS(ball_accessors_f64) { ball_accessors<double>(); }
// a number of features fixed at compile time
HARNESS(aabb_centroid_fixed_d2) { static const float t[] = {-1.f, 0.25f, 2.f}; aabb<bd::AABBWithCentroid<sg::LowerBoundAndUpperBound<float>, 2>, 2>(t, 3); }
HARNESS(boxes_centroid_fixed_d2) { static const float t[] = {-1.f, 0.f, 2.f}; boxes<bd::AABBWithCentroid<sg::LowerBoundAndUpperBound<float>, 2>, 2>(t, 3); boxes<bd::AABB<sg::LowerBoundAndUpperBound<float>, 2>, 2>(t, 3); }
HARNESS(balls_fixed_d2) { static const float t[] = {-1.f, 0.f, 2.f}; balls<2, 2>(t, 3); }

// unsigned and signed integers
static const unsigned kU[] = {0u, 1u, 4u, 9u, 4000000u};
HARNESS(segment_u32) { segment<sg::LowerBoundAndUpperBound<unsigned>, unsigned, false>(kU, 5); }
HARNESS(segment_length_u32) { segment<sg::LowerBoundAndLength<unsigned>, unsigned, true>(kU, 5); }
HARNESS(segments_u32) { segments_distance<unsigned>(kU, 5); }
HARNESS(balls_u32_d1) { balls<1>(kU, 4); }
HARNESS(balls_u32_d2) { balls<2>(kU, 3); }
HARNESS(balls_i32_d1) { balls<1>(kI, 7); }
HARNESS(balls_i32_d2) { balls<2>(kI + 3, 3); }
