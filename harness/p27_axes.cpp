// Which feature a kd-tree is cut along: the axis selection policies, and their use by the tree.
#include "kd_common.hpp"

template <typename T> using Bound = typename kd::Tree<T>::BoundType;

static const float kV[] = {-2.f, 0.f, 1.5f, 4.f};
static const float kS[] = {-2.f, 0.f, 1.5f};
static const int kI[] = {-7, 0, 3, 4};

// one of the masks over D features (0: none), as a list of features in the order given
template <std::size_t D>
static std::vector<std::size_t> a_mask() {
    const int m = sx_concretize(sx::irange("mask", 0, D == 2 ? 4 : 5));
    if (D == 2) {
        if (m == 0) return {};
        if (m == 1) return {0};
        if (m == 2) return {1};
        if (m == 3) return {0, 1};
        return {1, 0};
    }
    if (m == 0) return {};
    if (m == 1) return {2};
    if (m == 2) return {1, 2};
    if (m == 3) return {2, 0};
    if (m == 4) return {1};
    return {2, 1, 0};
}
static bool allowed(const std::vector<std::size_t>& mask, std::size_t D, std::size_t f) {
    bool in = mask.empty() && f < D;
    for (auto m : mask) in |= (m == f);
    return in;
}

template <typename T, std::size_t N, std::size_t D>
struct Data {
    std::vector<T> s;
    std::vector<std::size_t> ix;
    // N samples of interest at the end, the others are far away and must not matter
    template <typename Table>
    explicit Data(const Table& table) : s((N + 2) * D), ix(N) {
        for (std::size_t i = 0; i < N * D; ++i) s[2 * D + i] = sx::pick("value", table);
        for (std::size_t f = 0; f < D; ++f) { s[f] = T(-30 + 20 * (int)f); s[D + f] = T(90 - 40 * (int)f); }
        for (std::size_t i = 0; i < N; ++i) ix[i] = N + 1 - i;
    }
};

template <typename T> static T length(T lo, T hi) { return hi > lo ? hi - lo : lo - hi; }

template <typename T, std::size_t D, typename Table>
static void cycle_and_spread(const Table& table) {
    Data<T, 2, D> d(table);
    const auto mask = a_mask<D>();
    const std::size_t depth = sx_concretize(sx::irange("depth", 0, 5));
    auto bound = ffcl::datastruct::make_tight_bound<kd::IndicesIt, kd::SamplesIt<T>, Bound<T>>(d.ix.begin(), d.ix.end(), d.s.begin(), d.s.end(), D);
    auto c = kd::policy::CycleThroughAxesBuild<kd::IndicesIt, kd::SamplesIt<T>, Bound<T>>().feature_mask(mask);
    const std::size_t fc = c(d.ix.begin(), d.ix.end(), d.s.begin(), d.s.end(), D, depth, bound);
    sx_assert(fc == (mask.empty() ? depth % D : mask[depth % mask.size()]), "axes: cycling takes the (masked) features in turn");
    auto p = kd::policy::MaximumSpreadBuild<kd::IndicesIt, kd::SamplesIt<T>, Bound<T>>().feature_mask(std::vector<std::size_t>(mask));
    const std::size_t fs = p(d.ix.begin(), d.ix.end(), d.s.begin(), d.s.end(), D, depth, bound);
    sx_assert(allowed(mask, D, fs), "axes: the longest side is one of the masked features");
    int best = 1;
    const T mine = length(d.s[2 * D + fs], d.s[3 * D + fs]);
    for (std::size_t f = 0; f < D; ++f)
        if (allowed(mask, D, f)) best &= (length(d.s[2 * D + f], d.s[3 * D + f]) <= mine);
    sx_assert(best, "axes: no other allowed side of the box is longer");
    sx::emit(fc); sx::emit(fs);
    sx_reach("axes");
}

// n^2 * (biased) variance, exact for these values
template <typename T, std::size_t D>
static double spread_of(const std::vector<T>& s, const std::vector<std::size_t>& ix, unsigned subset, std::size_t f) {
    double sum = 0, sq = 0; int n = 0;
    for (std::size_t i = 0; i < ix.size(); ++i)
        if (subset >> i & 1) { const double v = s[ix[i] * D + f]; sum += v; sq += v * v; ++n; }
    return n * sq - sum * sum;
}

template <typename T, std::size_t N, std::size_t D, typename Table>
static void variance(const Table& table, double rate) {
    Data<T, N, D> d(table);
    const auto ix = d.ix;
    const auto mask = a_mask<D>();
    auto bound = ffcl::datastruct::make_tight_bound<kd::IndicesIt, kd::SamplesIt<T>, Bound<T>>(d.ix.begin(), d.ix.end(), d.s.begin(), d.s.end(), D);
    auto p = kd::policy::HighestVarianceBuild<kd::IndicesIt, kd::SamplesIt<T>, Bound<T>>().sampling_rate(rate).feature_mask(mask);
    const std::size_t fs = p(d.ix.begin(), d.ix.end(), d.s.begin(), d.s.end(), D, 1, bound);
    sx_assert(allowed(mask, D, fs), "axes: the feature of largest variance is one of the masked features");
    if (N >= 2) {
        std::size_t k = (std::size_t)(rate * N);
        k = N == 2 ? 2 : k < 3 ? 3 : k;
        int some = 0;
        for (unsigned subset = 0; subset < (1u << N); ++subset) {
            if ((std::size_t)__builtin_popcount(subset) != k) continue;
            int best = 1;
            const double mine = spread_of<T, D>(d.s, ix, subset, fs);
            for (std::size_t f = 0; f < D; ++f)
                if (allowed(mask, D, f)) best &= (spread_of<T, D>(d.s, ix, subset, f) <= mine + 1e-6);
            some |= best;
        }
        sx_assert(some, "axes: largest variance over a draw of the samples of the node (largest distance for two samples)");
    }
    int same = 1;
    for (std::size_t i = 0; i < N; ++i) same &= (d.ix[i] == ix[i]);
    sx_assert(same, "axes: the selection leaves the indices in place");
    sx::emit(fs);
    sx_reach("axes");
}

// a policy given by the user is asked at every node with the depth, samples and box of that node, and obeyed
template <typename It, typename S, typename B>
struct Recorder : kd::policy::AxisSelectionPolicy<It, S, B> {
    struct Call { std::vector<std::size_t> ix; std::size_t depth, feature; std::vector<float> lo, hi; };
    std::vector<Call>* calls = nullptr;
    int salt = 0;
    std::size_t operator()(const It& a, const It& b, const S& sa, const S& sb, std::size_t d, std::size_t depth, const B& bound) const override {
        (void)sa; (void)sb;
        Call c{std::vector<std::size_t>(a, b), depth, (std::size_t)((salt + depth + (b - a)) % d), {}, {}};
        for (std::size_t f = 0; f < d; ++f) { c.lo.push_back(bound.segment_at(f).lower_bound()); c.hi.push_back(bound.segment_at(f).upper_bound()); }
        calls->push_back(c);
        return c.feature;
    }
};
template <typename Node>
static void subtree(const Node& n, std::vector<std::size_t>& out) {
    for (auto it = n->indices_range_.first; it != n->indices_range_.second; ++it) out.push_back(*it);
    if (!n->is_leaf()) { subtree(n->left_, out); subtree(n->right_, out); }
}
template <typename Node, typename Calls>
static void obeyed(const Node& n, std::size_t depth, const Calls& calls, int& ok) {
    if (n->is_leaf()) return;
    std::vector<std::size_t> mine;
    subtree(n, mine);
    int some = 0;
    for (const auto& c : calls) {
        if (c.ix.size() != mine.size() || c.depth != depth) continue;
        int match = 1;
        for (auto i : mine) { int in = 0; for (auto j : c.ix) in |= (i == j); match &= in; }
        for (std::size_t f = 0; f < c.lo.size(); ++f)
            match &= (n->bound_.segment_at(f).lower_bound() == c.lo[f]) & (n->bound_.segment_at(f).upper_bound() == c.hi[f]);
        some |= match & ((std::size_t)n->cut_axis_feature_index_ == c.feature);
    }
    ok &= some;
    obeyed(n->left_, depth + 1, calls, ok);
    obeyed(n->right_, depth + 1, calls, ok);
}
template <std::size_t N, std::size_t D, typename Table>
static void custom(const Table& table, std::size_t fixed) {
    std::vector<float> s(N * D);
    for (std::size_t i = 0; i < s.size(); ++i) s[i] = (i / D < fixed) ? kd::cloud(i / D, i % D) : sx::pick("value", table);
    std::vector<std::size_t> ix(N);
    for (std::size_t i = 0; i < N; ++i) ix[i] = i;
    using R = Recorder<kd::IndicesIt, kd::SamplesIt<float>, Bound<float>>;
    std::vector<typename R::Call> calls;
    R r; r.calls = &calls; r.salt = sx_concretize(sx::irange("salt", 0, D - 1));
    kd::Options<float> o;
    o.bucket_size(1).axis_selection_policy(r);
    kd::Tree<float> tree(ix.begin(), ix.end(), s.begin(), s.end(), D, o);
    int ok = 1;
    obeyed(tree.root(), 0, calls, ok);
    sx_assert(ok, "axes: each node is cut along the feature that the policy selected for it");
    sx::emit(tree.root()->cut_axis_feature_index_);
    sx_reach("axes");
}

// the tree with a policy of the library: the cut of every node is one the policy allows
template <std::size_t N, std::size_t D, typename Table>
static void in_tree(const Table& table, std::size_t fixed) {
    const int axis = sx_concretize(sx::irange("axis", 0, 1));
    const auto mask = a_mask<D>();
    std::vector<float> s(N * D);
    for (std::size_t i = 0; i < s.size(); ++i) s[i] = (i / D < fixed) ? kd::cloud(i / D, i % D) : sx::pick("value", table);
    std::vector<std::size_t> ix(N);
    for (std::size_t i = 0; i < N; ++i) ix[i] = i;
    kd::Tree<float> tree(ix.begin(), ix.end(), s.begin(), s.end(), D, kd::options<float>(axis, 1, kd::DEFAULT_DEPTH, mask));
    struct { const std::vector<std::size_t>& mask; int axis; int ok = 1;
        void go(const std::decay_t<decltype(tree.root())>& n, std::size_t depth) {
            if (n->is_leaf()) return;
            const std::size_t f = n->cut_axis_feature_index_;
            if (axis == kd::CYCLE) ok &= (f == (mask.empty() ? depth % D : mask[depth % mask.size()]));
            else {
                ok &= allowed(mask, D, f);
                for (std::size_t g = 0; g < D; ++g)
                    if (allowed(mask, D, g)) {
                        const auto &a = n->bound_.segment_at(g), &b = n->bound_.segment_at(f);
                        ok &= (a.upper_bound() - a.lower_bound() <= b.upper_bound() - b.lower_bound());
                    }
            }
            go(n->left_, depth + 1); go(n->right_, depth + 1);
        }
    } w{mask, axis};
    w.go(tree.root(), 0);
    sx_assert(w.ok, "axes: every node is cut along the feature of its policy");
    sx::emit(tree.root()->cut_axis_feature_index_);
    sx_reach("axes");
}

HARNESS(boxes_f32_d2) { cycle_and_spread<float, 2>(kV); }
HARNESS(boxes_f32_d3) { cycle_and_spread<float, 3>(kS); }
HARNESS(boxes_i32_d2) { cycle_and_spread<int, 2>(kI); }
HARNESS(variance_n1d2) { variance<float, 1, 2>(kV, 0.5); }
HARNESS(variance_n1d3) { variance<float, 1, 3>(kS, 1); }
HARNESS(variance_n2d2) { variance<float, 2, 2>(kV, 0.1); }
HARNESS(variance_n2d3) { variance<float, 2, 3>(kS, 1); }
HARNESS(variance_i32_n2d2) { variance<int, 2, 2>(kI, 0.5); }
HARNESS(variance_n3d2) { static const float k[] = {-1.f, 2.f}; variance<float, 3, 2>(k, 0.1); }
HARNESS(variance_n4d2) { static const float k[] = {0.f, 1.f}; variance<float, 4, 2>(k, 1); }
HARNESS(variance_n4d2_draw) { static const float k[] = {0.f, 1.f}; variance<float, 4, 2>(k, 0.5); }
HARNESS(custom_n4d2) { custom<4, 2>(kS, 0); }
HARNESS(custom_n9d2) { custom<9, 2>(kS, 7); }
HARNESS(tree_n4d2) { in_tree<4, 2>(kS, 0); }
HARNESS(tree_n10d2) { in_tree<10, 2>(kS, 8); }
HARNESS(tree_n9d3) { in_tree<9, 3>(kS, 8); }
static const unsigned kU[] = {0u, 3u, 4u, 11u};
static const uint64_t kU64[] = {0u, 3u, 4u, 11u};
HARNESS(boxes_u32_d2) { cycle_and_spread<unsigned, 2>(kU); }
HARNESS(boxes_u64_d2) { cycle_and_spread<uint64_t, 2>(kU64); }
HARNESS(variance_u32_n2d2) { variance<unsigned, 2, 2>(kU, 0.5); }
