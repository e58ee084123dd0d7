#include "kd_oracle.hpp"
#include "ffcl/datastruct/UnionFind.hpp"
namespace search = ffcl::search;
using It = std::vector<float>::iterator;

static const float kD[] = {0.f, 1.f, 2.5f, 4.f};

// after every update the buffer holds the k smallest of the accepted candidates
template <std::size_t M, typename Buffer>
static void history(Buffer& b, std::size_t k, const std::array<int, M>& accepted, const std::array<float, M>& d) {
    for (std::size_t i = 0; i < M; ++i) {
        b.update(i, d[i]);
        std::size_t n = 0;
        for (std::size_t j = 0; j <= i; ++j) n += accepted[j];
        const std::size_t want = (k != 0 && n > k) ? k : n;
        sx_assert(b.size() == want, "buffer: holds min(k, accepted) candidates");
        const auto ix = b.indices();
        const auto ds = b.distances();
        sx_assert((ix.size() == want) & (ds.size() == want), "buffer: as many indices as distances");
        std::array<int, M> in{};
        int valid = 1, match = 1;
        for (std::size_t j = 0; j < ix.size(); ++j) {
            valid &= ix[j] <= i;
            sx_assert(valid, "buffer: only candidates that were offered");
            valid &= accepted[ix[j]] & !in[ix[j]];
            in[ix[j]] = 1;
            match &= ds[j] == d[ix[j]];
        }
        sx_assert(valid, "buffer: distinct, accepted candidates");
        sx_assert(match, "buffer: each index keeps its own distance");
        float worst = -1, best = 100, out = 100;
        for (std::size_t j = 0; j <= i; ++j) {
            worst = (in[j] & (d[j] > worst)) ? d[j] : worst;
            best = (in[j] & (d[j] < best)) ? d[j] : best;
            out = ((!in[j]) & accepted[j] & (d[j] < out)) ? d[j] : out;
        }
        sx_assert(worst <= out, "buffer: keeps the smallest distances");
        sx_assert(b.empty() == (want == 0), "buffer: empty exactly when nothing was accepted");
        if (want) {
            sx_assert((b.closest_distance() == best) & (b.furthest_distance() == worst), "buffer: closest and furthest distances");
            const std::size_t c = b.closest_index(), f = b.furthest_index();
            sx_assert((c < M) & (f < M), "buffer: closest and furthest indices are candidates");
            sx_assert((in[c] & in[f]) == 1, "buffer: closest and furthest are in the buffer");
            sx_assert((d[c] == best) & (d[f] == worst), "buffer: closest and furthest indices");
        }
        if (k) sx_assert((b.max_capacity() == k) & (b.remaining_capacity() == k - want), "buffer: remaining capacity");
    }
    for (auto i : b.indices()) sx::emit(i);
    sx_reach("history");
}
template <std::size_t M>
static void unsorted(std::size_t kmax) {
    std::array<float, M> d; std::array<int, M> acc;
    for (auto& v : d) v = sx::pick("distance", kD);
    acc.fill(1);
    const std::size_t k = sx_concretize(sx_choice("k", kmax + 1));
    std::vector<float> q{0.f};
    search::buffer::Unsorted<It> b(q.begin(), q.end(), k);
    history<M>(b, k, acc, d);
}
template <std::size_t M>
static void memory(std::size_t kmax) {
    std::array<float, M> d; std::array<int, M> acc;
    for (auto& v : d) v = sx::pick("distance", kD);
    std::unordered_set<std::size_t> visited;
    for (std::size_t i = 0; i < M; ++i) { acc[i] = !(int)sx_concretize(sx_choice("visited", 2)); if (!acc[i]) visited.insert(i); }
    const std::size_t k = 1 + sx_concretize(sx_choice("k", kmax));
    std::vector<float> q{0.f};
    auto b = search::buffer::WithMemory(q.begin(), q.end(), std::as_const(visited), k);
    history<M>(b, k, acc, d);
}
template <std::size_t M>
static void union_find(std::size_t kmax) {
    std::array<float, M> d; std::array<int, M> acc;
    for (auto& v : d) v = sx::pick("distance", kD);
    ffcl::datastruct::UnionFind<std::size_t> uf(M);
    acc.fill(1);
    const std::size_t a = sx_concretize(sx_choice("query", M)), b1 = sx_concretize(sx_choice("merged", M));
    uf.merge(a, b1);
    acc[a] = acc[b1] = 0;
    const std::size_t k = 1 + sx_concretize(sx_choice("k", kmax));
    std::vector<float> q{0.f};
    auto b = search::buffer::WithUnionFind(q.begin(), q.end(), uf, a, k);
    history<M>(b, k, acc, d);
}
// brute-force search of a buffer over an index range is the same as a tree search
template <std::size_t N, std::size_t D>
static void partial(std::size_t kmax) {
    static const float t[] = {-1.f, 0.5f, 2.f};
    std::vector<float> s(N * D), q(D);
    for (auto& v : s) v = sx::pick("value", t);
    for (auto& v : q) v = sx::pick("query", t);
    std::vector<std::size_t> ix;
    std::array<int, N> el;
    for (std::size_t i = 0; i < N; ++i) { el[i] = i != 1; if (el[i]) ix.push_back(i); }
    const std::size_t k = 1 + sx_concretize(sx_choice("k", kmax));
    search::buffer::Unsorted<It> b(q.begin(), q.end(), k);
    b.partial_search(ix.begin(), ix.begin() + 1, s.begin(), s.end(), D);
    b.partial_search(ix.begin() + 1, ix.end(), s.begin(), s.end(), D);
    search_oracle<float, N, D>(s, q, k, el, b);
}
HARNESS(unsorted_m4) { unsorted<4>(4); }
HARNESS(unsorted_m5) { unsorted<5>(3); }
HARNESS(unsorted_m6) { unsorted<6>(3); }
HARNESS(memory_m4) { memory<4>(3); }
HARNESS(union_find_m4) { union_find<4>(2); }
HARNESS(partial_n4d1) { partial<4, 1>(3); }
HARNESS(partial_n3d2) { partial<3, 2>(2); }
// larger capacities: the first candidates fixed
template <std::size_t M, std::size_t FREE>
static void large(std::size_t k) {
    std::array<float, M> d; std::array<int, M> acc;
    acc.fill(1);
    for (std::size_t i = 0; i < M; ++i) d[i] = i + FREE < M ? (float)((i * 7 + 3) % 11) * 0.5f : sx::pick("distance", kD);
    std::vector<float> q{0.f};
    search::buffer::Unsorted<It> b(q.begin(), q.end(), k);
    history<M>(b, k, acc, d);
}
HARNESS(unsorted_m12_k6) { large<12, 4>(6); }
HARNESS(unsorted_m12_k9) { large<12, 4>(9); }
HARNESS(unsorted_m24_k17) { large<24, 4>(17); }
