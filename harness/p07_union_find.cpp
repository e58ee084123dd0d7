#include "sx.hpp"
#include "sx_rt.hpp"
#include "ffcl/datastruct/UnionFind.hpp"
using UF = ffcl::datastruct::UnionFind<std::size_t>;

template <std::size_t N>
struct Model {
    std::array<std::size_t, N> group;
    Model() { for (std::size_t i = 0; i < N; ++i) group[i] = i; }
    void merge(std::size_t a, std::size_t b) {
        const std::size_t ga = group[a], gb = group[b];
        for (std::size_t i = 0; i < N; ++i) group[i] = group[i] == gb ? ga : group[i];
    }
};
template <std::size_t N>
static void compare(const UF& uf, const Model<N>& m, bool backwards) {
    std::array<std::size_t, N> r;
    for (std::size_t i = 0; i < N; ++i) { const std::size_t j = backwards ? N - 1 - i : i; r[j] = uf.find(j); }
    int in = 1, same = 1, fix = 1, member = 1;
    for (std::size_t i = 0; i < N; ++i) in &= r[i] < N;
    sx_assert(in, "find: the representative is an element");
    for (std::size_t i = 0; i < N; ++i) {
        for (std::size_t j = 0; j < N; ++j) same &= ((r[i] == r[j]) == (m.group[i] == m.group[j]));
        fix &= (uf.find(r[i]) == r[i]);
        member &= m.group[r[i]] == m.group[i];
    }
    sx_assert(same, "find: equal representatives exactly for the elements merged together");
    sx_assert(fix, "find: a representative represents itself");
    sx_assert(member, "find: the representative belongs to the component");
    int again = 1;
    for (std::size_t i = 0; i < N; ++i) again &= (uf.find(i) == r[i]);
    sx_assert(again, "find: asking again gives the same answer");
    for (auto x : r) sx::emit(x);
    sx_reach("partition");
}
template <std::size_t N, std::size_t M>
static void history(UF& uf, Model<N>& m) {
    for (std::size_t i = 0; i < M; ++i) {
        const std::size_t a = sx_choice("a", N), b = sx_choice("b", N);
        const std::size_t r = uf.merge(a, b);
        m.merge(a, b);
        sx_assert(r < N, "merge: returns an element");
        sx_assert((uf.find(a) == r) & (uf.find(b) == r), "merge: returns the representative of the merged component");
    }
}
template <std::size_t N, std::size_t M>
static void fresh() {
    UF uf(N);
    Model<N> m;
    history<N, M>(uf, m);
    compare<N>(uf, m, sx_concretize(sx_choice("order", 2)));
}
// started from labels that already form a forest
template <std::size_t N, std::size_t M>
static void labelled() {
    auto labels = std::make_unique<std::size_t[]>(N);
    Model<N> m;
    for (std::size_t i = 0; i < N; ++i) {
        const std::size_t p = sx_concretize(sx_choice("label", i + 1));  // any parent with a smaller or equal index: no cycles
        labels[i] = p;
        m.merge(p, i);
    }
    UF uf(N, std::move(labels));
    history<N, M>(uf, m);
    compare<N>(uf, m, false);
}
// larger forests: fixed merges that build components of rank up to 3, free ones at the end
template <std::size_t N, std::size_t M>
static void deep() {
    UF uf(N);
    Model<N> m;
    for (std::size_t w = 1; w < N; w *= 2)
        for (std::size_t i = 0; i + w < N; i += 2 * w) if (i + w + 3 < N || w < 4) { uf.merge(i + w, i); m.merge(i + w, i); }
    history<N, M>(uf, m);
    compare<N>(uf, m, true);
}
HARNESS(fresh_n4m3) { fresh<4, 3>(); }
HARNESS(fresh_n5m3) { fresh<5, 3>(); }
HARNESS(fresh_n4m4) { fresh<4, 4>(); }
HARNESS(fresh_n6m3) { fresh<6, 3>(); }
HARNESS(labelled_n4m2) { labelled<4, 2>(); }
HARNESS(labelled_n5m1) { labelled<5, 1>(); }
HARNESS(deep_n20m2) { deep<20, 2>(); }
HARNESS(deep_n20m1) { deep<20, 1>(); }
