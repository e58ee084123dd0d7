// Every draw of the standard random facilities becomes a solver variable: an integer draw is any value of its
// documented range; a real draw is any of a table of representative canonical fractions (0, tiny, 1/8, ..., the
// largest value below 1).  Included after the standard headers and before the FFCL headers.
#pragma once
#include "sx.hpp"
namespace std {
struct sx_random_device { typedef unsigned result_type; unsigned operator()() { return 0; } static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return ~0u; } double entropy() const { return 0; } };
struct sx_mt19937 {
    typedef unsigned result_type;
    volatile unsigned state_ = 0;   // a draw changes the generator
    sx_mt19937() {}
    template <class S> explicit sx_mt19937(S&&) {}
    template <class S> void seed(S&&) {}
    void seed() {}
    void discard(unsigned long long) {}
    static constexpr unsigned min() { return 0; }
    static constexpr unsigned max() { return ~0u; }
    unsigned operator()() { state_ = state_ + 1; static const unsigned t[] = {0u, 1u, 0x40000000u, 0x80000000u, 0xc0000000u, 0xffffffffu}; return t[sx_choice("rng", 6)]; }
};
typedef sx_mt19937 sx_mt19937_64;
template <class G> inline void sx_drawn(G&) {}
inline void sx_drawn(sx_mt19937& g) { g.state_ = g.state_ + 1; }
typedef sx_mt19937 sx_default_random_engine;
inline const unsigned* sx_int_script = nullptr;   // a harness may dictate the integer draws
inline thread_local int sx_int_scripted = 0;
template <typename T = int>
struct sx_uniform_int_distribution {
    typedef T result_type;
    T a_, b_;
    explicit sx_uniform_int_distribution(T a = 0, T b = std::numeric_limits<T>::max()) : a_(a), b_(b) {}
    struct param_type { T a_, b_; param_type(T a = 0, T b = std::numeric_limits<T>::max()) : a_(a), b_(b) {} };
    explicit sx_uniform_int_distribution(const param_type& p) : a_(p.a_), b_(p.b_) {}
    template <class G> T operator()(G& g) { sx_drawn(g); return draw(a_, b_); }
    template <class G> T operator()(G& g, const param_type& p) { sx_drawn(g); return draw(p.a_, p.b_); }
    static T draw(T a, T b) {
        sx_assert(a <= b, "random integer range is not empty");
        uint64_t n = (uint64_t)b - (uint64_t)a;
        if (sx_int_script) return (T)(a + (T)(sx_int_script[sx_int_scripted++ & 15] % (n + 1)));
        n = sx_concretize(n);
        if (n >= 64) n = 63;  // bound: the first 64 values of the range
        return (T)(a + (T)sx_choice("rand_int", (uint32_t)n + 1));
    }
    T min() const { return a_; }
    T max() const { return b_; }
    T a() const { return a_; }
    T b() const { return b_; }
};
inline const double* sx_script = nullptr;   // a harness may dictate the next real draws
inline thread_local int sx_scripted = 0;
template <typename T>
inline T sx_canonical(const char* n) {
    if (sx_script) return (T)sx_script[sx_scripted++ & 1];
    static const double t[] = {0.0, 1e-9, 0.125, 0.25, 0.5, 0.625, 0.875, 0.99999988};
    return (T)t[sx_choice(n, 8)];
}
template <typename T = double>
struct sx_uniform_real_distribution {
    typedef T result_type;
    T a_, b_;
    explicit sx_uniform_real_distribution(T a = 0, T b = 1) : a_(a), b_(b) {}
    template <class G> T operator()(G& g) { sx_drawn(g); T u = sx_canonical<T>("rand_real"); return u * (b_ - a_) + a_; }
    T min() const { return a_; }
    T max() const { return b_; }
};
template <typename T = double>
struct sx_normal_distribution {
    typedef T result_type;
    T m_, s_;
    explicit sx_normal_distribution(T m = 0, T s = 1) : m_(m), s_(s) {}
    template <class G> T operator()(G& g) { sx_drawn(g); static const double t[] = {-3, -1, 0, 0.5, 2}; return m_ + s_ * (T)t[sx_choice("rand_normal", 5)]; }
};
template <typename T = int>
struct sx_binomial_distribution {
    typedef T result_type;
    T t_; double p_;
    explicit sx_binomial_distribution(T t = 1, double p = 0.5) : t_(t), p_(p) {}
    template <class G> T operator()(G& g) { sx_drawn(g); return (T)sx_choice("rand_binomial", (uint32_t)t_ + 1); }
};
template <typename T = int>
struct sx_discrete_distribution {
    typedef T result_type;
    std::vector<double> w_;
    template <class It> sx_discrete_distribution(It f, It l) : w_(f, l) {}
    template <class G> T operator()(G& g) { sx_drawn(g); 
        T r = (T)sx_choice("rand_discrete", (uint32_t)w_.size());
        double tot = 0; for (double x : w_) tot += x;
        sx_assume(w_[(std::size_t)r] > 0 || !(tot > 0));
        return r;
    }
};
}  // namespace std
#define random_device sx_random_device
#define mt19937 sx_mt19937
#define mt19937_64 sx_mt19937_64
#define default_random_engine sx_default_random_engine
#define uniform_int_distribution sx_uniform_int_distribution
#define uniform_real_distribution sx_uniform_real_distribution
#define normal_distribution sx_normal_distribution
#define binomial_distribution sx_binomial_distribution
#define discrete_distribution sx_discrete_distribution
