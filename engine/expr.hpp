// Expression layer of symx: hash-consed bit-vector / boolean DAG with
//  * finite-domain value sets (VSET): {constant_i if guard_i}; every operation on them is computed
//    natively (bit-exact IEEE-754 / two's complement) per constant, guards are propositional formulas;
//  * full-width bit-vector and IEEE-754 terms (translated to the z3 BV / FPA theories).
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3++.h>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Op : u8 {
    O_CONST, O_VAR, O_VSET, O_MASK, O_NOT, O_AND, O_OR, O_ITE,
    O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
    O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_BAND, O_BOR, O_BXOR,
    O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
    O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG, O_FABS, O_FSQRT, O_FLT, O_FLE, O_FEQ, O_FUNO,
    O_FTOSI, O_FTOUI, O_SITOF, O_UITOF, O_FEXT, O_FTRUNC, O_FMIN, O_FMAX, O_FFLOOR, O_FCEIL, O_FTRUNCI, O_FROUND,
    O_FRINT, O_FUN1 /* natively mapped libm function, aux = function id */, O_FUN2, O_FCOPYSIGN
};

struct Expr {
    u32 id;
    Op op;
    u8 w;     // result width in bits (1..64)
    u8 fw;    // operand float width (for FP predicates/conversions)
    u32 aux;  // EXTRACT low bit, VAR index, MASK variable, FUN id
    u64 c;    // CONST value / MASK bits
    std::vector<const Expr*> k;
    std::vector<u64> vals;  // VSET constants (k = guards)
    u64 hash;
};
typedef const Expr* E;

struct NeedConcretize { E e; };
struct Unsupported { std::string what; };

struct VarInfo {
    std::string name;
    int kind;    // 0 = finite domain (dom values), 1 = full bit-vector (w bits), 2 = finite float (w bits, not nan/inf)
    u32 dom;
    u8 w;
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sext64(u64 v, unsigned w) {
    if (w >= 64) return (i64)v;
    u64 m = 1ull << (w - 1);
    v &= maskw(w);
    return (i64)((v ^ m) - m);
}
static inline float bf(u64 v) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
static inline double bd(u64 v) { double f; memcpy(&f, &v, 8); return f; }
static inline u64 fb(float f) { u32 x; memcpy(&x, &f, 4); return x; }
static inline u64 db(double f) { u64 x; memcpy(&x, &f, 8); return x; }

extern double (*g_fun1[])(double);
extern float (*g_fun1f[])(float);

// ---- concrete semantics ------------------------------------------------------------------
static u64 eval_op(Op op, unsigned w, unsigned fw, u32 aux, const u64* a, const u8* aw, int n) {
    switch (op) {
        case O_EQ: return a[0] == a[1];
        case O_ULT: return a[0] < a[1];
        case O_ULE: return a[0] <= a[1];
        case O_SLT: return sext64(a[0], aw[0]) < sext64(a[1], aw[1]);
        case O_SLE: return sext64(a[0], aw[0]) <= sext64(a[1], aw[1]);
        case O_ADD: return (a[0] + a[1]) & maskw(w);
        case O_SUB: return (a[0] - a[1]) & maskw(w);
        case O_MUL: return (a[0] * a[1]) & maskw(w);
        case O_UDIV: return a[1] ? a[0] / a[1] : maskw(w);
        case O_SDIV: {
            i64 x = sext64(a[0], w), y = sext64(a[1], w);
            if (y == 0) return x < 0 ? 1 : maskw(w);
            if (y == -1) return (0 - (u64)x) & maskw(w);
            return (u64)(x / y) & maskw(w);
        }
        case O_UREM: return a[1] ? a[0] % a[1] : a[0];
        case O_SREM: {
            i64 x = sext64(a[0], w), y = sext64(a[1], w);
            if (y == 0) return a[0];
            if (y == -1) return 0;
            return (u64)(x % y) & maskw(w);
        }
        case O_SHL: return a[1] >= w ? 0 : (a[0] << a[1]) & maskw(w);
        case O_LSHR: return a[1] >= w ? 0 : a[0] >> a[1];
        case O_ASHR: { i64 x = sext64(a[0], w); return (u64)(x >> (a[1] >= w ? w - 1 : a[1])) & maskw(w); }
        case O_BAND: return a[0] & a[1];
        case O_BOR: return a[0] | a[1];
        case O_BXOR: return a[0] ^ a[1];
        case O_CONCAT: { u64 r = 0; unsigned sh = 0; for (int i = 0; i < n; i++) { r |= a[i] << sh; sh += aw[i]; } return r; }  // k[0] = least significant
        case O_EXTRACT: return (a[0] >> aux) & maskw(w);
        case O_ZEXT: return a[0];
        case O_SEXT: return (u64)sext64(a[0], aw[0]) & maskw(w);
        case O_NOT: return !a[0];
        case O_ITE: return a[0] ? a[1] : a[2];
#define FBIN(OPN, EXPR)                                                                     \
    case OPN:                                                                               \
        if (fw == 32) { volatile float x = bf(a[0]), y = bf(a[1]); volatile float r = EXPR; return fb(r); } \
        else { volatile double x = bd(a[0]), y = bd(a[1]); volatile double r = EXPR; return db(r); }
        FBIN(O_FADD, x + y) FBIN(O_FSUB, x - y) FBIN(O_FMUL, x * y) FBIN(O_FDIV, x / y)
        case O_FREM: return fw == 32 ? fb(fmodf(bf(a[0]), bf(a[1]))) : db(fmod(bd(a[0]), bd(a[1])));
        case O_FMIN: return fw == 32 ? fb(fminf(bf(a[0]), bf(a[1]))) : db(fmin(bd(a[0]), bd(a[1])));
        case O_FMAX: return fw == 32 ? fb(fmaxf(bf(a[0]), bf(a[1]))) : db(fmax(bd(a[0]), bd(a[1])));
        case O_FCOPYSIGN: { u64 s = 1ull << (fw - 1); return (a[0] & ~s & maskw(fw)) | (a[1] & s); }
        case O_FNEG: return a[0] ^ (1ull << (fw - 1));
        case O_FABS: return a[0] & (maskw(fw) >> 1);
        case O_FSQRT: return fw == 32 ? fb(sqrtf(bf(a[0]))) : db(sqrt(bd(a[0])));
        case O_FFLOOR: return fw == 32 ? fb(floorf(bf(a[0]))) : db(floor(bd(a[0])));
        case O_FCEIL: return fw == 32 ? fb(ceilf(bf(a[0]))) : db(ceil(bd(a[0])));
        case O_FTRUNCI: return fw == 32 ? fb(truncf(bf(a[0]))) : db(trunc(bd(a[0])));
        case O_FROUND: return fw == 32 ? fb(roundf(bf(a[0]))) : db(round(bd(a[0])));
        case O_FRINT: return fw == 32 ? fb(rintf(bf(a[0]))) : db(rint(bd(a[0])));
        case O_FLT: return fw == 32 ? bf(a[0]) < bf(a[1]) : bd(a[0]) < bd(a[1]);
        case O_FLE: return fw == 32 ? bf(a[0]) <= bf(a[1]) : bd(a[0]) <= bd(a[1]);
        case O_FEQ: return fw == 32 ? bf(a[0]) == bf(a[1]) : bd(a[0]) == bd(a[1]);
        case O_FUNO: return fw == 32 ? (std::isnan(bf(a[0])) || std::isnan(bf(a[1]))) : (std::isnan(bd(a[0])) || std::isnan(bd(a[1])));
        case O_FTOSI: { double x = fw == 32 ? bf(a[0]) : bd(a[0]); 
            if (std::isnan(x)) return (1ull << (w - 1));
            double lim = ldexp(1.0, w - 1);
            if (!(x < lim) || !(x > -lim - 1)) return (1ull << (w - 1));
            return (u64)(i64)x & maskw(w); }
        case O_FTOUI: { double x = fw == 32 ? bf(a[0]) : bd(a[0]);
            if (std::isnan(x) || x <= -1.0) return 1ull << (w - 1);
            if (!(x < ldexp(1.0, w))) return w == 64 ? 0 : (1ull << (w - 1));
            return (u64)x & maskw(w); }
        case O_SITOF: { i64 x = sext64(a[0], aw[0]); return w == 32 ? fb((float)x) : db((double)x); }
        case O_UITOF: return w == 32 ? fb((float)a[0]) : db((double)a[0]);
        case O_FEXT: return db((double)bf(a[0]));
        case O_FTRUNC: return fb((float)bd(a[0]));
        case O_FUN1: return fw == 32 ? fb(g_fun1f[aux](bf(a[0]))) : db(g_fun1[aux](bd(a[0])));
        case O_FUN2: return fw == 32 ? fb(powf(bf(a[0]), bf(a[1]))) : db(pow(bd(a[0]), bd(a[1])));
        default: fprintf(stderr, "eval_op %d\n", op); abort();
    }
}

struct Model {
    u64 seed;
    std::unordered_map<u32, u64> asg;       // explicit assignments (by variable)
    std::unordered_map<u32, u64> memo;      // node id -> value
};

static inline u64 mix64(u64 x) {
    x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}

struct ExprCtx {
    std::vector<Expr*> nodes;
    std::unordered_multimap<u64, Expr*> table;
    std::vector<VarInfo> vars;
    size_t vset_pair_cap = 40000, vset_cap = 1200;
    E tt, ff;
    std::unordered_map<E, E>* known = nullptr;  // facts of the current path (value sets already resolved)
    E lookup(E a) { if (!known) return nullptr; auto it = known->find(a); return it == known->end() ? nullptr : it->second; }

    ExprCtx() { nodes.reserve(1 << 16); table.reserve(1 << 16); ff = cst(1, 0); tt = cst(1, 1); }

    E intern(Expr&& x) {
        u64 h = mix64(x.op * 131 + x.w * 7 + x.fw);
        h = mix64(h ^ x.aux); h = mix64(h ^ x.c);
        for (auto e : x.k) h = mix64(h ^ e->id);
        for (auto v : x.vals) h = mix64(h ^ v);
        x.hash = h;
        auto r = table.equal_range(h);
        for (auto it = r.first; it != r.second; ++it) {
            Expr* y = it->second;
            if (y->op == x.op && y->w == x.w && y->fw == x.fw && y->aux == x.aux && y->c == x.c && y->k == x.k && y->vals == x.vals) return y;
        }
        Expr* n = new Expr(std::move(x));
        n->id = (u32)nodes.size();
        nodes.push_back(n);
        table.emplace(h, n);
        return n;
    }
    E raw(Op op, unsigned w, unsigned fw, u32 aux, u64 c, std::vector<E> k) {
        Expr x; x.op = op; x.w = (u8)w; x.fw = (u8)fw; x.aux = aux; x.c = c; x.k = std::move(k);
        return intern(std::move(x));
    }
    E cst(unsigned w, u64 v) { return raw(O_CONST, w, 0, 0, v & maskw(w), {}); }
    E boolc(bool b) { return b ? tt : ff; }

    E mask(u32 var, u64 m) {
        u64 full = maskw(vars[var].dom);
        m &= full;
        if (!m) return ff;
        if (m == full) return tt;
        return raw(O_MASK, 1, 0, var, m, {});
    }
    E bnot(E a) {
        if (a->op == O_CONST) return boolc(!a->c);
        if (a->op == O_NOT) return a->k[0];
        if (a->op == O_MASK) return mask(a->aux, ~a->c);
        return raw(O_NOT, 1, 0, 0, 0, {a});
    }
    E nary(bool isand, const std::vector<E>& in) {
        std::vector<E> out;
        std::vector<std::pair<u32, u64>> masks;
        Op me = isand ? O_AND : O_OR;
        std::vector<E> st(in.rbegin(), in.rend());
        while (!st.empty()) {
            E a = st.back(); st.pop_back();
            if (a->op == O_CONST) { if ((a->c != 0) != isand) return boolc(!isand); continue; }
            if (a->op == me) { for (auto x : a->k) st.push_back(x); continue; }
            if (a->op == O_MASK) {
                bool f = false;
                for (auto& p : masks) if (p.first == a->aux) { p.second = isand ? (p.second & a->c) : (p.second | a->c); f = true; break; }
                if (!f) masks.push_back({a->aux, a->c});
                continue;
            }
            out.push_back(a);
        }
        for (auto& p : masks) {
            E m = mask(p.first, p.second);
            if (m->op == O_CONST) { if ((m->c != 0) != isand) return boolc(!isand); continue; }
            out.push_back(m);
        }
        std::sort(out.begin(), out.end(), [](E a, E b) { return a->id < b->id; });
        out.erase(std::unique(out.begin(), out.end()), out.end());
        if (out.empty()) return boolc(isand);
        if (out.size() == 1) return out[0];
        for (auto a : out) if (a->op == O_NOT && std::binary_search(out.begin(), out.end(), a->k[0], [](E x, E y) { return x->id < y->id; })) return boolc(!isand);
        // absorption with masks: and(x in A, or(x in B, ...)) with A subset of B
        for (size_t i = 0; i < out.size(); i++) {
            E o = out[i];
            if (o->op != (isand ? O_OR : O_AND)) continue;
            std::vector<E> nk; bool ch = false, drop = false;
            for (auto x : o->k) {
                bool keep = true;
                if (x->op == O_MASK) {
                    for (auto& p : masks) if (p.first == x->aux) {
                        u64 full = maskw(vars[p.first].dom);
                        if (isand) { if ((p.second & ~x->c & full) == 0) drop = true; else if ((p.second & x->c) == 0) keep = false; }
                        else { if ((x->c & ~p.second & full) == 0) drop = true; else if (((~p.second & full) & ~x->c & full) == 0) keep = false; }
                    }
                } else if (std::binary_search(out.begin(), out.end(), x, [](E p, E q) { return p->id < q->id; })) drop = true;
                if (keep) nk.push_back(x); else ch = true;
            }
            if (drop) { std::vector<E> o2; for (size_t j = 0; j < out.size(); j++) if (j != i) o2.push_back(out[j]); return nary(isand, o2); }
            if (ch) { std::vector<E> o2; for (size_t j = 0; j < out.size(); j++) if (j != i) o2.push_back(out[j]); o2.push_back(nary(!isand, nk)); return nary(isand, o2); }
        }
        return raw(me, 1, 0, 0, 0, out);
    }
    E band(E a, E b) { if (a == b) return a; return nary(true, {a, b}); }
    E bor(E a, E b) { if (a == b) return a; return nary(false, {a, b}); }
    E bxor(E a, E b) {
        if (a == b) return ff;
        if (a->op == O_CONST) return a->c ? bnot(b) : b;
        if (b->op == O_CONST) return b->c ? bnot(a) : a;
        return bor(band(a, bnot(b)), band(bnot(a), b));
    }

    E mkvset(unsigned w, std::vector<std::pair<u64, E>>& in) {
        std::sort(in.begin(), in.end(), [](auto& a, auto& b) { return a.first < b.first || (a.first == b.first && a.second->id < b.second->id); });
        Expr x; x.op = O_VSET; x.w = (u8)w; x.fw = 0; x.aux = 0; x.c = 0;
        for (size_t i = 0; i < in.size();) {
            size_t j = i;
            std::vector<E> g;
            while (j < in.size() && in[j].first == in[i].first) { if (in[j].second != ff) g.push_back(in[j].second); j++; }
            if (!g.empty()) {
                E o = nary(false, g);
                if (o == tt) return cst(w, in[i].first);
                if (o != ff) { x.vals.push_back(in[i].first); x.k.push_back(o); }
            }
            i = j;
        }
        if (x.vals.empty()) return cst(w, 0);  // unreachable combination
        if (x.vals.size() == 1) return cst(w, x.vals[0]);
        if (x.vals.size() > vset_cap) throw Unsupported{"value set too large"};
        if (w == 1) { for (size_t i = 0; i < x.vals.size(); i++) if (x.vals[i] == 1) return x.k[i]; }
        return intern(std::move(x));
    }
    // boolean as w-bit {0,1} value
    E bool_to_bv(E b, unsigned w) {
        if (b->op == O_CONST) return cst(w, b->c);
        if (w == 1) return b;
        std::vector<std::pair<u64, E>> v{{0, bnot(b)}, {1, b}};
        return mkvset(w, v);
    }
    bool isV(E a) const { return a->op == O_VSET || a->op == O_CONST; }

    E map1(Op op, unsigned w, unsigned fw, u32 aux, E a) {
        u8 aw[1] = {a->w};
        if (a->op == O_CONST) return cst(w, eval_op(op, w, fw, aux, &a->c, aw, 1));
        std::vector<std::pair<u64, E>> v;
        for (size_t i = 0; i < a->vals.size(); i++) v.push_back({eval_op(op, w, fw, aux, &a->vals[i], aw, 1), a->k[i]});
        return mkvset(w, v);
    }
    E map2(Op op, unsigned w, unsigned fw, u32 aux, E a, E b) {
        u8 aw[2] = {a->w, b->w};
        if (a->op == O_CONST && b->op == O_CONST) { u64 x[2] = {a->c, b->c}; return cst(w, eval_op(op, w, fw, aux, x, aw, 2)); }
        if (a == b) {
            std::vector<std::pair<u64, E>> v;
            for (size_t i = 0; i < a->vals.size(); i++) { u64 x[2] = {a->vals[i], a->vals[i]}; v.push_back({eval_op(op, w, fw, aux, x, aw, 2), a->k[i]}); }
            return mkvset(w, v);
        }
        size_t na = a->op == O_CONST ? 1 : a->vals.size(), nb = b->op == O_CONST ? 1 : b->vals.size();
        if (na * nb > vset_pair_cap) {
            E ra = lookup(a), rb = lookup(b);
            if (ra || rb) return map2(op, w, fw, aux, ra ? ra : a, rb ? rb : b);
            throw NeedConcretize{na >= nb ? a : b};
        }
        // result value -> for each a-value the list of b-guards
        std::vector<std::pair<u64, E>> v;
        std::vector<std::pair<u64, size_t>> row(nb);
        std::vector<u64> distinct;
        for (size_t i = 0; i < na; i++) {
            for (size_t j = 0; j < nb; j++) {
                u64 x[2] = {a->op == O_CONST ? a->c : a->vals[i], b->op == O_CONST ? b->c : b->vals[j]};
                row[j] = {eval_op(op, w, fw, aux, x, aw, 2), j};
            }
            std::sort(row.begin(), row.end());
            E ga = a->op == O_CONST ? tt : a->k[i];
            for (size_t p = 0; p < nb;) {
                size_t q = p;
                std::vector<E> g;
                while (q < nb && row[q].first == row[p].first) { g.push_back(b->op == O_CONST ? tt : b->k[row[q].second]); q++; }
                E gb;
                if (q - p == nb) gb = tt;
                else if ((q - p) * 2 > nb) {
                    std::vector<E> ng;
                    for (size_t r = 0; r < nb; r++) if (r < p || r >= q) ng.push_back(b->k[row[r].second]);
                    gb = bnot(nary(false, ng));
                } else gb = nary(false, g);
                E gg = band(ga, gb);
                if (gg != ff) { v.push_back({row[p].first, gg}); }
                p = q;
            }
        }
        std::vector<u64> ds; for (auto& p : v) ds.push_back(p.first);
        std::sort(ds.begin(), ds.end()); ds.erase(std::unique(ds.begin(), ds.end()), ds.end());
        if (ds.size() > vset_cap) {
            E ra = lookup(a), rb = lookup(b);
            if (ra || rb) return map2(op, w, fw, aux, ra ? ra : a, rb ? rb : b);
            throw NeedConcretize{na >= nb ? a : b};
        }
        return mkvset(w, v);
    }

    E ite(E c, E a, E b) {
        if (c->op == O_CONST) return c->c ? a : b;
        if (a == b) return a;
        if (a->w == 1) return bor(band(c, a), band(bnot(c), b));
        if (isV(a) && isV(b)) {
            std::vector<std::pair<u64, E>> v;
            E nc = bnot(c);
            auto add = [&](E x, E g) { if (x->op == O_CONST) v.push_back({x->c, g}); else for (size_t i = 0; i < x->vals.size(); i++) v.push_back({x->vals[i], band(g, x->k[i])}); };
            add(a, c); add(b, nc);
            return mkvset(a->w, v);
        }
        return raw(O_ITE, a->w, 0, 0, 0, {c, a, b});
    }
    E un(Op op, unsigned w, unsigned fw, u32 aux, E a) {
        if (op == O_EXTRACT) {
            if (aux == 0 && w == a->w) return a;
            if (a->op == O_EXTRACT) return un(O_EXTRACT, w, 0, aux + a->aux, a->k[0]);
            if (a->op == O_CONCAT) {
                unsigned lo = aux, hi = aux + w, pos = 0;
                std::vector<E> parts;
                for (auto p : a->k) {
                    unsigned pl = pos, ph = pos + p->w; pos = ph;
                    unsigned l = std::max(lo, pl), h = std::min(hi, ph);
                    if (l < h) parts.push_back(un(O_EXTRACT, h - l, 0, l - pl, p));
                }
                return concat(parts);
            }
            if (a->op == O_ZEXT) {
                E z = a->k[0];
                if (aux + w <= z->w) return un(O_EXTRACT, w, 0, aux, z);
                if (aux >= z->w) return cst(w, 0);
            }
        }
        if (op == O_ZEXT || op == O_SEXT) { if (w == a->w) return a; }
        if (op == O_ZEXT && a->w == 1 && a->op != O_CONST) return bool_to_bv(a, w);
        if (op == O_SEXT && a->w == 1 && a->op != O_CONST) { std::vector<std::pair<u64, E>> v{{0, bnot(a)}, {maskw(w), a}}; return mkvset(w, v); }
        if ((op == O_UITOF || op == O_SITOF) && a->w == 1 && a->op != O_CONST) {
            u64 one = op == O_UITOF ? (w == 32 ? fb(1.f) : db(1.0)) : (w == 32 ? fb(-1.f) : db(-1.0));
            std::vector<std::pair<u64, E>> v{{0, bnot(a)}, {one, a}}; return mkvset(w, v);
        }
        if (isV(a)) return map1(op, w, fw, aux, a);
        if (op == O_FUN1 || op == O_FROUND) { if (E r = lookup(a)) return un(op, w, fw, aux, r); throw NeedConcretize{a}; }
        return raw(op, w, fw, aux, 0, {a});
    }
    E concat(std::vector<E> parts) {  // parts[0] least significant
        std::vector<E> p2;
        for (auto p : parts) {
            if (p->op == O_CONCAT) { for (auto q : p->k) p2.push_back(q); continue; }
            if (p->w == 1 && p->op != O_CONST) { /* keep */ }
            if (!p2.empty()) {
                E l = p2.back();
                if (l->op == O_CONST && p->op == O_CONST) { p2.back() = cst(l->w + p->w, l->c | (p->c << l->w)); continue; }
                if (l->op == O_EXTRACT && p->op == O_EXTRACT && l->k[0] == p->k[0] && l->aux + l->w == p->aux) { p2.back() = un(O_EXTRACT, l->w + p->w, 0, l->aux, l->k[0]); continue; }
                if (l->op == O_VSET && p->op == O_VSET && l->k.size() == p->k.size() && l->k == p->k) {  // bytes of one split value set (same guards)
                    std::vector<std::pair<u64, E>> v;
                    for (size_t i = 0; i < l->k.size(); i++) v.push_back({l->vals[i] | (p->vals[i] << l->w), l->k[i]});
                    p2.back() = mkvset(l->w + p->w, v); continue;
                }
            }
            p2.push_back(p);
        }
        if (p2.size() == 1) return p2[0];
        int nv = 0; unsigned tw = 0; for (auto p : p2) { if (p->op != O_CONST) nv++; tw += p->w; }
        if (tw > 64) throw Unsupported{"concat wider than 64 bits"};
        if (nv == 1) {  // one symbolic part, constants elsewhere
            bool ok = true; for (auto p : p2) if (!isV(p)) ok = false;
            if (ok) {
                std::vector<std::pair<u64, E>> v;
                u64 base = 0; unsigned sh = 0, vsh = 0; E vp = nullptr;
                for (auto p : p2) { if (p->op == O_CONST) base |= p->c << sh; else { vp = p; vsh = sh; } sh += p->w; }
                for (size_t i = 0; i < vp->vals.size(); i++) v.push_back({base | (vp->vals[i] << vsh), vp->k[i]});
                return mkvset(tw, v);
            }
        }
        return raw(O_CONCAT, tw, 0, 0, 0, p2);
    }
    // a concat of independent value sets is flattened to one value set before arithmetic
    E flat(E a) {
        if (a->op != O_CONCAT) return a;
        for (auto p : a->k) if (!isV(p)) return a;
        E r = nullptr; unsigned sh = 0;
        for (auto p : a->k) {
            E z = un(O_ZEXT, a->w, 0, 0, p);
            E s = sh ? map2(O_SHL, a->w, 0, 0, z, cst(a->w, sh)) : z;
            r = r ? map2(O_BOR, a->w, 0, 0, r, s) : s;
            sh += p->w;
        }
        return r;
    }
    E bin(Op op, unsigned w, unsigned fw, E a, E b) {
        if (a->w == 1 && b->w == 1) {
            switch (op) {
                case O_BAND: case O_MUL: return band(a, b);
                case O_BOR: return bor(a, b);
                case O_BXOR: case O_ADD: case O_SUB: return bxor(a, b);
                case O_EQ: return bnot(bxor(a, b));
                case O_ULT: case O_SLE: return op == O_ULT ? band(bnot(a), b) : bor(a, bnot(b));
                case O_ULE: case O_SLT: return op == O_ULE ? bor(bnot(a), b) : band(a, bnot(b));
                default: break;
            }
        }
        // assemble / take apart wide words made of independent pieces
        if (op == O_SHL && b->op == O_CONST && b->c < w && a->op != O_CONST && (a->op == O_ZEXT || a->op == O_CONCAT || a->op == O_VSET) && b->c >= 8 && (b->c % 8) == 0 && a->op != O_VSET) {
            return concat({cst((unsigned)b->c, 0), un(O_EXTRACT, w - (unsigned)b->c, 0, 0, a)});
        }
        if (op == O_LSHR && b->op == O_CONST && b->c < w && b->c > 0 && a->op == O_CONCAT) {
            return concat({un(O_EXTRACT, w - (unsigned)b->c, 0, (u32)b->c, a), cst((unsigned)b->c, 0)});
        }
        if (op == O_BOR && (a->op == O_CONCAT || b->op == O_CONCAT)) {
            E r = disjoint_or(a, b, w); if (r) return r;
        }
        if (op == O_BAND && a->op == O_CONCAT && b->op == O_CONST) {
            u64 m = b->c; unsigned t = 0; while (t < w && ((m >> t) & 1)) t++;
            if (m == maskw(t) && t > 0 && t < w) return concat({un(O_EXTRACT, t, 0, 0, a), cst(w - t, 0)});
        }
        if (op == O_EQ && a->op == O_CONCAT && b->op == O_CONST) {
            std::vector<E> g; unsigned sh = 0;
            for (auto p : a->k) { g.push_back(bin(O_EQ, 1, 0, p, cst(p->w, b->c >> sh))); sh += p->w; }
            return nary(true, g);
        }
        a = flat(a); b = flat(b);
        if (isV(a) && isV(b)) {
            if (a->w == 1 || b->w == 1) { if (!(a->op == O_CONST && b->op == O_CONST)) return raw(op, w, fw, 0, 0, {a, b}); }
            return map2(op, w, fw, 0, a, b);
        }
        if (op == O_FUN2 || op == O_FREM) {
            E ra = lookup(a), rb = lookup(b);
            if (ra || rb) return bin(op, w, fw, ra ? ra : a, rb ? rb : b);
            throw NeedConcretize{isV(a) ? b : a};
        }
        // light algebra on full-width terms
        switch (op) {
            case O_ADD: if (a->op == O_CONST && !a->c) return b; if (b->op == O_CONST && !b->c) return a; break;
            case O_SUB: if (b->op == O_CONST && !b->c) return a; if (a == b) return cst(w, 0); break;
            case O_MUL: if (a->op == O_CONST && a->c == 1) return b; if (b->op == O_CONST && b->c == 1) return a;
                        if ((a->op == O_CONST && !a->c) || (b->op == O_CONST && !b->c)) return cst(w, 0); break;
            case O_BAND: if (a == b) return a; if ((a->op == O_CONST && !a->c) || (b->op == O_CONST && !b->c)) return cst(w, 0);
                         if (a->op == O_CONST && a->c == maskw(w)) return b; if (b->op == O_CONST && b->c == maskw(w)) return a; break;
            case O_BOR: if (a == b) return a; if (a->op == O_CONST && !a->c) return b; if (b->op == O_CONST && !b->c) return a; break;
            case O_BXOR: if (a == b) return cst(w, 0); if (a->op == O_CONST && !a->c) return b; if (b->op == O_CONST && !b->c) return a; break;
            case O_EQ: case O_ULE: case O_SLE: if (a == b) return tt; break;
            case O_ULT: case O_SLT: if (a == b) return ff; break;
            case O_SHL: case O_LSHR: case O_ASHR: if (b->op == O_CONST && !b->c) return a; break;
            default: break;
        }
        // comparisons of an ite-of-constants etc. are left to the solver
        return raw(op, w, fw, 0, 0, {a, b});
    }
    E disjoint_or(E a, E b, unsigned w) {
        auto pieces = [&](E x) { std::vector<E> r; if (x->op == O_CONCAT) r = x->k; else if (x->op == O_ZEXT) { r = {x->k[0], cst(w - x->k[0]->w, 0)}; } else r = {x}; return r; };
        std::vector<E> pa = pieces(a), pb = pieces(b);
        std::vector<unsigned> cuts{0};
        unsigned s = 0; for (auto p : pa) { s += p->w; cuts.push_back(s); }
        s = 0; for (auto p : pb) { s += p->w; cuts.push_back(s); }
        std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
        std::vector<E> out;
        for (size_t i = 0; i + 1 < cuts.size(); i++) {
            E x = un(O_EXTRACT, cuts[i + 1] - cuts[i], 0, cuts[i], a), y = un(O_EXTRACT, cuts[i + 1] - cuts[i], 0, cuts[i], b);
            if (x->op == O_CONST && x->c == 0) out.push_back(y);
            else if (y->op == O_CONST && y->c == 0) out.push_back(x);
            else return nullptr;
        }
        return concat(out);
    }

    u64 var_default(const Model& m, u32 v) {
        const VarInfo& vi = vars[v];
        u64 h = mix64(m.seed ^ mix64(v + 77));
        if (vi.kind == 0) return h % vi.dom;
        if (vi.kind == 1) return (h & 3) ? ((h >> 8) & 0xff & maskw(vi.w)) : ((h >> 8) & maskw(vi.w));
        // moderately sized finite floats
        double d = (double)(int)((h >> 8) % 41 - 20) * ((h & 1) ? 1.0 : 0.37);
        return vi.w == 32 ? fb((float)d) : db(d);
    }
    u64 var_value(Model& m, u32 v) {
        auto it = m.asg.find(v);
        if (it != m.asg.end()) return it->second;
        return var_default(m, v);
    }
    u64 eval(E e, Model& m) {
        switch (e->op) {
            case O_CONST: return e->c;
            case O_VAR: return var_value(m, e->aux);
            case O_MASK: return (e->c >> var_value(m, e->aux)) & 1;
            case O_NOT: return !eval(e->k[0], m);
            default: break;
        }
        auto it = m.memo.find(e->id);
        if (it != m.memo.end()) return it->second;
        u64 r = 0;
        switch (e->op) {
            case O_AND: r = 1; for (auto x : e->k) if (!eval(x, m)) { r = 0; break; } break;
            case O_OR: r = 0; for (auto x : e->k) if (eval(x, m)) { r = 1; break; } break;
            case O_VSET: { bool f = false; for (size_t i = 0; i < e->k.size(); i++) if (eval(e->k[i], m)) { r = e->vals[i]; f = true; break; }
                           if (!f) r = 0; break; }
            case O_ITE: r = eval(e->k[0], m) ? eval(e->k[1], m) : eval(e->k[2], m); break;
            default: {
                u64 a[16]; u8 aw[16]; int n = (int)e->k.size();
                if (n > 16) abort();
                for (int i = 0; i < n; i++) { a[i] = eval(e->k[i], m); aw[i] = e->k[i]->w; }
                r = eval_op(e->op, e->w, e->fw, e->aux, a, aw, n);
            }
        }
        m.memo[e->id] = r;
        return r;
    }
};
