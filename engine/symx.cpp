// symx: symbolic executor for LLVM IR of the real FFCL headers (compiled from /repo by the check).
// Path conditions and assertions are decided by z3; see DESIGN.md.
#include "expr.hpp"

#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/SourceMgr.h>

#include <atomic>
#include <chrono>
#include <deque>
#include <functional>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

using namespace llvm;

// ---- libm functions applied natively to every element of a value set ---------------------
double (*g_fun1[])(double) = {exp, log, log2, log10, sin, cos, tan, atan, cbrt, exp2, log1p, expm1, lgamma, tanh, acos, asin};
float (*g_fun1f[])(float) = {expf, logf, log2f, log10f, sinf, cosf, tanf, atanf, cbrtf, exp2f, log1pf, expm1f, lgammaf, tanhf, acosf, asinf};
static const char* g_fun1_names[] = {"exp", "log", "log2", "log10", "sin", "cos", "tan", "atan", "cbrt", "exp2", "log1p", "expm1", "lgamma", "tanh", "acos", "asin"};
static const int N_FUN1 = 16;

static ExprCtx X;

static double now_s() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---- options ---------------------------------------------------------------------------------
static double opt_budget = 60;       // wall seconds
static u64 opt_max_inst = 4000000;   // per path
static int opt_jobs = 8;
static size_t opt_prefix = 96;
static unsigned opt_rlimit = 6000000;
static int opt_models = 16;
static int opt_samples = 12;
static size_t opt_addr_fan = 1;
static bool opt_trace = false;

// =============================================================================================
// z3 layer
// =============================================================================================
struct Z {
    z3::context* c = nullptr;
    z3::solver* s = nullptr;
    bool fp = false;
    std::vector<Z3_ast> memo;       // by expr id
    std::vector<std::vector<Z3_ast>> vbits;  // finite variable -> bits
    std::vector<Z3_ast> vvar;                // full-width variable
    std::vector<E> stack;           // asserted path condition
    u64 n_sat = 0, n_unsat = 0, n_unknown = 0;
    double t = 0, ts = 0, tc = 0;
    bool has_fp_arith = false;

    void init() {
        c = new z3::context();
        mk();
    }
    void mk() {
        if (fp) { s = new z3::solver(*c); }
        else s = new z3::solver(*c, z3::solver::simple());
        z3::params p(*c);
        p.set("rlimit", opt_rlimit);
        s->set(p);
    }
    z3::expr ex(Z3_ast a) { return z3::expr(*c, a); }
    Z3_ast keep(const z3::expr& e) { Z3_ast a = e; Z3_inc_ref(*c, a); return a; }
    void ensure_var(u32 v) {
        if (vbits.size() <= v) { vbits.resize(v + 1); vvar.resize(v + 1, nullptr); }
        const VarInfo& vi = X.vars[v];
        if (vi.kind == 0) {
            if (vbits[v].empty()) {
                unsigned k = 1; while ((1u << k) < vi.dom) k++;
                for (unsigned i = 0; i < k; i++) vbits[v].push_back(keep(c->bool_const(("v" + std::to_string(v) + "_" + std::to_string(i)).c_str())));
            }
        } else if (!vvar[v]) vvar[v] = keep(c->bv_const(("v" + std::to_string(v)).c_str(), vi.w));
    }
    // codes >= dom denote the last value, so no domain constraint is needed
    z3::expr mask_tree(u32 v, u64 m, int bit, unsigned base) {
        const VarInfo& vi = X.vars[v];
        auto in = [&](unsigned code) { unsigned x = code < vi.dom ? code : vi.dom - 1; return (m >> x) & 1; };
        if (bit < 0) return c->bool_val((bool)in(base));
        bool all = true, none = true;
        for (unsigned i = 0; i < (2u << bit); i++) { if (in(base + i)) none = false; else all = false; }
        if (all) return c->bool_val(true);
        if (none) return c->bool_val(false);
        z3::expr lo = mask_tree(v, m, bit - 1, base), hi = mask_tree(v, m, bit - 1, base + (1u << bit));
        if (z3::eq(lo, hi)) return lo;
        z3::expr b = ex(vbits[v][bit]);
        if (lo.is_false()) return hi.is_true() ? b : (b && hi);
        if (hi.is_false()) return lo.is_true() ? !b : (!b && lo);
        if (lo.is_true()) return !b || hi;
        if (hi.is_true()) return b || lo;
        return (b && hi) || (!b && lo);
    }
    z3::expr bv(E e) {  // as bit-vector even for width 1
        z3::expr r = tr(e);
        if (e->w == 1) return z3::ite(r, c->bv_val(1, 1), c->bv_val(0, 1));
        return r;
    }
    z3::expr fpv(E e, unsigned w) {
        has_fp_arith = true;
        z3::sort so = w == 32 ? c->fpa_sort(8, 24) : c->fpa_sort(11, 53);
        return z3::expr(*c, Z3_mk_fpa_to_fp_bv(*c, bv(e), so));
    }
    z3::expr fromfp(const z3::expr& f) { return z3::expr(*c, Z3_mk_fpa_to_ieee_bv(*c, f)); }
    z3::expr rne() { return z3::expr(*c, Z3_mk_fpa_rne(*c)); }
    z3::expr rtz() { return z3::expr(*c, Z3_mk_fpa_rtz(*c)); }
    z3::expr isnan_(const z3::expr& a, unsigned w) {
        unsigned mb = w == 32 ? 23 : 52;
        return z3::ugt(z3::expr(a.extract(w - 2, 0)), c->bv_val((uint64_t)(maskw(w - 1 - mb) << mb), w - 1));
    }
    z3::expr flt(const z3::expr& a, const z3::expr& b, unsigned w, bool le) {
        z3::expr z1 = a.extract(w - 2, 0) == c->bv_val(0, w - 1), z2 = b.extract(w - 2, 0) == c->bv_val(0, w - 1);
        z3::expr sa = a.extract(w - 1, w - 1) == c->bv_val(1, 1), sb = b.extract(w - 1, w - 1) == c->bv_val(1, 1);
        z3::expr both0 = z1 && z2;
        z3::expr ltp = z3::ite(sa, z3::ite(sb, z3::ult(b, a), c->bool_val(true)), z3::ite(sb, c->bool_val(false), z3::ult(a, b)));
        z3::expr r = le ? (both0 || ltp || a == b) : (!both0 && ltp);
        return !isnan_(a, w) && !isnan_(b, w) && r;
    }
    z3::expr tr(E root) {
        // iterative post-order to avoid deep recursion
        std::vector<E> st{root};
        while (!st.empty()) {
            E e = st.back();
            if (memo.size() <= e->id) memo.resize(std::max<size_t>(X.nodes.size(), e->id + 1), nullptr);
            if (memo[e->id]) { st.pop_back(); continue; }
            bool ready = true;
            for (auto k : e->k) if (k->id >= memo.size() || !memo[k->id]) { st.push_back(k); ready = false; }
            if (!ready) continue;
            st.pop_back();
            memo[e->id] = keep(tr1(e));
        }
        return ex(memo[root->id]);
    }
    z3::expr K(E e) { return ex(memo[e->id]); }
    z3::expr KB(E e) { z3::expr r = K(e); if (e->w == 1) return z3::ite(r, c->bv_val(1, 1), c->bv_val(0, 1)); return r; }
    z3::expr wrap(const z3::expr& bvx, unsigned w) { if (w == 1) return bvx == c->bv_val(1, 1); return bvx; }
    z3::expr tr1(E e) {
        unsigned w = e->w;
        switch (e->op) {
            case O_CONST: if (w == 1) return c->bool_val(e->c != 0); return c->bv_val((uint64_t)e->c, w);
            case O_VAR: ensure_var(e->aux); return wrap(ex(vvar[e->aux]), w);
            case O_MASK: { ensure_var(e->aux); return mask_tree(e->aux, e->c, (int)vbits[e->aux].size() - 1, 0); }
            case O_NOT: return !K(e->k[0]);
            case O_AND: { z3::expr_vector v(*c); for (auto k : e->k) v.push_back(K(k)); return z3::mk_and(v); }
            case O_OR: { z3::expr_vector v(*c); for (auto k : e->k) v.push_back(K(k)); return z3::mk_or(v); }
            case O_VSET: {
                z3::expr r = c->bv_val((uint64_t)e->vals.back(), w);
                for (int i = (int)e->vals.size() - 2; i >= 0; i--) r = z3::ite(K(e->k[i]), c->bv_val((uint64_t)e->vals[i], w), r);
                return r;
            }
            case O_ITE: return z3::ite(K(e->k[0]), K(e->k[1]), K(e->k[2]));
            case O_EQ: return KB(e->k[0]) == KB(e->k[1]);
            case O_ULT: return z3::ult(KB(e->k[0]), KB(e->k[1]));
            case O_ULE: return z3::ule(KB(e->k[0]), KB(e->k[1]));
            case O_SLT: return z3::slt(KB(e->k[0]), KB(e->k[1]));
            case O_SLE: return z3::sle(KB(e->k[0]), KB(e->k[1]));
            case O_ADD: return wrap(KB(e->k[0]) + KB(e->k[1]), w);
            case O_SUB: return wrap(KB(e->k[0]) - KB(e->k[1]), w);
            case O_MUL: return wrap(KB(e->k[0]) * KB(e->k[1]), w);
            case O_UDIV: return wrap(z3::udiv(KB(e->k[0]), KB(e->k[1])), w);
            case O_SDIV: return wrap(KB(e->k[0]) / KB(e->k[1]), w);
            case O_UREM: return wrap(z3::urem(KB(e->k[0]), KB(e->k[1])), w);
            case O_SREM: return wrap(z3::srem(KB(e->k[0]), KB(e->k[1])), w);
            case O_SHL: return wrap(z3::shl(KB(e->k[0]), KB(e->k[1])), w);
            case O_LSHR: return wrap(z3::lshr(KB(e->k[0]), KB(e->k[1])), w);
            case O_ASHR: return wrap(z3::ashr(KB(e->k[0]), KB(e->k[1])), w);
            case O_BAND: return wrap(KB(e->k[0]) & KB(e->k[1]), w);
            case O_BOR: return wrap(KB(e->k[0]) | KB(e->k[1]), w);
            case O_BXOR: return wrap(KB(e->k[0]) ^ KB(e->k[1]), w);
            case O_CONCAT: { z3::expr r = KB(e->k[0]); for (size_t i = 1; i < e->k.size(); i++) r = z3::concat(KB(e->k[i]), r); return r; }
            case O_EXTRACT: return wrap(KB(e->k[0]).extract(e->aux + w - 1, e->aux), w);
            case O_ZEXT: return z3::zext(KB(e->k[0]), w - e->k[0]->w);
            case O_SEXT: return z3::sext(KB(e->k[0]), w - e->k[0]->w);
            case O_FLT: return flt(KB(e->k[0]), KB(e->k[1]), e->fw, false);
            case O_FLE: return flt(KB(e->k[0]), KB(e->k[1]), e->fw, true);
            case O_FEQ: { z3::expr a = KB(e->k[0]), b = KB(e->k[1]); unsigned f = e->fw;
                z3::expr z0 = c->bv_val(0, f - 1);
                return !isnan_(a, f) && !isnan_(b, f) && (a == b || (a.extract(f - 2, 0) == z0 && b.extract(f - 2, 0) == z0)); }
            case O_FUNO: return isnan_(KB(e->k[0]), e->fw) || isnan_(KB(e->k[1]), e->fw);
            case O_FNEG: return KB(e->k[0]) ^ c->bv_val((uint64_t)(1ull << (w - 1)), w);
            case O_FABS: return KB(e->k[0]) & c->bv_val((uint64_t)(maskw(w) >> 1), w);
            case O_FCOPYSIGN: return (KB(e->k[0]) & c->bv_val((uint64_t)(maskw(w) >> 1), w)) | (KB(e->k[1]) & c->bv_val((uint64_t)(1ull << (w - 1)), w));
            case O_FMIN: { z3::expr a = KB(e->k[0]), b = KB(e->k[1]); return z3::ite(isnan_(a, w), b, z3::ite(isnan_(b, w), a, z3::ite(flt(b, a, w, false), b, a))); }
            case O_FMAX: { z3::expr a = KB(e->k[0]), b = KB(e->k[1]); return z3::ite(isnan_(a, w), b, z3::ite(isnan_(b, w), a, z3::ite(flt(a, b, w, false), b, a))); }
            case O_FADD: return fromfp(z3::expr(*c, Z3_mk_fpa_add(*c, rne(), fpv(e->k[0], w), fpv(e->k[1], w))));
            case O_FSUB: return fromfp(z3::expr(*c, Z3_mk_fpa_sub(*c, rne(), fpv(e->k[0], w), fpv(e->k[1], w))));
            case O_FMUL: return fromfp(z3::expr(*c, Z3_mk_fpa_mul(*c, rne(), fpv(e->k[0], w), fpv(e->k[1], w))));
            case O_FDIV: return fromfp(z3::expr(*c, Z3_mk_fpa_div(*c, rne(), fpv(e->k[0], w), fpv(e->k[1], w))));
            case O_FSQRT: return fromfp(z3::expr(*c, Z3_mk_fpa_sqrt(*c, rne(), fpv(e->k[0], w))));
            case O_FTRUNCI: return fromfp(z3::expr(*c, Z3_mk_fpa_round_to_integral(*c, rtz(), fpv(e->k[0], w))));
            case O_FRINT: return fromfp(z3::expr(*c, Z3_mk_fpa_round_to_integral(*c, rne(), fpv(e->k[0], w))));
            case O_FFLOOR: return fromfp(z3::expr(*c, Z3_mk_fpa_round_to_integral(*c, Z3_mk_fpa_rtn(*c), fpv(e->k[0], w))));
            case O_FCEIL: return fromfp(z3::expr(*c, Z3_mk_fpa_round_to_integral(*c, Z3_mk_fpa_rtp(*c), fpv(e->k[0], w))));
            case O_FEXT: has_fp_arith = true; return fromfp(z3::expr(*c, Z3_mk_fpa_to_fp_float(*c, rne(), fpv(e->k[0], 32), c->fpa_sort(11, 53))));
            case O_FTRUNC: has_fp_arith = true; return fromfp(z3::expr(*c, Z3_mk_fpa_to_fp_float(*c, rne(), fpv(e->k[0], 64), c->fpa_sort(8, 24))));
            case O_SITOF: has_fp_arith = true; return fromfp(z3::expr(*c, Z3_mk_fpa_to_fp_signed(*c, rne(), KB(e->k[0]), w == 32 ? c->fpa_sort(8, 24) : c->fpa_sort(11, 53))));
            case O_UITOF: has_fp_arith = true; return fromfp(z3::expr(*c, Z3_mk_fpa_to_fp_unsigned(*c, rne(), KB(e->k[0]), w == 32 ? c->fpa_sort(8, 24) : c->fpa_sort(11, 53))));
            case O_FTOSI: has_fp_arith = true; return wrap(z3::expr(*c, Z3_mk_fpa_to_sbv(*c, rtz(), fpv(e->k[0], e->fw), w)), w);
            case O_FTOUI: has_fp_arith = true; return wrap(z3::expr(*c, Z3_mk_fpa_to_ubv(*c, rtz(), fpv(e->k[0], e->fw), w)), w);
            default: throw Unsupported{"z3 translation of op " + std::to_string((int)e->op)};
        }
    }
    void sync(const std::vector<E>& pc) {
        size_t p = 0;
        while (p < stack.size() && p < pc.size() && stack[p] == pc[p]) p++;
        if (stack.size() > p) { s->pop((unsigned)(stack.size() - p)); stack.resize(p); }
        while (p < pc.size()) { push1(pc[p]); p++; }
    }
    void push1(E e) {
        z3::expr t = tr(e);
        if (has_fp_arith && !fp) { upgrade(); }
        s->push(); s->add(t); stack.push_back(e);
    }
    void upgrade() {  // floating point arithmetic on full-range values: switch to z3's general solver
        fp = true; delete s; mk();
        for (auto e : stack) { s->push(); s->add(tr(e)); }
    }
    // 1 sat, 0 unsat, -1 unknown
    int check(const std::vector<E>& pc, E extra, Model* out) {
        double t0 = now_s();
        sync(pc);
        ts += now_s() - t0;
        z3::expr te = tr(extra);
        if (has_fp_arith && !fp) upgrade();
        s->push(); s->add(te);
        int res;
        z3::check_result r = z3::unknown;
        double t1 = now_s();
        try { r = s->check(); } catch (z3::exception&) { r = z3::unknown; }
        tc += now_s() - t1;
        if (r == z3::sat) {
            res = 1; n_sat++;
            if (out) {
                z3::model m = s->get_model();
                for (u32 v = 0; v < vbits.size(); v++) {
                    const VarInfo& vi = X.vars[v];
                    if (vi.kind == 0) {
                        if (vbits[v].empty()) continue;
                        unsigned code = 0; bool any = false;
                        for (size_t i = 0; i < vbits[v].size(); i++) {
                            z3::expr b = m.eval(ex(vbits[v][i]), false);
                            if (b.is_true()) { code |= 1u << i; any = true; }
                            else if (b.is_false()) any = true;
                        }
                        if (any) out->asg[v] = code < vi.dom ? code : vi.dom - 1;
                    } else {
                        if (!vvar[v]) continue;
                        z3::expr b = m.eval(ex(vvar[v]), false);
                        if (b.is_numeral()) out->asg[v] = b.get_numeral_uint64();
                    }
                }
            }
        } else if (r == z3::unsat) { res = 0; n_unsat++; }
        else { res = -1; n_unknown++; }
        s->pop();
        t += now_s() - t0;
        return res;
    }
};
static Z z;

// =============================================================================================
// program representation
// =============================================================================================
struct Operand { u32 reg; u64 c; };  // reg == NOREG -> constant c
static const u32 NOREG = 0xffffffffu;

enum IK : u8 {
    K_BIN, K_ICMP, K_FCMP, K_UN, K_GEP, K_LOAD, K_STORE, K_ALLOCA, K_CALL, K_RET, K_BR, K_CBR, K_SWITCH, K_SELECT, K_COPY,
    K_BITCAST, K_UNREACH, K_UNSUP, K_NOP, K_VEXT, K_VINS, K_CMPXCHG
};

struct FuncD;
struct GepTerm { Operand o; u64 scale; u8 w; };
struct Edge { u32 bb; std::vector<std::pair<u32, Operand>> moves; };
struct Inst {
    IK kind;
    Op op = O_ADD;
    bool neg = false, swap = false;
    u8 w = 0, fw = 0, sw = 0;   // result width, float width, source width
    u32 dst = NOREG;
    std::vector<Operand> ops;
    std::vector<u8> ow;         // operand widths (per slot)
    std::vector<u32> offs;      // load/store: byte offset of every slot; bitcast: ...
    std::vector<u8> dw;         // destination slot widths
    i64 imm = 0;
    std::vector<GepTerm> terms;
    std::vector<Edge> edges;
    std::vector<u64> cases;
    FuncD* callee = nullptr;
    int builtin = -1;
    std::vector<u32> byval;     // per argument: byval size (0 none)
    std::vector<std::pair<u32, u32>> argslots;  // per argument: first op index, count
    Type* ty = nullptr;
    Function* fn = nullptr;
    u32 lanes = 0;
    unsigned fpred = 0;
    const Instruction* ll = nullptr;
};
struct BB { std::vector<Inst> ins; bool visited = false; std::vector<const DISubprogram*> subs; };
struct FuncD { Function* f; std::vector<BB> bbs; u32 nregs = 0; std::vector<u32> argreg; std::vector<u32> argcount; bool decoded = false; std::vector<u8> retw; };

static LLVMContext g_ctx;
static std::unique_ptr<Module> g_mod;
static const DataLayout* DL;
static std::unordered_map<const Function*, FuncD*> g_funcs;
static std::unordered_map<u64, Function*> g_fn_by_addr;
static std::unordered_map<const GlobalValue*, u64> g_addr;

// =============================================================================================
// memory
// =============================================================================================
struct Obj {
    int rc = 1;
    u32 size = 0;
    u8 kind = 0;  // 0 global, 1 heap, 2 alloca, 3 function
    bool ro = false;
    bool tls = false;  // thread local
    std::vector<u8> b;
    std::vector<std::pair<u32, E>> sym;  // sorted by offset, non overlapping, width multiple of 8
};
struct ObjRef {
    Obj* p = nullptr;
    ObjRef() {}
    explicit ObjRef(Obj* o) : p(o) {}
    ObjRef(const ObjRef& o) : p(o.p) { if (p) p->rc++; }
    ObjRef(ObjRef&& o) noexcept : p(o.p) { o.p = nullptr; }
    ObjRef& operator=(ObjRef o) noexcept { std::swap(p, o.p); return *this; }
    ~ObjRef() { if (p && --p->rc == 0) delete p; }
    Obj* w() { if (p->rc > 1) { Obj* n = new Obj(*p); n->rc = 1; p->rc--; p = n; } return p; }
};

struct Val { u64 c; E e; };
struct Frame { FuncD* f; u32 bb, pc, base, retdst, allocas; };

typedef std::shared_ptr<Model> MP;
struct State {
    std::vector<Frame> fr;
    std::vector<Val> regs;
    std::vector<ObjRef> mem;        // index = object id
    std::vector<u32> allocas;
    std::vector<u32> free_ids;
    std::vector<E> pc;
    std::vector<MP> models;
    std::vector<u32> inputs;        // variables in call order
    std::vector<std::pair<u8, Val>> emits;
    std::unordered_map<E, E> known;
    u64 ninst = 0;
    u32 seq = 0;
    int allow_throw = 0;
    int forks = 0;
    // data races: the logical thread that runs (0: none), whether it holds the lock, and who touched which byte:
    // threads that read / wrote it without the lock, read / wrote it with the lock
    u32 thr = 0;
    bool locked = false;
    u32 initialising = 0;   // within the initialisation of a static variable, which happens before every other use
    std::map<u64, std::array<u32, 4>> acc;
};

static std::vector<ObjRef> g_mem0;   // initial memory

static const u64 OFF0 = 0x1000;
static inline u64 mkaddr(u32 id, u64 off) { return ((u64)id << 32) + OFF0 + off; }

struct PathEnd { int why; };  // thrown to end the current path
enum { PE_DONE, PE_ASSUME, PE_THROW_OK, PE_VIOL, PE_INCOMPLETE };
struct MemErr { std::string what; };
struct ForkOn { E cond; };     // re-execute current instruction after forking on cond
struct PruneOrFork { E e; };

// ---- results -------------------------------------------------------------------------------
struct Res {
    u64 paths = 0, assumed = 0, throws = 0, viol = 0, incomplete = 0, inst = 0, forks = 0, vsetforks = 0;
    std::map<std::string, u64> why_incomplete;
    std::map<std::string, std::array<u64, 3>> asserts;  // trivial / discharged / violated
    std::map<std::string, u64> reach;
    std::map<std::string, std::array<u64, 2>> possible;
    std::vector<std::string> violations;  // json objects
    std::vector<std::string> samples;
    u64 seen_samples = 0;
} R;
static std::map<std::string, int> g_vcount;
static u64 g_rng = 88172645463325252ull;
static u64 rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng; }

static std::string jesc(const std::string& s) {
    std::string o;
    for (char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if ((unsigned char)ch < 32) o += ' '; else o += ch; }
    return o;
}

// =============================================================================================
// helpers on values
// =============================================================================================
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : X.cst(w, v.c); }
static inline Val fromE(E e) { if (e->op == O_CONST) return Val{e->c, nullptr}; return Val{0, e}; }

// =============================================================================================
// decoding
// =============================================================================================
static void flat_types(Type* t, std::vector<Type*>& out) {
    if (t->isVoidTy()) return;
    if (auto* st = dyn_cast<StructType>(t)) { for (auto* e : st->elements()) flat_types(e, out); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { for (u64 i = 0; i < at->getNumElements(); i++) flat_types(at->getElementType(), out); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { for (u64 i = 0; i < vt->getNumElements(); i++) flat_types(vt->getElementType(), out); return; }
    out.push_back(t);
}
static void flat_offsets(Type* t, u64 base, std::vector<u32>& out) {
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flat_offsets(st->getElementType(i), base + sl->getElementOffset(i), out); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { u64 s = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) flat_offsets(at->getElementType(), base + i * s, out); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 s = DL->getTypeStoreSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) out.push_back((u32)(base + i * s)); return; }
    out.push_back((u32)base);
}
static unsigned twidth(Type* t) {
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    return 1000;
}
static bool badty(Type* t) { std::vector<Type*> v; flat_types(t, v); for (auto* x : v) if (twidth(x) > 64) return true; return false; }
static u32 nslots(Type* t) { std::vector<Type*> v; flat_types(t, v); return (u32)v.size(); }

static bool const_scalar(const Constant* c, u64& out);
static bool flat_const(const Constant* c, std::vector<u64>& out) {
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { u32 n = nslots(t); for (u32 i = 0; i < n; i++) out.push_back(0); return true; }
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        u64 n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (u64 i = 0; i < n; i++) { Constant* e = c->getAggregateElement((unsigned)i); if (!e || !flat_const(e, out)) return false; }
        return true;
    }
    u64 v; if (!const_scalar(c, v)) return false; out.push_back(v); return true;
}
static bool const_scalar(const Constant* c, u64& out) {
    out = 0;
    if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return false; out = ci->getZExtValue(); return true; }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() > 64) return false; out = b.getZExtValue(); return true; }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return true;
    if (auto* gv = dyn_cast<GlobalValue>(c)) {
        if (auto* ga = dyn_cast<GlobalAlias>(gv)) return const_scalar(ga->getAliasee(), out);
        auto it = g_addr.find(gv); if (it == g_addr.end()) return false; out = it->second; return true;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        if (ce->getOpcode() == Instruction::GetElementPtr) {
            auto* g = cast<GEPOperator>(ce);
            APInt off(64, 0);
            if (!g->accumulateConstantOffset(*DL, off)) return false;
            u64 b; if (!const_scalar(cast<Constant>(g->getPointerOperand()), b)) return false;
            out = b + (u64)off.getSExtValue(); return true;
        }
        if (ce->isCast()) { u64 b; if (!const_scalar(ce->getOperand(0), b)) return false; out = b & maskw(std::min(64u, twidth(ce->getType()))); return true; }
        u64 a, b;
        if (ce->getNumOperands() == 2 && const_scalar(ce->getOperand(0), a) && const_scalar(ce->getOperand(1), b)) {
            unsigned w = twidth(ce->getType());
            if (ce->getOpcode() == Instruction::Sub) { out = (a - b) & maskw(w); return true; }
            if (ce->getOpcode() == Instruction::Add) { out = (a + b) & maskw(w); return true; }
        }
    }
    return false;
}

struct Builtins { std::unordered_map<std::string, int> id; } B;
static int builtin_of(const Function* f);

static FuncD* get_func(Function* f);

struct Decoder {
    FuncD* fd;
    Function* f;
    std::unordered_map<const Value*, u32> reg;
    std::unordered_map<const BasicBlock*, u32> bbi;

    bool operands(const Value* v, std::vector<Operand>& out) {
        if (auto* c = dyn_cast<Constant>(v)) {
            std::vector<u64> cs;
            if (!flat_const(c, cs)) return false;
            for (u64 x : cs) out.push_back({NOREG, x});
            return true;
        }
        auto it = reg.find(v);
        if (it == reg.end()) return false;
        u32 n = nslots(v->getType());
        for (u32 i = 0; i < n; i++) out.push_back({it->second + i, 0});
        return true;
    }
    void widths(Type* t, std::vector<u8>& out) { std::vector<Type*> v; flat_types(t, v); for (auto* x : v) out.push_back((u8)std::min(255u, twidth(x))); }

    void run() {
        u32 n = 0;
        for (auto& a : f->args()) { fd->argreg.push_back(n); u32 c = nslots(a.getType()); fd->argcount.push_back(c); reg[&a] = n; n += c; }
        for (auto& bb : *f) {
            u32 k = (u32)bbi.size(); bbi[&bb] = k;
            for (auto& i : bb) if (!i.getType()->isVoidTy()) { reg[&i] = n; n += nslots(i.getType()); }
        }
        fd->nregs = n;
        widths(f->getReturnType(), fd->retw);
        fd->bbs.resize(bbi.size());
        for (auto& bb : *f) {
            BB& b = fd->bbs[bbi[&bb]];
            std::set<const DISubprogram*> subs;
            for (auto& i : bb) {
                if (const DILocation* dl = i.getDebugLoc().get()) {
                    while (dl) { if (auto* sp = dl->getScope()->getSubprogram()) subs.insert(sp); dl = dl->getInlinedAt(); }
                }
                if (isa<PHINode>(i)) continue;
                decode(i, b);
            }
            b.subs.assign(subs.begin(), subs.end());
        }
        fd->decoded = true;
    }
    Edge edge(const BasicBlock* from, const BasicBlock* to, bool& ok) {
        Edge e; e.bb = bbi[to];
        for (auto& p : to->phis()) {
            std::vector<Operand> o;
            if (!operands(p.getIncomingValueForBlock(from), o)) ok = false;
            u32 d = reg[&p];
            for (size_t i = 0; i < o.size(); i++) e.moves.push_back({d + (u32)i, o[i]});
        }
        return e;
    }
    void decode(Instruction& I, BB& b) {
        Inst x; x.ll = &I; x.kind = K_UNSUP;
        bool ok = true;
        if (!I.getType()->isVoidTy()) { x.dst = reg[&I]; widths(I.getType(), x.dw); if (badty(I.getType())) ok = false; }
        for (auto& o : I.operands()) if (!isa<BasicBlock>(o) && !isa<MetadataAsValue>(o) && !o->getType()->isMetadataTy() && !o->getType()->isLabelTy() && !o->getType()->isTokenTy() && badty(o->getType())) ok = false;
        if (I.isDebugOrPseudoInst()) return;
        auto fin = [&](IK k) { if (!ok) { x.kind = K_UNSUP; } else x.kind = k; b.ins.push_back(x); };
        auto opnds = [&](const Value* v) { if (!operands(v, x.ops)) ok = false; widths(v->getType(), x.ow); };
        switch (I.getOpcode()) {
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem:
            case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor:
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
                static const std::map<unsigned, Op> m = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM},
                    {Instruction::SRem, O_SREM}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}, {Instruction::And, O_BAND}, {Instruction::Or, O_BOR}, {Instruction::Xor, O_BXOR},
                    {Instruction::FAdd, O_FADD}, {Instruction::FSub, O_FSUB}, {Instruction::FMul, O_FMUL}, {Instruction::FDiv, O_FDIV}, {Instruction::FRem, O_FREM}};
                x.op = m.at(I.getOpcode());
                opnds(I.getOperand(0)); opnds(I.getOperand(1));
                if (ok) { x.w = x.dw[0]; x.fw = I.getType()->isFPOrFPVectorTy() ? x.w : 0; x.lanes = (u32)x.dw.size(); }
                fin(K_BIN); return;
            }
            case Instruction::FNeg: opnds(I.getOperand(0)); x.op = O_FNEG; if (ok) { x.w = x.dw[0]; x.fw = x.w; x.sw = x.w; x.lanes = (u32)x.dw.size(); } fin(K_UN); return;
            case Instruction::ICmp: {
                auto& c = cast<ICmpInst>(I);
                opnds(I.getOperand(0)); opnds(I.getOperand(1));
                switch (c.getPredicate()) {
                    case CmpInst::ICMP_EQ: x.op = O_EQ; break;
                    case CmpInst::ICMP_NE: x.op = O_EQ; x.neg = true; break;
                    case CmpInst::ICMP_ULT: x.op = O_ULT; break;
                    case CmpInst::ICMP_ULE: x.op = O_ULE; break;
                    case CmpInst::ICMP_UGT: x.op = O_ULT; x.swap = true; break;
                    case CmpInst::ICMP_UGE: x.op = O_ULE; x.swap = true; break;
                    case CmpInst::ICMP_SLT: x.op = O_SLT; break;
                    case CmpInst::ICMP_SLE: x.op = O_SLE; break;
                    case CmpInst::ICMP_SGT: x.op = O_SLT; x.swap = true; break;
                    default: x.op = O_SLE; x.swap = true; break;
                }
                if (ok) { x.sw = x.ow[0]; x.w = 1; x.lanes = (u32)x.dw.size(); }
                fin(K_ICMP); return;
            }
            case Instruction::FCmp: {
                x.fpred = cast<FCmpInst>(I).getPredicate();
                opnds(I.getOperand(0)); opnds(I.getOperand(1));
                if (ok) { x.fw = x.ow[0]; x.w = 1; x.lanes = (u32)x.dw.size(); }
                fin(K_FCMP); return;
            }
            case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP:
            case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
                opnds(I.getOperand(0));
                static const std::map<unsigned, Op> m = {{Instruction::Trunc, O_EXTRACT}, {Instruction::ZExt, O_ZEXT}, {Instruction::SExt, O_SEXT}, {Instruction::FPToSI, O_FTOSI}, {Instruction::FPToUI, O_FTOUI},
                    {Instruction::SIToFP, O_SITOF}, {Instruction::UIToFP, O_UITOF}, {Instruction::FPExt, O_FEXT}, {Instruction::FPTrunc, O_FTRUNC}};
                x.op = m.at(I.getOpcode());
                if (ok) { x.w = x.dw[0]; x.sw = x.ow[0]; x.fw = (x.op == O_FTOSI || x.op == O_FTOUI || x.op == O_FEXT || x.op == O_FTRUNC) ? x.sw : 0; x.lanes = (u32)x.dw.size(); }
                fin(K_UN); return;
            }
            case Instruction::PtrToInt: case Instruction::IntToPtr: {
                opnds(I.getOperand(0));
                if (ok) { x.w = x.dw[0]; x.sw = x.ow[0]; x.lanes = (u32)x.dw.size(); x.op = x.w < x.sw ? O_EXTRACT : O_ZEXT; }
                fin(K_UN); return;
            }
            case Instruction::BitCast: opnds(I.getOperand(0)); fin(K_BITCAST); return;
            case Instruction::Freeze: opnds(I.getOperand(0)); fin(K_COPY); return;
            case Instruction::GetElementPtr: {
                auto& g = cast<GetElementPtrInst>(I);
                if (g.getType()->isVectorTy()) { ok = false; fin(K_GEP); return; }
                opnds(g.getPointerOperand());
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                    Value* idx = gi.getOperand();
                    if (StructType* st = gi.getStructTypeOrNull()) { x.imm += (i64)DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(idx)->getZExtValue()); continue; }
                    u64 sc = DL->getTypeAllocSize(gi.getIndexedType());
                    if (auto* ci = dyn_cast<ConstantInt>(idx)) { x.imm += ci->getSExtValue() * (i64)sc; continue; }
                    std::vector<Operand> o; if (!operands(idx, o)) ok = false;
                    if (ok) x.terms.push_back({o[0], sc, (u8)twidth(idx->getType())});
                }
                fin(K_GEP); return;
            }
            case Instruction::Load: {
                opnds(I.getOperand(0));
                flat_offsets(I.getType(), 0, x.offs);
                fin(K_LOAD); return;
            }
            case Instruction::Store: {
                opnds(I.getOperand(0)); opnds(I.getOperand(1));
                flat_offsets(I.getOperand(0)->getType(), 0, x.offs);
                fin(K_STORE); return;
            }
            case Instruction::Alloca: {
                auto& a = cast<AllocaInst>(I);
                x.imm = (i64)DL->getTypeAllocSize(a.getAllocatedType());
                opnds(a.getArraySize());
                fin(K_ALLOCA); return;
            }
            case Instruction::Select: opnds(I.getOperand(0)); opnds(I.getOperand(1)); opnds(I.getOperand(2)); x.lanes = nslots(I.getOperand(0)->getType()); fin(K_SELECT); return;
            case Instruction::ExtractValue: {
                auto& ev = cast<ExtractValueInst>(I);
                std::vector<Operand> o; if (!operands(ev.getAggregateOperand(), o)) ok = false;
                u32 off = 0; Type* t = ev.getAggregateOperand()->getType();
                for (unsigned ix : ev.indices()) { off += sub_off(t, ix); t = sub_ty(t, ix); }
                u32 n = nslots(I.getType());
                if (ok) for (u32 i = 0; i < n; i++) x.ops.push_back(o[off + i]);
                fin(K_COPY); return;
            }
            case Instruction::InsertValue: {
                auto& iv = cast<InsertValueInst>(I);
                std::vector<Operand> o, v; if (!operands(iv.getAggregateOperand(), o) || !operands(iv.getInsertedValueOperand(), v)) ok = false;
                u32 off = 0; Type* t = iv.getAggregateOperand()->getType();
                for (unsigned ix : iv.indices()) { off += sub_off(t, ix); t = sub_ty(t, ix); }
                if (ok) { for (size_t i = 0; i < v.size(); i++) o[off + i] = v[i]; x.ops = o; }
                fin(K_COPY); return;
            }
            case Instruction::ExtractElement: case Instruction::InsertElement: {
                bool ins = I.getOpcode() == Instruction::InsertElement;
                std::vector<Operand> o; if (!operands(I.getOperand(0), o)) ok = false;
                Value* idx = I.getOperand(ins ? 2 : 1);
                if (auto* ci = dyn_cast<ConstantInt>(idx)) {
                    u64 k = ci->getZExtValue();
                    if (ok && k < o.size()) { if (ins) { std::vector<Operand> v; if (!operands(I.getOperand(1), v)) ok = false; else { o[k] = v[0]; x.ops = o; } } else x.ops.push_back(o[k]); } else ok = false;
                    fin(K_COPY); return;
                }
                ok = false; fin(K_COPY); return;
            }
            case Instruction::ShuffleVector: {
                auto& sv = cast<ShuffleVectorInst>(I);
                std::vector<Operand> o; if (!operands(I.getOperand(0), o) || !operands(I.getOperand(1), o)) ok = false;
                for (int m : sv.getShuffleMask()) { if (m < 0) x.ops.push_back({NOREG, 0}); else if (ok) x.ops.push_back(o[m]); }
                fin(K_COPY); return;
            }
            case Instruction::Br: {
                auto& br = cast<BranchInst>(I);
                if (br.isUnconditional()) { x.edges.push_back(edge(I.getParent(), br.getSuccessor(0), ok)); fin(K_BR); return; }
                opnds(br.getCondition());
                x.edges.push_back(edge(I.getParent(), br.getSuccessor(0), ok));
                x.edges.push_back(edge(I.getParent(), br.getSuccessor(1), ok));
                fin(K_CBR); return;
            }
            case Instruction::Switch: {
                auto& s = cast<SwitchInst>(I);
                opnds(s.getCondition());
                x.edges.push_back(edge(I.getParent(), s.getDefaultDest(), ok));
                for (auto& c : s.cases()) { x.cases.push_back(c.getCaseValue()->getZExtValue()); x.edges.push_back(edge(I.getParent(), c.getCaseSuccessor(), ok)); }
                fin(K_SWITCH); return;
            }
            case Instruction::Ret: if (I.getNumOperands()) opnds(I.getOperand(0)); fin(K_RET); return;
            case Instruction::Unreachable: fin(K_UNREACH); return;
            case Instruction::Resume: case Instruction::LandingPad: case Instruction::CleanupRet: ok = false; fin(K_UNSUP); return;
            case Instruction::Fence: return;
            case Instruction::AtomicRMW: {
                auto& a = cast<AtomicRMWInst>(I);
                opnds(I.getOperand(0)); opnds(I.getOperand(1));
                // load; op; store
                Inst l = x; l.kind = K_LOAD; l.ops.resize(1); l.ow.resize(1); l.offs = {0};
                u32 tmp = fd->nregs++;
                Inst o; o.ll = &I; o.kind = K_BIN; o.w = x.dw[0]; o.dw = x.dw; o.lanes = 1; o.dst = tmp; o.ops = {{x.dst, 0}, x.ops[1]}; o.ow = {o.w, o.w};
                switch (a.getOperation()) { case AtomicRMWInst::Add: o.op = O_ADD; break; case AtomicRMWInst::Sub: o.op = O_SUB; break; case AtomicRMWInst::And: o.op = O_BAND; break; case AtomicRMWInst::Or: o.op = O_BOR; break; case AtomicRMWInst::Xchg: o.kind = K_COPY; o.ops = {x.ops[1]}; break; default: ok = false; }
                Inst s; s.ll = &I; s.kind = K_STORE; s.ops = {{tmp, 0}, x.ops[0]}; s.ow = {o.w, 64}; s.offs = {0};
                if (!ok) { fin(K_UNSUP); return; }
                b.ins.push_back(l); b.ins.push_back(o); b.ins.push_back(s);
                return;
            }
            case Instruction::AtomicCmpXchg: {  // single-threaded: load; compare; select; store
                opnds(I.getOperand(0)); opnds(I.getOperand(1)); opnds(I.getOperand(2));
                if (!ok || x.ops.size() != 3) { fin(K_UNSUP); return; }
                u32 w = x.dw[0], tmp = fd->nregs++;
                Inst l = x; l.kind = K_LOAD; l.ops.resize(1); l.ow.resize(1); l.dw = {w}; l.offs = {0}; l.w = w;
                Inst c; c.ll = &I; c.kind = K_ICMP; c.op = O_EQ; c.w = 1; c.sw = w; c.dw = {1}; c.lanes = 1; c.dst = x.dst + 1; c.ops = {{x.dst, 0}, x.ops[1]}; c.ow = {w, w};
                Inst e; e.ll = &I; e.kind = K_SELECT; e.w = w; e.dw = {w}; e.lanes = 1; e.dst = tmp; e.ops = {{x.dst + 1, 0}, x.ops[2], {x.dst, 0}}; e.ow = {1, w, w};
                Inst s; s.ll = &I; s.kind = K_STORE; s.ops = {{tmp, 0}, x.ops[0]}; s.ow = {w, 64}; s.offs = {0};
                b.ins.push_back(l); b.ins.push_back(c); b.ins.push_back(e); b.ins.push_back(s);
                return;
            }
            case Instruction::Call: case Instruction::Invoke: {
                auto& cb = cast<CallBase>(I);
                Function* cf = cb.getCalledFunction();
                if (!cf) if (auto* ga = dyn_cast<GlobalAlias>(cb.getCalledOperand())) cf = dyn_cast<Function>(ga->getAliaseeObject());
                if (cf && cf->isIntrinsic()) {
                    switch (cf->getIntrinsicID()) {
                        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
                        case Intrinsic::prefetch: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::sideeffect: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::invariant_start: case Intrinsic::invariant_end: return;
                        default: break;
                    }
                }
                x.ty = I.getType();
                for (unsigned i = 0; i < cb.arg_size(); i++) {
                    u32 st = (u32)x.ops.size();
                    if (cb.getArgOperand(i)->getType()->isMetadataTy()) { x.argslots.push_back({st, 0}); x.byval.push_back(0); continue; }
                    opnds(cb.getArgOperand(i));
                    x.argslots.push_back({st, (u32)x.ops.size() - st});
                    x.byval.push_back(cb.isByValArgument(i) ? (u32)DL->getTypeAllocSize(cb.getParamByValType(i)) : 0);
                }
                if (cf) {
                    x.fn = cf;
                    x.builtin = builtin_of(cf);
                } else {
                    opnds(cb.getCalledOperand());
                }
                fin(K_CALL);
                if (auto* inv = dyn_cast<InvokeInst>(&I)) {
                    Inst br; br.ll = &I; br.kind = K_BR; bool ok2 = true;
                    br.edges.push_back(edge(I.getParent(), inv->getNormalDest(), ok2));
                    if (!ok2) br.kind = K_UNSUP;
                    b.ins.push_back(br);
                }
                return;
            }
            default: ok = false; fin(K_UNSUP); return;
        }
    }
    u32 sub_off(Type* t, unsigned ix) {
        u32 o = 0;
        if (auto* st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) o += nslots(st->getElementType(i)); return o; }
        return ix * nslots(t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType());
    }
    Type* sub_ty(Type* t, unsigned ix) { if (auto* st = dyn_cast<StructType>(t)) return st->getElementType(ix); return t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType(); }
};

static FuncD* get_func(Function* f) {
    auto it = g_funcs.find(f);
    if (it != g_funcs.end()) return it->second;
    FuncD* d = new FuncD(); d->f = f; g_funcs[f] = d;
    Decoder dc; dc.fd = d; dc.f = f; dc.run();
    return d;
}

// ---- builtins ------------------------------------------------------------------------------
enum BI {
    B_NONE = -1,
    B_CHOICE = 0, B_ANY, B_ASSUME, B_ASSERT, B_REACH, B_POSSIBLE, B_EMIT, B_ALLOW_THROW, B_CONCRETIZE, B_THREAD, B_LOCK, B_FAIL,
    B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_ALIGNED, B_MEMCPY, B_MEMSET, B_MEMCMP, B_STRLEN, B_MEMCHR, B_STRCMP,
    B_THROW, B_ABORT, B_NOP, B_NOPARG0, B_ZERO, B_GUARD_ACQ, B_GUARD_REL, B_FUN1, B_SQRT, B_FABS, B_FLOOR, B_CEIL, B_TRUNC, B_ROUND, B_RINT, B_POW, B_FMOD,
    B_FMIN, B_FMAX, B_COPYSIGN, B_UMIN, B_UMAX, B_SMIN, B_SMAX, B_ABS, B_CTPOP, B_CTLZ, B_CTTZ, B_BSWAP, B_FSHL, B_FSHR, B_UADDO, B_USUBO, B_UMULO, B_SADDO, B_SSUBO, B_SMULO,
    B_USUBSAT, B_UADDSAT, B_IDENT, B_FMULADD, B_OBJSIZE, B_NEEDREHASH, B_NEXTBKT, B_HASHBYTES, B_VRED, B_ISFPCLASS, B_UNKNOWN, B_ISCONST, B_HYPOT, B_POWI, B_LROUND
};
static std::unordered_map<const Function*, u32> g_bi_aux;

static int builtin_of(const Function* f) {
    std::string n = f->getName().str();
    static const std::unordered_map<std::string, int> m = {
        {"sx_choice", B_CHOICE}, {"sx_any", B_ANY}, {"sx_assume", B_ASSUME}, {"sx_assert", B_ASSERT}, {"sx_reach", B_REACH}, {"sx_possible", B_POSSIBLE}, {"sx_emit", B_EMIT}, {"sx_allow_throw", B_ALLOW_THROW}, {"sx_concretize", B_CONCRETIZE}, {"sx_thread", B_THREAD}, {"sx_lock", B_LOCK},
        {"malloc", B_MALLOC}, {"_Znwm", B_MALLOC}, {"_Znam", B_MALLOC}, {"_ZnwmRKSt9nothrow_t", B_MALLOC}, {"_ZnamRKSt9nothrow_t", B_MALLOC}, {"_ZnwmSt11align_val_t", B_MALLOC}, {"_ZnamSt11align_val_t", B_MALLOC}, {"__cxa_allocate_exception", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC},
        {"free", B_FREE}, {"_ZdlPv", B_FREE}, {"_ZdlPvm", B_FREE}, {"_ZdaPv", B_FREE}, {"_ZdaPvm", B_FREE}, {"_ZdlPvSt11align_val_t", B_FREE}, {"_ZdlPvmSt11align_val_t", B_FREE}, {"_ZdlPvRKSt9nothrow_t", B_FREE}, {"aligned_alloc", B_ALIGNED},
        {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN}, {"memchr", B_MEMCHR}, {"strcmp", B_STRCMP},
        {"__cxa_throw", B_THROW}, {"__cxa_rethrow", B_THROW}, {"abort", B_ABORT}, {"_ZSt9terminatev", B_ABORT}, {"__assert_fail", B_ABORT}, {"exit", B_ABORT}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_ABORT},
        {"__cxa_guard_acquire", B_GUARD_ACQ}, {"__cxa_guard_release", B_GUARD_REL}, {"__cxa_atexit", B_ZERO}, {"__cxa_free_exception", B_NOP}, {"printf", B_ZERO}, {"puts", B_ZERO}, {"putchar", B_ZERO}, {"fprintf", B_ZERO}, {"fputs", B_ZERO}, {"fwrite", B_ZERO}, {"fputc", B_ZERO}, {"fflush", B_ZERO},
        {"sqrt", B_SQRT}, {"sqrtf", B_SQRT}, {"fabs", B_FABS}, {"fabsf", B_FABS}, {"floor", B_FLOOR}, {"floorf", B_FLOOR}, {"ceil", B_CEIL}, {"ceilf", B_CEIL}, {"trunc", B_TRUNC}, {"truncf", B_TRUNC}, {"round", B_ROUND}, {"roundf", B_ROUND}, {"lround", B_LROUND}, {"lroundf", B_LROUND}, {"llround", B_LROUND}, {"llroundf", B_LROUND}, {"fma", B_FMULADD}, {"fmaf", B_FMULADD}, {"rint", B_RINT}, {"rintf", B_RINT}, {"nearbyint", B_RINT}, {"nearbyintf", B_RINT},
        {"hypot", B_HYPOT}, {"hypotf", B_HYPOT}, {"pow", B_POW}, {"powf", B_POW}, {"fmod", B_FMOD}, {"fmodf", B_FMOD}, {"fmin", B_FMIN}, {"fminf", B_FMIN}, {"fmax", B_FMAX}, {"fmaxf", B_FMAX}, {"copysign", B_COPYSIGN}, {"copysignf", B_COPYSIGN},
        {"_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm", B_NEEDREHASH}, {"_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm", B_NEXTBKT}, {"_ZSt11_Hash_bytesPKvmm", B_HASHBYTES},
        {"_ZNSt6chrono3_V212steady_clock3nowEv", B_ZERO}, {"_ZNSt6chrono3_V212system_clock3nowEv", B_ZERO},
    };
    auto it = m.find(n);
    if (it != m.end()) return it->second;
    for (int i = 0; i < N_FUN1; i++) {
        std::string b = g_fun1_names[i];
        if (n == b || n == b + "f" || n == "llvm." + b + ".f32" || n == "llvm." + b + ".f64") { g_bi_aux[f] = i; return B_FUN1; }
    }
    if (f->isIntrinsic()) {
        switch (f->getIntrinsicID()) {
            case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return B_MEMCPY;
            case Intrinsic::memset: return B_MEMSET;
            case Intrinsic::sqrt: return B_SQRT;
            case Intrinsic::fabs: return B_FABS;
            case Intrinsic::floor: return B_FLOOR;
            case Intrinsic::ceil: return B_CEIL;
            case Intrinsic::trunc: return B_TRUNC;
            case Intrinsic::round: return B_ROUND;
            case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return B_RINT;
            case Intrinsic::pow: return B_POW;
            case Intrinsic::powi: return B_POWI;
            case Intrinsic::minnum: return B_FMIN;
            case Intrinsic::maxnum: return B_FMAX;
            case Intrinsic::copysign: return B_COPYSIGN;
            case Intrinsic::umin: return B_UMIN;
            case Intrinsic::umax: return B_UMAX;
            case Intrinsic::smin: return B_SMIN;
            case Intrinsic::smax: return B_SMAX;
            case Intrinsic::abs: return B_ABS;
            case Intrinsic::ctpop: return B_CTPOP;
            case Intrinsic::ctlz: return B_CTLZ;
            case Intrinsic::cttz: return B_CTTZ;
            case Intrinsic::bswap: return B_BSWAP;
            case Intrinsic::fshl: return B_FSHL;
            case Intrinsic::fshr: return B_FSHR;
            case Intrinsic::uadd_with_overflow: return B_UADDO;
            case Intrinsic::usub_with_overflow: return B_USUBO;
            case Intrinsic::umul_with_overflow: return B_UMULO;
            case Intrinsic::sadd_with_overflow: return B_SADDO;
            case Intrinsic::ssub_with_overflow: return B_SSUBO;
            case Intrinsic::smul_with_overflow: return B_SMULO;
            case Intrinsic::usub_sat: return B_USUBSAT;
            case Intrinsic::uadd_sat: return B_UADDSAT;
            case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: return B_IDENT;
            case Intrinsic::fmuladd: case Intrinsic::fma: return B_FMULADD;  // fma: rounded twice (replays decide)
            case Intrinsic::lround: case Intrinsic::llround: return B_LROUND;
            case Intrinsic::objectsize: return B_OBJSIZE;
            case Intrinsic::is_constant: return B_ISCONST;
            case Intrinsic::stacksave: case Intrinsic::eh_typeid_for: return B_ZERO;
            case Intrinsic::is_fpclass: return B_ISFPCLASS;
            case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_fadd: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: return B_VRED;
            case Intrinsic::trap: return B_ABORT;
            default: return B_UNKNOWN;
        }
    }
    // exceptions raised through libstdc++ helpers
    if (n.rfind("_ZSt", 0) == 0 && n.find("__throw_") != std::string::npos) return B_THROW;
    // exception object constructors / destructors
    if (n.find("logic_error") != std::string::npos || n.find("runtime_error") != std::string::npos || n.find("invalid_argument") != std::string::npos || n.find("out_of_range") != std::string::npos || n.find("length_error") != std::string::npos || n.find("domain_error") != std::string::npos || n.find("bad_") != std::string::npos) if (f->isDeclaration()) return B_NOP;
    // streams are not part of any property: console output does nothing
    if (n.rfind("_ZNSo", 0) == 0 || n.rfind("_ZStlsISt11char_traits", 0) == 0 || n.rfind("_ZSt16__ostream_insert", 0) == 0 || n.rfind("_ZSt4endl", 0) == 0 || n.rfind("_ZSt5flush", 0) == 0) return B_NOPARG0;
    if (n.rfind("_ZNSt8ios_base4Init", 0) == 0) return B_NOP;
    if (f->isDeclaration()) return B_UNKNOWN;
    return B_NONE;
}

// =============================================================================================
// interpreter
// =============================================================================================
static State* S;
static double g_deadline;
static bool g_timeout = false;
static std::function<void(State*)> g_spawn;

static inline Val rd(const Operand& o) {
    if (o.reg == NOREG) return Val{o.c, nullptr};
    return S->regs[S->fr.back().base + o.reg];
}
static inline void wr(u32 r, Val v) { S->regs[S->fr.back().base + r] = v; }

static void add_pc(State* s, E c) {
    if (c->op == O_CONST) return;
    if (c->op == O_AND) { for (auto k : c->k) add_pc(s, k); return; }
    for (auto p : s->pc) if (p == c) return;
    s->pc.push_back(c);
}

static MP new_model(u64 seed) { auto m = std::make_shared<Model>(); m->seed = seed; return m; }
static u64 g_model_seed = 1;

static void incomplete(const std::string& why) { R.why_incomplete[why]++; throw PathEnd{PE_INCOMPLETE}; }

// feasibility of cond under s: 1 feasible (model available in out list), 0 infeasible
// returns -1 on unknown
static int feasible(State* s, E cond, std::vector<MP>& out) {
    out.clear();
    if (cond == X.ff) return 0;
    for (auto& m : s->models) { if (m->memo.size() > 400000) m->memo.clear(); if (X.eval(cond, *m)) out.push_back(m); }
    if (!out.empty()) return 1;
    MP m = new_model(++g_model_seed * 7919);
    if (now_s() > g_deadline) { g_timeout = true; R.why_incomplete["time budget exhausted"]++; throw PathEnd{PE_INCOMPLETE}; }
    int r = z.check(s->pc, cond, m.get());
    if (r == 1) { 
        // sanity: model must satisfy the condition in our own evaluator
        if (!X.eval(cond, *m)) { R.why_incomplete["solver model disagrees with evaluator"]++; return -1; }
        for (auto p : s->pc) if (!X.eval(p, *m)) { R.why_incomplete["solver model disagrees with evaluator"]++; return -1; }
        out.push_back(m); s->models.push_back(m); if (s->models.size() > (size_t)opt_models + 8) s->models.erase(s->models.begin()); }
    return r;
}

static void diversify(std::vector<MP>& ms, State*) { if (ms.size() > (size_t)opt_models) ms.resize(opt_models); }

// decide a boolean: returns the side the current state takes; spawns the other side if feasible
static bool decide(E c) {
    if (c->op == O_CONST) return c->c != 0;
    {
        auto it = S->known.find(c); if (it != S->known.end() && it->second->op == O_CONST) return it->second->c != 0;
    }
    std::vector<MP> mt, mf;
    E nc = X.bnot(c);
    int a = feasible(S, c, mt);
    int b = feasible(S, nc, mf);
    if (a < 0 || b < 0) { R.why_incomplete["solver unknown on branch"]++; if (a <= 0 && b <= 0) throw PathEnd{PE_INCOMPLETE}; }
    if (a <= 0 && b <= 0) incomplete("both sides infeasible");
    if (a == 1 && b == 1) {
        R.forks++;
        State* o = new State(*S);
        o->models = mf; diversify(o->models, o);
        add_pc(o, nc); o->known[c] = X.ff;
        o->forks++;
        S->models = mt; diversify(S->models, S);
        add_pc(S, c); S->known[c] = X.tt;
        S->forks++;
        g_spawn(o);  // other side re-executes the current instruction with the decision recorded
        return true;
    }
    S->known[c] = X.boolc(a == 1);
    return a == 1;
}

static void subst(E e, E by) {
    S->known[e] = by;
    for (auto& v : S->regs) if (v.e == e) v = fromE(by);
}
// resolve value e to a constant by forking on its feasible values
static u64 concretize(E e) {
    if (e->op == O_CONST) return e->c;
    auto it = S->known.find(e);
    if (it != S->known.end() && it->second->op == O_CONST) return it->second->c;
    for (int guard = 0; guard < 100000; guard++) {
        if (S->models.empty()) { std::vector<MP> o; if (feasible(S, X.tt, o) != 1) incomplete("no model"); }
        u64 v = X.eval(e, *S->models[0]);
        E is;
        if (e->op == O_VSET) { is = X.ff; for (size_t i = 0; i < e->vals.size(); i++) if (e->vals[i] == v) is = e->k[i]; }
        else is = X.bin(O_EQ, 1, 0, e, X.cst(e->w, v));
        R.vsetforks++;
        if (decide(is)) { subst(e, X.cst(e->w, v)); return v; }
    }
    incomplete("concretize"); return 0;
}
static u64 cval(const Val& v) { return v.e ? concretize(v.e) : v.c; }

static E prune(E e) {  // drop infeasible members of a value set
    if (e->op != O_VSET) return e;
    auto it = S->known.find(e); if (it != S->known.end()) return it->second;
    std::vector<std::pair<u64, E>> v; bool ch = false;
    for (size_t i = 0; i < e->k.size(); i++) {
        std::vector<MP> o;
        if (feasible(S, e->k[i], o) != 0) v.push_back({e->vals[i], e->k[i]}); else ch = true;
    }
    if (!ch) return e;
    E r;
    if (v.size() == 1) r = X.cst(e->w, v[0].first); else r = X.mkvset(e->w, v);
    subst(e, r);
    return r;
}

// ---- violations ------------------------------------------------------------------------------
static void record_violation(const std::string& label, const std::string& kind, const std::string& detail, MP m) {
    R.viol++;
    int& n = g_vcount[label];
    n++;
    if (n > 3) return;
    std::string j = "{\"label\":\"" + jesc(label) + "\",\"kind\":\"" + kind + "\",\"detail\":\"" + jesc(detail) + "\",\"inputs\":[";
    bool first = true;
    for (u32 v : S->inputs) { if (!first) j += ","; first = false; j += "[\"" + jesc(X.vars[v].name) + "\"," + std::to_string(X.var_value(*m, v)) + "]"; }
    j += "],\"trace\":[";
    first = true;
    for (size_t i = S->fr.size(); i-- > 0 && S->fr.size() - i < 12;) {
        if (!first) j += ","; first = false;
        std::string fn = demangle(S->fr[i].f->f->getName().str()); if (fn.size() > 160) fn.resize(160);
        j += "\"" + jesc(fn) + "\"";
    }
    j += "]}";
    R.violations.push_back(j);
}
static MP any_model() {
    std::vector<MP> o;
    if (!S->models.empty()) return S->models[0];
    if (feasible(S, X.tt, o) == 1) return o[0];
    return nullptr;
}
static std::string where() {
    for (size_t i = S->fr.size(); i-- > 0;) {
        auto& f = S->fr[i];
        if (f.pc < f.f->bbs[f.bb].ins.size()) {
            const Instruction* ll = f.f->bbs[f.bb].ins[f.pc].ll;
            if (ll) if (auto dl = ll->getDebugLoc()) { return std::string(dl->getFilename()) + ":" + std::to_string(dl.getLine()); }
        }
    }
    return "?";
}
static void violation_here(const std::string& kind, const std::string& detail) {
    MP m = any_model();
    if (!m) incomplete("no model for " + kind);
    record_violation(kind, kind, detail + " at " + where(), m);
    throw PathEnd{PE_VIOL};
}

// ---- memory access -----------------------------------------------------------------------------
static u32 new_obj(u64 size, u8 kind) {
    if (size > (64u << 20)) throw MemErr{"allocation too large"};
    Obj* o = new Obj(); o->size = (u32)size; o->kind = kind; o->b.assign(size, 0xCB);
    if (kind == 2 && !S->free_ids.empty()) { u32 id = S->free_ids.back(); S->free_ids.pop_back(); S->mem[id] = ObjRef(o); if (!S->acc.empty()) S->acc.erase(S->acc.lower_bound((u64)id << 32), S->acc.lower_bound((u64)(id + 1) << 32)); return id; }
    S->mem.push_back(ObjRef(o));
    return (u32)S->mem.size() - 1;
}
static bool valid(u64 addr, u64 n, u32& id, u32& off) {
    id = (u32)(addr >> 32); u64 o = (addr & 0xffffffffull) - OFF0;
    if (id == 0 || id >= S->mem.size() || !S->mem[id].p) return false;
    Obj* ob = S->mem[id].p;
    if (ob->kind == 3) return false;
    if (o > ob->size || o + n > ob->size) return false;
    off = (u32)o; return true;
}
static bool g_untracked = false;  // atomic accesses, initialisation guards
struct Untracked { Untracked() { g_untracked = true; } ~Untracked() { g_untracked = false; } };
static void violation_here(const std::string& kind, const std::string& detail);
static void track(u64 addr, u64 n, bool write) {
    const u32 me = 1u << (S->thr - 1);
    for (u64 i = 0; i < n; i++) {
        auto& a = S->acc[addr + i];
        const bool clash = S->locked ? ((a[1] & ~me) || (write && (a[0] & ~me)))
                                     : (((a[1] | a[3]) & ~me) || (write && ((a[0] | a[2]) & ~me)));
        a[(S->locked ? 2 : 0) + (write ? 1 : 0)] |= me;
        if (clash) violation_here("race", write ? "data race: another thread accesses what this one writes" : "data race: another thread writes what this one reads");
    }
}
static Obj* access(u64 addr, u64 n, bool write, u32& off) {
    u32 id;
    if (!valid(addr, n, id, off)) {
        id = (u32)(addr >> 32);
        const char* why = id == 0 ? "null or invalid pointer" : (id < S->mem.size() && !S->mem[id].p) ? "use after free" : "out of bounds";
        throw MemErr{std::string(write ? "write " : "read ") + why};
    }
    if (S->thr && !S->initialising && !g_untracked && !S->mem[id].p->ro && !S->mem[id].p->tls) track(addr, n, write);
    return write ? S->mem[id].w() : S->mem[id].p;
}
static inline size_t sym_lb(const Obj* o, u32 off) {
    size_t lo = 0, hi = o->sym.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (o->sym[m].first + o->sym[m].second->w / 8 <= off) lo = m + 1; else hi = m; }
    return lo;  // first entry ending after off
}
static Val known_or(E e) {
    auto it = S->known.find(e);
    if (it != S->known.end()) return fromE(it->second);
    return Val{0, e};
}
static Val load_conc(const Obj* o, u32 off, unsigned w) {
    unsigned n = (w + 7) / 8;
    size_t p = o->sym.empty() ? 0 : sym_lb(o, off);
    if (p >= o->sym.size() || o->sym[p].first >= off + n) {
        u64 v = 0; memcpy(&v, &o->b[off], n); return Val{v & maskw(w), nullptr};
    }
    if (o->sym[p].first == off && o->sym[p].second->w == n * 8) {
        Val r = known_or(o->sym[p].second);
        if (w != n * 8) r = r.e ? fromE(X.un(O_EXTRACT, w, 0, 0, r.e)) : Val{r.c & maskw(w), nullptr};
        return r;
    }
    std::vector<E> parts;
    u32 cur = off;
    while (cur < off + n) {
        if (p < o->sym.size() && o->sym[p].first <= cur) {
            u32 es = o->sym[p].first, ee = es + o->sym[p].second->w / 8;
            u32 to = std::min(ee, off + n);
            Val kv = known_or(o->sym[p].second);
            E src = toE(kv, o->sym[p].second->w);
            parts.push_back(X.un(O_EXTRACT, (to - cur) * 8, 0, (cur - es) * 8, src));
            cur = to; if (to == ee) p++;
        } else {
            u32 to = p < o->sym.size() ? std::min(o->sym[p].first, off + n) : off + n;
            u64 v = 0; memcpy(&v, &o->b[cur], to - cur);
            parts.push_back(X.cst((to - cur) * 8, v)); cur = to;
        }
    }
    E r = X.concat(parts);
    if (w != n * 8) r = X.un(O_EXTRACT, w, 0, 0, r);
    return fromE(r);
}
static void clear_sym(Obj* o, u32 off, u32 n) {
    if (o->sym.empty()) return;
    size_t p = sym_lb(o, off), q = p;
    std::vector<std::pair<u32, E>> ins;
    while (q < o->sym.size() && o->sym[q].first < off + n) {
        u32 es = o->sym[q].first, ee = es + o->sym[q].second->w / 8;
        E e = o->sym[q].second;
        if (es < off) ins.push_back({es, X.un(O_EXTRACT, (off - es) * 8, 0, 0, e)});
        if (ee > off + n) ins.push_back({off + n, X.un(O_EXTRACT, (ee - off - n) * 8, 0, (off + n - es) * 8, e)});
        q++;
    }
    if (p == q) return;
    o->sym.erase(o->sym.begin() + p, o->sym.begin() + q);
    // constants produced by extraction go to bytes
    size_t at = p;
    for (auto& x : ins) {
        if (x.second->op == O_CONST) { memcpy(&o->b[x.first], &x.second->c, x.second->w / 8); continue; }
        o->sym.insert(o->sym.begin() + at, x); at++;
    }
}
static void store_conc(Obj* o, u32 off, unsigned w, Val v) {
    unsigned n = (w + 7) / 8;
    clear_sym(o, off, n);
    if (!v.e) { u64 c = v.c & maskw(w); memcpy(&o->b[off], &c, n); return; }
    E e = v.e;
    if (w != n * 8) e = X.un(O_ZEXT, n * 8, 0, 0, e);
    if (e->op == O_CONST) { memcpy(&o->b[off], &e->c, n); return; }
    size_t p = sym_lb(o, off);
    o->sym.insert(o->sym.begin() + p, {off, e});
}
// possible concrete addresses of a symbolic pointer
static void addr_set(E a, u64 n, bool write, std::vector<std::pair<u64, E>>& out) {
    if (a->op != O_VSET) { a = X.flat(a); }
    { auto it = S->known.find(a); if (it != S->known.end()) a = it->second; }
    size_t fan = opt_addr_fan;
    if (a->op == O_VSET) {  // tables of constants are always read symbolically
        bool ro = true;
        for (auto v : a->vals) { u32 id = (u32)(v >> 32); if (id == 0 || id >= S->mem.size() || !S->mem[id].p || !S->mem[id].p->ro) { ro = false; break; } }
        if (ro) fan = 64;
    }
    if (a->op == O_VSET && a->vals.size() > fan) a = prune(a);
    if (a->op == O_CONST) { out.push_back({a->c, X.tt}); return; }
    if (a->op != O_VSET || a->vals.size() > fan) throw NeedConcretize{a};
    for (size_t i = 0; i < a->vals.size(); i++) {
        u32 id, off;
        if (!valid(a->vals[i], n, id, off)) {
            std::vector<MP> o;
            int r = feasible(S, a->k[i], o);
            if (r == 0) continue;
            if (r < 0) incomplete("solver unknown on address");
            // feasible invalid access: report with that model, then continue without it
            record_violation("memory", "memory", std::string(write ? "write" : "read") + " outside any live object at " + where(), o[0]);
            if (!decide(X.bnot(a->k[i]))) throw PathEnd{PE_VIOL};
            continue;
        }
        out.push_back({a->vals[i], a->k[i]});
    }
    if (out.empty()) incomplete("no valid address");
}
static Val load(const Val& p, u64 extra, unsigned w) {
    u32 off; unsigned n = (w + 7) / 8;
    if (!p.e) { Obj* o = access(p.c + extra, n, false, off); return load_conc(o, off, w); }
    E a = extra ? X.bin(O_ADD, 64, 0, p.e, X.cst(64, extra)) : p.e;
    for (E r; a->op != O_CONST && (r = X.lookup(a)) && r != a;) a = r;
    if (a->op == O_CONST) { Obj* o = access(a->c, n, false, off); return load_conc(o, off, w); }
    std::vector<std::pair<u64, E>> as; addr_set(a, n, false, as);
    std::vector<std::pair<u64, E>> vs; bool allv = true;
    std::vector<E> ls;
    for (auto& x : as) { Obj* o = access(x.first, n, false, off); E e = toE(load_conc(o, off, w), w); e = X.flat(e); ls.push_back(e); if (!X.isV(e)) allv = false; }
    if (as.size() == 1) return fromE(ls[0]);
    if (w == 1) { std::vector<E> g; for (size_t i = 0; i < as.size(); i++) g.push_back(X.band(as[i].second, ls[i])); return fromE(X.nary(false, g)); }
    if (allv) {
        for (size_t i = 0; i < as.size(); i++) {
            if (ls[i]->op == O_CONST) vs.push_back({ls[i]->c, as[i].second});
            else for (size_t j = 0; j < ls[i]->vals.size(); j++) vs.push_back({ls[i]->vals[j], X.band(as[i].second, ls[i]->k[j])});
        }
        try { return fromE(X.mkvset(w, vs)); } catch (Unsupported&) { throw NeedConcretize{a}; }
    }
    E r = ls.back();
    for (int i = (int)as.size() - 2; i >= 0; i--) r = X.ite(as[i].second, ls[i], r);
    return fromE(r);
}
static void store(const Val& p, u64 extra, unsigned w, const Val& v) {
    u32 off; unsigned n = (w + 7) / 8;
    if (!p.e) { Obj* o = access(p.c + extra, n, true, off); store_conc(o, off, w, v); return; }
    E a = extra ? X.bin(O_ADD, 64, 0, p.e, X.cst(64, extra)) : p.e;
    for (E r; a->op != O_CONST && (r = X.lookup(a)) && r != a;) a = r;
    if (a->op == O_CONST) { Obj* o = access(a->c, n, true, off); store_conc(o, off, w, v); return; }
    std::vector<std::pair<u64, E>> as; addr_set(a, n, true, as);
    if (as.size() == 1) { Obj* o = access(as[0].first, n, true, off); store_conc(o, off, w, v); return; }
    E nv = toE(v, w);
    std::vector<E> res;
    for (auto& x : as) { Obj* o = access(x.first, n, false, off); E old = X.flat(toE(load_conc(o, off, w), w)); try { res.push_back(X.ite(x.second, X.flat(nv), old)); } catch (Unsupported&) { throw NeedConcretize{a}; } }
    for (size_t i = 0; i < as.size(); i++) { Obj* o = access(as[i].first, n, true, off); store_conc(o, off, w, fromE(res[i])); }
}
static std::string read_cstr(u64 a) {
    std::string s; u32 off;
    for (int i = 0; i < 200; i++) { Obj* o = access(a + i, 1, false, off); Val v = load_conc(o, off, 8); if (v.e || !v.c) break; s += (char)v.c; }
    return s;
}
static void copy_mem(u64 d, u64 s, u64 n) {
    if (!n) return;
    u32 so, dofs;
    Obj* src = access(s, n, false, so);
    std::vector<u8> tmp(src->b.begin() + so, src->b.begin() + so + n);
    std::vector<std::pair<u32, E>> sy;
    if (!src->sym.empty()) {
        size_t p = sym_lb(src, so);
        while (p < src->sym.size() && src->sym[p].first < so + n) {
            u32 es = src->sym[p].first, ee = es + src->sym[p].second->w / 8;
            u32 a = std::max(es, so), b = std::min<u32>(ee, so + (u32)n);
            E e = X.un(O_EXTRACT, (b - a) * 8, 0, (a - es) * 8, toE(known_or(src->sym[p].second), src->sym[p].second->w));
            if (e->op == O_CONST) memcpy(&tmp[a - so], &e->c, b - a); else sy.push_back({a - so, e});
            p++;
        }
    }
    Obj* dst = access(d, n, true, dofs);
    clear_sym(dst, dofs, (u32)n);
    memcpy(&dst->b[dofs], tmp.data(), n);
    if (!sy.empty()) { size_t p = sym_lb(dst, dofs); for (auto& x : sy) x.first += dofs; dst->sym.insert(dst->sym.begin() + p, sy.begin(), sy.end()); }
}

static void take_edge(const Edge& e) {
    Frame& f = S->fr.back();
    size_t n = e.moves.size();
    if (n) {
        Val tmp[64]; std::vector<Val> big; Val* t = tmp;
        if (n > 64) { big.resize(n); t = big.data(); }
        for (size_t i = 0; i < n; i++) t[i] = rd(e.moves[i].second);
        for (size_t i = 0; i < n; i++) wr(e.moves[i].first, t[i]);
    }
    f.bb = e.bb; f.pc = 0;
    f.f->bbs[e.bb].visited = true;
}
static void push_frame(FuncD* fd, const std::vector<Val>& args, u32 retdst) {
    if (S->fr.size() > 400) violation_here("stack", "recursion deeper than 400 frames");
    Frame f; f.f = fd; f.bb = 0; f.pc = 0; f.base = (u32)S->regs.size(); f.retdst = retdst; f.allocas = (u32)S->allocas.size();
    S->regs.resize(S->regs.size() + fd->nregs, Val{0, nullptr});
    for (size_t i = 0; i < args.size() && i < fd->nregs; i++) S->regs[f.base + i] = args[i];
    S->fr.push_back(f);
    fd->bbs[0].visited = true;
}
static void path_done() { throw PathEnd{PE_DONE}; }

static Val do_un(Op op, unsigned w, unsigned sw, unsigned fw, const Val& a) {
    if (!a.e) { u8 aw[1] = {(u8)sw}; return Val{eval_op(op, w, fw, 0, &a.c, aw, 1), nullptr}; }
    E e = a.e; if (op != O_EXTRACT) e = X.flat(e);
    return fromE(X.un(op, w, fw, 0, e));
}
static Val do_bin(Op op, unsigned w, unsigned sw, unsigned fw, const Val& a, const Val& b) {
    if (!a.e && !b.e) { u64 x[2] = {a.c, b.c}; u8 aw[2] = {(u8)sw, (u8)sw}; return Val{eval_op(op, w, fw, 0, x, aw, 2), nullptr}; }
    return fromE(X.bin(op, w, fw, toE(a, sw), toE(b, sw)));
}
static Val do_select(const Val& c, const Val& a, const Val& b, unsigned w) {
    if (!c.e) return c.c ? a : b;
    if (!a.e && !b.e && a.c == b.c) return a;
    E ea = X.flat(toE(a, w)), eb = X.flat(toE(b, w));
    try { return fromE(X.ite(c.e, ea, eb)); } catch (Unsupported&) { return decide(c.e) ? a : b; }
}
static Val fcmp(unsigned p, unsigned fw, const Val& a, const Val& b) {
    auto B = [&](Op op, const Val& x, const Val& y) { return toE(do_bin(op, 1, fw, fw, x, y), 1); };
    switch (p) {
        case CmpInst::FCMP_FALSE: return Val{0, nullptr};
        case CmpInst::FCMP_TRUE: return Val{1, nullptr};
        case CmpInst::FCMP_OEQ: return fromE(B(O_FEQ, a, b));
        case CmpInst::FCMP_OLT: return fromE(B(O_FLT, a, b));
        case CmpInst::FCMP_OLE: return fromE(B(O_FLE, a, b));
        case CmpInst::FCMP_OGT: return fromE(B(O_FLT, b, a));
        case CmpInst::FCMP_OGE: return fromE(B(O_FLE, b, a));
        case CmpInst::FCMP_UNE: return fromE(X.bnot(B(O_FEQ, a, b)));
        case CmpInst::FCMP_UGE: return fromE(X.bnot(B(O_FLT, a, b)));
        case CmpInst::FCMP_UGT: return fromE(X.bnot(B(O_FLE, a, b)));
        case CmpInst::FCMP_ULE: return fromE(X.bnot(B(O_FLT, b, a)));
        case CmpInst::FCMP_ULT: return fromE(X.bnot(B(O_FLE, b, a)));
        case CmpInst::FCMP_UNO: return fromE(B(O_FUNO, a, b));
        case CmpInst::FCMP_ORD: return fromE(X.bnot(B(O_FUNO, a, b)));
        case CmpInst::FCMP_ONE: return fromE(X.band(X.bnot(B(O_FEQ, a, b)), X.bnot(B(O_FUNO, a, b))));
        case CmpInst::FCMP_UEQ: return fromE(X.bor(B(O_FEQ, a, b), B(O_FUNO, a, b)));
    }
    throw Unsupported{"fcmp"};
}

static void do_throw() {
    if (S->allow_throw) throw PathEnd{PE_THROW_OK};
    violation_here("exception", "exception thrown");
}

namespace std { namespace __detail { } }
#include <unordered_map>

static u32 find_var(const std::string& name, int kind, u32 dom, u8 w) {
    static std::map<std::tuple<u32, int, u32, u8>, u32> idx;
    auto key = std::make_tuple(S->seq, kind, dom, w);
    auto it = idx.find(key);
    u32 v;
    if (it != idx.end()) v = it->second;
    else { v = (u32)X.vars.size(); X.vars.push_back({name, kind, dom, w}); idx[key] = v; }
    S->seq++; S->inputs.push_back(v);
    return v;
}

// returns true when the builtin completed (pc advances)
static void builtin(const Inst& I) {
    auto A = [&](unsigned i) { return rd(I.ops[I.argslots[i].first]); };
    auto ret = [&](Val v) { if (I.dst != NOREG) wr(I.dst, v); };
    auto AW = [&](unsigned i) { return I.ow[I.argslots[i].first]; };
    switch (I.builtin) {
        case B_CHOICE: {
            Val n = A(1); u64 nn = cval(n);
            std::string nm = read_cstr(A(0).c);
            if (nn == 0) throw Unsupported{"sx_choice of empty domain"};
            if (nn == 1) { u32 v = find_var(nm, 0, 1, 32); (void)v; ret(Val{0, nullptr}); return; }
            if (nn > 64) throw Unsupported{"sx_choice domain > 64"};
            u32 v = find_var(nm, 0, (u32)nn, 32);
            std::vector<std::pair<u64, E>> vs;
            for (u64 i = 0; i < nn; i++) vs.push_back({i, X.mask(v, 1ull << i)});
            ret(fromE(X.mkvset(32, vs)));
            return;
        }
        case B_ANY: {
            std::string nm = read_cstr(A(0).c); int kind = (int)cval(A(1)); unsigned w = (unsigned)cval(A(2));
            u32 v = find_var(nm, kind == 2 ? 2 : 1, 0, (u8)w);
            E e = X.raw(O_VAR, w, 0, v, 0, {});
            if (kind == 2) {
                unsigned mb = w == 32 ? 23 : 52, eb = w == 32 ? 8 : 11;
                E ex = X.un(O_EXTRACT, eb, 0, mb, e);
                E fin = X.bnot(X.bin(O_EQ, 1, 0, ex, X.cst(eb, maskw(eb))));
                add_pc(S, fin);
            }
            if (w < 64) e = X.un(O_ZEXT, 64, 0, 0, e);
            ret(fromE(e));
            return;
        }
        case B_ASSUME: {
            Val c = A(0);
            if (!c.e) { if (!c.c) throw PathEnd{PE_ASSUME}; return; }
            E e = AW(0) == 1 ? c.e : X.bnot(X.bin(O_EQ, 1, 0, X.flat(c.e), X.cst(c.e->w, 0)));
            std::vector<MP> o; int r = feasible(S, e, o);
            if (r == 0) throw PathEnd{PE_ASSUME};
            if (r < 0) incomplete("solver unknown on assume");
            S->models = o; diversify(S->models, S); add_pc(S, e);
            return;
        }
        case B_ASSERT: {
            std::string label = read_cstr(A(1).c);
            Val c = A(0);
            auto& st = R.asserts[label];
            if (!c.e) {
                if (c.c) { st[0]++; return; }
                st[2]++;
                MP m = any_model(); if (!m) incomplete("no model");
                record_violation(label, "assert", "", m); throw PathEnd{PE_VIOL};
            }
            E e = AW(0) == 1 ? c.e : X.bnot(X.bin(O_EQ, 1, 0, X.flat(c.e), X.cst(c.e->w, 0)));
            E ne = X.bnot(e);
            if (ne == X.ff) { st[0]++; return; }
            std::vector<MP> o; int r = feasible(S, ne, o);
            if (r == 0) { st[1]++; S->known[e] = X.tt; return; }
            if (r < 0) { R.why_incomplete["solver unknown on assertion " + label]++; throw PathEnd{PE_INCOMPLETE}; }
            st[2]++;
            record_violation(label, "assert", "", o[0]);
            std::vector<MP> o2;
            if (feasible(S, e, o2) != 1) throw PathEnd{PE_VIOL};
            S->models = o2; add_pc(S, e);
            return;
        }
        case B_POSSIBLE: {
            auto& st = R.possible[read_cstr(A(1).c)];
            st[0]++;
            if (st[1]) return;
            Val c = A(0);
            if (!c.e) { if (c.c) st[1]++; return; }
            E e = AW(0) == 1 ? c.e : X.bnot(X.bin(O_EQ, 1, 0, X.flat(c.e), X.cst(c.e->w, 0)));
            std::vector<MP> o; int r = feasible(S, e, o);
            if (r == 1) st[1]++;
            if (r < 0) incomplete("solver unknown on possibility");
            return;
        }
        case B_REACH: { R.reach[read_cstr(A(0).c)]++; return; }
        case B_EMIT: { S->emits.push_back({(u8)AW(0), A(0)}); return; }
        case B_ALLOW_THROW: S->allow_throw = (int)cval(A(0)); return;
        case B_THREAD: { int t = (int)cval(A(0)); S->thr = t > 0 ? (u32)t : 0; if (t < 0) { S->acc.clear(); S->locked = false; } return; }
        case B_LOCK: S->locked = cval(A(0)) != 0; return;
        case B_CONCRETIZE: ret(Val{cval(A(0)), nullptr}); return;
        case B_MALLOC: case B_ALIGNED: {
            u64 n = cval(A(I.builtin == B_ALIGNED ? 1 : 0));
            if (n > (64u << 20)) { do_throw(); return; }
            ret(Val{mkaddr(new_obj(n, 1), 0), nullptr}); return;
        }
        case B_CALLOC: { u64 n = cval(A(0)) * cval(A(1)); u32 id = new_obj(n, 1); std::fill(S->mem[id].p->b.begin(), S->mem[id].p->b.end(), 0); ret(Val{mkaddr(id, 0), nullptr}); return; }
        case B_REALLOC: {
            u64 p = cval(A(0)), n = cval(A(1));
            u32 id = new_obj(n, 1);
            if (p) { u32 off; Obj* o = access(p, 0, false, off); u64 cp = std::min<u64>(n, o->size); copy_mem(mkaddr(id, 0), p, cp); S->mem[p >> 32] = ObjRef(); }
            ret(Val{mkaddr(id, 0), nullptr}); return;
        }
        case B_FREE: {
            u64 p = cval(A(0));
            if (!p) return;
            u32 id = (u32)(p >> 32);
            if (id >= S->mem.size() || !S->mem[id].p || S->mem[id].p->kind != 1 || (p & 0xffffffff) != OFF0) throw MemErr{"invalid or double free"};
            S->mem[id] = ObjRef(); return;
        }
        case B_MEMCPY: { u64 n = cval(A(2)); u64 d = cval(A(0)), s = cval(A(1)); if (n) copy_mem(d, s, n); ret(Val{d, nullptr}); return; }
        case B_MEMSET: {
            u64 d = cval(A(0)), n = cval(A(2)); Val v = A(1); u32 off;
            if (n) {
                Obj* o = access(d, n, true, off); clear_sym(o, off, (u32)n);
                if (!v.e) memset(&o->b[off], (int)(v.c & 255), n);
                else { Val b8 = AW(1) == 8 ? v : do_un(O_EXTRACT, 8, AW(1), 0, v); for (u64 i = 0; i < n; i++) store_conc(o, off + (u32)i, 8, b8); }
            }
            ret(Val{d, nullptr}); return;
        }
        case B_MEMCMP: {
            u64 a = cval(A(0)), b = cval(A(1)), n = cval(A(2));
            u32 oa, ob; if (n == 0) { ret(Val{0, nullptr}); return; }
            Obj* x = access(a, n, false, oa); Obj* y = access(b, n, false, ob);
            bool conc = true; int r = 0;
            std::vector<E> eqs;
            for (u64 i = 0; i < n; i++) {
                Val p = load_conc(x, oa + (u32)i, 8), q = load_conc(y, ob + (u32)i, 8);
                if (p.e || q.e) { conc = false; eqs.push_back(X.bin(O_EQ, 1, 0, toE(p, 8), toE(q, 8))); }
                else if (p.c != q.c) { if (conc) { r = p.c < q.c ? -1 : 1; break; } eqs.push_back(X.ff); break; }
            }
            if (conc) { ret(Val{(u64)(u32)r, nullptr}); return; }
            // equality result only: used as bcmp; order is decided by forking byte values
            std::string fn = I.fn->getName().str();
            if (fn == "bcmp") { ret(fromE(X.bool_to_bv(X.bnot(X.nary(true, eqs)), 32))); return; }
            for (u64 i = 0; i < n; i++) {
                u64 p = cval(load_conc(x, oa + (u32)i, 8)), q = cval(load_conc(y, ob + (u32)i, 8));
                if (p != q) { ret(Val{(u64)(u32)(p < q ? -1 : 1), nullptr}); return; }
            }
            ret(Val{0, nullptr}); return;
        }
        case B_STRLEN: { u64 a = cval(A(0)); u64 i = 0; u32 off; for (;; i++) { Obj* o = access(a + i, 1, false, off); if (cval(load_conc(o, off, 8)) == 0) break; } ret(Val{i, nullptr}); return; }
        case B_MEMCHR: { u64 a = cval(A(0)), ch = cval(A(1)) & 255, n = cval(A(2)); u32 off; for (u64 i = 0; i < n; i++) { Obj* o = access(a + i, 1, false, off); if (cval(load_conc(o, off, 8)) == ch) { ret(Val{a + i, nullptr}); return; } } ret(Val{0, nullptr}); return; }
        case B_STRCMP: { u64 a = cval(A(0)), b = cval(A(1)); u32 off; for (u64 i = 0;; i++) { Obj* o = access(a + i, 1, false, off); u64 p = cval(load_conc(o, off, 8)); Obj* o2 = access(b + i, 1, false, off); u64 q = cval(load_conc(o2, off, 8)); if (p != q) { ret(Val{(u64)(u32)(p < q ? -1 : 1), nullptr}); return; } if (!p) { ret(Val{0, nullptr}); return; } } }
        case B_THROW: do_throw(); return;
        case B_ABORT: violation_here("abort", "abort/terminate/exit reached"); return;
        case B_NOP: ret(Val{0, nullptr}); return;
        case B_NOPARG0: if (I.argslots.size()) ret(A(0)); return;
        case B_ZERO: ret(Val{0, nullptr}); return;
        case B_GUARD_ACQ: { Untracked u; Val v = load(A(0), 0, 8); if (!v.c) S->initialising++; ret(Val{v.c ? 0ull : 1ull, nullptr}); return; }
        case B_GUARD_REL: { Untracked u; if (S->initialising) S->initialising--; store(A(0), 0, 8, Val{1, nullptr}); return; }
        case B_FUN1: {
            unsigned w = AW(0); u32 id = g_bi_aux[I.fn]; Val a = A(0);
            if (!a.e) { u8 aw[1] = {(u8)w}; ret(Val{eval_op(O_FUN1, w, w, id, &a.c, aw, 1), nullptr}); return; }
            ret(fromE(X.un(O_FUN1, w, w, id, X.flat(a.e)))); return;
        }
        case B_SQRT: case B_FABS: case B_FLOOR: case B_CEIL: case B_TRUNC: case B_ROUND: case B_RINT: {
            Op op = I.builtin == B_SQRT ? O_FSQRT : I.builtin == B_FABS ? O_FABS : I.builtin == B_FLOOR ? O_FFLOOR : I.builtin == B_CEIL ? O_FCEIL : I.builtin == B_TRUNC ? O_FTRUNCI : I.builtin == B_ROUND ? O_FROUND : O_FRINT;
            for (u32 l = 0; l < I.argslots[0].second; l++) { Val a = rd(I.ops[I.argslots[0].first + l]); wr(I.dst + l, do_un(op, AW(0), AW(0), AW(0), a)); }
            return;
        }
        case B_POW: case B_FMOD: case B_FMIN: case B_FMAX: case B_COPYSIGN: {
            Op op = I.builtin == B_POW ? O_FUN2 : I.builtin == B_FMOD ? O_FREM : I.builtin == B_FMIN ? O_FMIN : I.builtin == B_FMAX ? O_FMAX : O_FCOPYSIGN;
            ret(do_bin(op, AW(0), AW(0), AW(0), A(0), A(1))); return;
        }
        case B_POWI: {
            u64 e = cval(A(1)); Val a = A(0); unsigned w = AW(0);
            Val y = Val{w == 32 ? fb((float)(i64)(int)e) : db((double)(int)e), nullptr};
            ret(do_bin(O_FUN2, w, w, w, a, y)); return;
        }
        case B_HYPOT: {  // in double precision without rescaling (replays decide)
            unsigned w = AW(0);
            auto up = [&](Val v) { return w == 32 ? do_un(O_FEXT, 64, 32, 32, v) : v; };
            Val a = up(A(0)), b = up(A(1));
            Val r = do_un(O_FSQRT, 64, 64, 64, do_bin(O_FADD, 64, 64, 64, do_bin(O_FMUL, 64, 64, 64, a, a), do_bin(O_FMUL, 64, 64, 64, b, b)));
            ret(w == 32 ? do_un(O_FTRUNC, 32, 64, 64, r) : r); return;
        }
        case B_LROUND: { unsigned w = AW(0); Val r = do_un(O_FROUND, w, w, w, A(0)); ret(do_un(O_FTOSI, 64, w, w, r)); return; }
        case B_FMULADD: { unsigned w = AW(0); Val m = do_bin(O_FMUL, w, w, w, A(0), A(1)); ret(do_bin(O_FADD, w, w, w, m, A(2))); return; }
        case B_UMIN: case B_UMAX: case B_SMIN: case B_SMAX: {
            for (u32 l = 0; l < I.argslots[0].second; l++) {
                Val a = rd(I.ops[I.argslots[0].first + l]), b = rd(I.ops[I.argslots[1].first + l]); unsigned w = AW(0);
                Op op = (I.builtin == B_UMIN || I.builtin == B_UMAX) ? O_ULT : O_SLT;
                Val c = do_bin(op, 1, w, 0, a, b);
                bool mn = I.builtin == B_UMIN || I.builtin == B_SMIN;
                wr(I.dst + l, mn ? do_select(c, a, b, w) : do_select(c, b, a, w));
            }
            return;
        }
        case B_ABS: { Val a = A(0); unsigned w = AW(0); Val c = do_bin(O_SLT, 1, w, 0, a, Val{0, nullptr}); Val n = do_bin(O_SUB, w, w, 0, Val{0, nullptr}, a); ret(do_select(c, n, a, w)); return; }
        case B_CTPOP: ret(Val{(u64)__builtin_popcountll(cval(A(0))), nullptr}); return;
        case B_CTLZ: { unsigned w = AW(0); u64 v = cval(A(0)); ret(Val{v ? (u64)(__builtin_clzll(v) - (64 - w)) : w, nullptr}); return; }
        case B_CTTZ: { unsigned w = AW(0); u64 v = cval(A(0)); ret(Val{v ? (u64)__builtin_ctzll(v) : w, nullptr}); return; }
        case B_BSWAP: { unsigned w = AW(0); u64 v = cval(A(0)); ret(Val{__builtin_bswap64(v) >> (64 - w), nullptr}); return; }
        case B_FSHL: case B_FSHR: {
            unsigned w = AW(0); u64 a = cval(A(0)), b = cval(A(1)), s = cval(A(2)) % w;
            u64 r;
            if (I.builtin == B_FSHL) r = s ? ((a << s) | (b >> (w - s))) : a; else r = s ? ((a << (w - s)) | (b >> s)) : b;
            ret(Val{r & maskw(w), nullptr}); return;
        }
        case B_UADDO: case B_USUBO: case B_UMULO: case B_SADDO: case B_SSUBO: case B_SMULO: {
            unsigned w = AW(0); Val a = A(0), b = A(1);
            if (I.builtin == B_UADDO) { Val r = do_bin(O_ADD, w, w, 0, a, b); wr(I.dst, r); wr(I.dst + 1, do_bin(O_ULT, 1, w, 0, r, a)); return; }
            if (I.builtin == B_USUBO) { wr(I.dst, do_bin(O_SUB, w, w, 0, a, b)); wr(I.dst + 1, do_bin(O_ULT, 1, w, 0, a, b)); return; }
            u64 x = cval(a), y = cval(b); i64 sx = sext64(x, w), sy = sext64(y, w);
            __int128 r; bool o;
            if (I.builtin == B_UMULO) { unsigned __int128 q = (unsigned __int128)x * y; o = q > maskw(w); r = (__int128)q; }
            else { r = I.builtin == B_SADDO ? (__int128)sx + sy : I.builtin == B_SSUBO ? (__int128)sx - sy : (__int128)sx * sy; o = r != (__int128)sext64((u64)r & maskw(w), w); }
            wr(I.dst, Val{(u64)r & maskw(w), nullptr}); wr(I.dst + 1, Val{(u64)o, nullptr}); return;
        }
        case B_USUBSAT: { unsigned w = AW(0); Val a = A(0), b = A(1); Val c = do_bin(O_ULT, 1, w, 0, a, b); ret(do_select(c, Val{0, nullptr}, do_bin(O_SUB, w, w, 0, a, b), w)); return; }
        case B_UADDSAT: { unsigned w = AW(0); Val a = A(0), b = A(1); Val s = do_bin(O_ADD, w, w, 0, a, b); Val c = do_bin(O_ULT, 1, w, 0, s, a); ret(do_select(c, Val{maskw(w), nullptr}, s, w)); return; }
        case B_IDENT: ret(A(0)); return;
        case B_OBJSIZE: ret(Val{maskw(I.dw[0]), nullptr}); return;
        case B_ISCONST: ret(Val{0, nullptr}); return;
        case B_ISFPCLASS: {
            unsigned fw = AW(0); u64 t = cval(A(1)); Val a = A(0);
            E r = X.ff; E ae = toE(a, fw);
            u64 infb = fw == 32 ? 0x7f800000ull : 0x7ff0000000000000ull, sg = 1ull << (fw - 1);
            if (t & 3) { if ((t & 3) == 3) r = X.bor(r, X.bin(O_FUNO, 1, fw, ae, ae)); else throw Unsupported{"is.fpclass"}; t &= ~3ull; }
            if (t & 0x4) { r = X.bor(r, X.bin(O_EQ, 1, 0, ae, X.cst(fw, infb | sg))); t &= ~4ull; }
            if (t & 0x200) { r = X.bor(r, X.bin(O_EQ, 1, 0, ae, X.cst(fw, infb))); t &= ~0x200ull; }
            if (t & 0x20) { r = X.bor(r, X.bin(O_EQ, 1, 0, ae, X.cst(fw, sg))); t &= ~0x20ull; }
            if (t & 0x40) { r = X.bor(r, X.bin(O_EQ, 1, 0, ae, X.cst(fw, 0))); t &= ~0x40ull; }
            const u64 norm = fw == 32 ? 1ull << 23 : 1ull << 52;   // the others: intervals of bit patterns
            auto within = [&](u64 lo, u64 hi) { r = X.bor(r, X.band(toE(do_bin(O_ULE, 1, fw, 0, Val{lo, nullptr}, a), 1), toE(do_bin(O_ULE, 1, fw, 0, a, Val{hi, nullptr}), 1))); };
            if ((t & 0x180) == 0x180) { within(1, infb - 1); t &= ~0x180ull; }
            if ((t & 0x18) == 0x18) { within(sg + 1, sg + infb - 1); t &= ~0x18ull; }
            if (t & 0x80) { within(1, norm - 1); t &= ~0x80ull; }
            if (t & 0x100) { within(norm, infb - 1); t &= ~0x100ull; }
            if (t & 0x10) { within(sg + 1, sg + norm - 1); t &= ~0x10ull; }
            if (t & 0x8) { within(sg + norm, sg + infb - 1); t &= ~0x8ull; }
            if (t) throw Unsupported{"is.fpclass"};
            ret(fromE(r)); return;
        }
        case B_VRED: {
            Intrinsic::ID id = I.fn->getIntrinsicID();
            bool isf = id == Intrinsic::vector_reduce_fadd;
            auto sl = I.argslots[isf ? 1 : 0]; unsigned w = I.ow[sl.first];
            Val acc = isf ? A(0) : rd(I.ops[sl.first]);
            for (u32 i = isf ? 0 : 1; i < sl.second; i++) {
                Val v = rd(I.ops[sl.first + i]);
                switch (id) {
                    case Intrinsic::vector_reduce_add: acc = do_bin(O_ADD, w, w, 0, acc, v); break;
                    case Intrinsic::vector_reduce_fadd: acc = do_bin(O_FADD, w, w, w, acc, v); break;
                    case Intrinsic::vector_reduce_or: acc = do_bin(O_BOR, w, w, 0, acc, v); break;
                    case Intrinsic::vector_reduce_and: acc = do_bin(O_BAND, w, w, 0, acc, v); break;
                    case Intrinsic::vector_reduce_umax: acc = do_select(do_bin(O_ULT, 1, w, 0, acc, v), v, acc, w); break;
                    default: acc = do_select(do_bin(O_ULT, 1, w, 0, acc, v), acc, v, w); break;
                }
            }
            ret(acc); return;
        }
        case B_NEEDREHASH: case B_NEXTBKT: {
            u64 p = cval(A(0));
            std::__detail::_Prime_rehash_policy pol;
            static_assert(sizeof(pol) == 16, "layout");
            u8 raw[16];
            for (int i = 0; i < 16; i++) raw[i] = (u8)cval(load(Val{p, nullptr}, i, 8));
            memcpy((void*)&pol, raw, 16);
            if (I.builtin == B_NEXTBKT) { u64 r = pol._M_next_bkt(cval(A(1))); ret(Val{r, nullptr}); }
            else { auto r = pol._M_need_rehash(cval(A(1)), cval(A(2)), cval(A(3))); wr(I.dst, Val{(u64)r.first, nullptr}); wr(I.dst + 1, Val{(u64)r.second, nullptr}); }
            memcpy(raw, (void*)&pol, 16);
            for (int i = 0; i < 16; i++) store(Val{p, nullptr}, i, 8, Val{raw[i], nullptr});
            return;
        }
        case B_HASHBYTES: {
            u64 p = cval(A(0)), n = cval(A(1)), sd = cval(A(2)); std::vector<char> b(n + 1);
            for (u64 i = 0; i < n; i++) b[i] = (char)cval(load(Val{p, nullptr}, i, 8));
            ret(Val{std::_Hash_bytes(b.data(), n, sd), nullptr}); return;
        }
        default: throw Unsupported{"external " + (I.fn ? I.fn->getName().str() : std::string("?"))};
    }
}

static void exec(const Inst& I) {
    Frame& f = S->fr.back();
    switch (I.kind) {
        case K_BIN:
            for (u32 l = 0; l < I.lanes; l++) {
                Val a = rd(I.ops[l]), b = rd(I.ops[I.lanes + l]);
                if (I.op == O_UDIV || I.op == O_SDIV || I.op == O_UREM || I.op == O_SREM) {
                    if (!b.e) { if (!b.c) violation_here("division", "integer division by zero"); }
                    else { E zr = X.bin(O_EQ, 1, 0, b.e, X.cst(I.w, 0)); if (zr != X.ff && decide(zr)) violation_here("division", "integer division by zero"); }
                }
                wr(I.dst + l, do_bin(I.op, I.w, I.w, I.fw, a, b));
            }
            f.pc++; return;
        case K_ICMP:
            for (u32 l = 0; l < I.lanes; l++) {
                Val a = rd(I.ops[l]), b = rd(I.ops[I.lanes + l]);
                Val r = I.swap ? do_bin(I.op, 1, I.sw, 0, b, a) : do_bin(I.op, 1, I.sw, 0, a, b);
                if (I.neg) r = r.e ? fromE(X.bnot(r.e)) : Val{!r.c, nullptr};
                wr(I.dst + l, r);
            }
            f.pc++; return;
        case K_FCMP:
            for (u32 l = 0; l < I.lanes; l++) wr(I.dst + l, fcmp(I.fpred, I.fw, rd(I.ops[l]), rd(I.ops[I.lanes + l])));
            f.pc++; return;
        case K_UN:
            for (u32 l = 0; l < I.lanes; l++) wr(I.dst + l, do_un(I.op, I.w, I.sw, I.fw, rd(I.ops[l])));
            f.pc++; return;
        case K_GEP: {
            Val p = rd(I.ops[0]);
            bool sym = p.e != nullptr;
            u64 c = p.c + (u64)I.imm;
            for (auto& t : I.terms) { Val v = rd(t.o); if (v.e) sym = true; else c += (u64)sext64(v.c, t.w) * t.scale; }
            if (!sym) { wr(I.dst, Val{c, nullptr}); f.pc++; return; }
            E acc = nullptr;
            for (auto& t : I.terms) {
                Val v = rd(t.o); if (!v.e) continue;
                E e = v.e; if (t.w < 64) e = X.un(O_SEXT, 64, 0, 0, X.flat(e));
                e = X.bin(O_MUL, 64, 0, e, X.cst(64, t.scale));
                acc = acc ? X.bin(O_ADD, 64, 0, acc, e) : e;
            }
            if (p.e) { E pe = X.bin(O_ADD, 64, 0, p.e, X.cst(64, c)); acc = acc ? X.bin(O_ADD, 64, 0, pe, acc) : pe; }
            else acc = X.bin(O_ADD, 64, 0, acc, X.cst(64, c));
            wr(I.dst, fromE(acc)); f.pc++; return;
        }
        case K_LOAD: {
            Val p = rd(I.ops[0]);
            std::unique_ptr<Untracked> u; if (S->thr && I.ll->isAtomic()) u.reset(new Untracked());
            if (I.offs.size() == 1) { wr(I.dst, load(p, 0, I.dw[0])); }
            else { std::vector<Val> t; for (size_t i = 0; i < I.offs.size(); i++) t.push_back(load(p, I.offs[i], I.dw[i])); for (size_t i = 0; i < t.size(); i++) wr(I.dst + (u32)i, t[i]); }
            f.pc++; return;
        }
        case K_STORE: {
            Val p = rd(I.ops.back());
            std::unique_ptr<Untracked> u; if (S->thr && I.ll->isAtomic()) u.reset(new Untracked());
            for (size_t i = 0; i < I.offs.size(); i++) store(p, I.offs[i], I.ow[i], rd(I.ops[i]));
            f.pc++; return;
        }
        case K_ALLOCA: {
            u64 n = cval(rd(I.ops[0])) * (u64)I.imm;
            u32 id = new_obj(n, 2); S->allocas.push_back(id);
            wr(I.dst, Val{mkaddr(id, 0), nullptr}); f.pc++; return;
        }
        case K_SELECT: {
            u32 n = (u32)I.dw.size(), cl = I.lanes;
            std::vector<Val> t;
            for (u32 i = 0; i < n; i++) { Val c = rd(I.ops[cl == 1 ? 0 : i]); t.push_back(do_select(c, rd(I.ops[cl + i]), rd(I.ops[cl + n + i]), I.dw[i])); }
            for (u32 i = 0; i < n; i++) wr(I.dst + i, t[i]);
            f.pc++; return;
        }
        case K_COPY: {
            if (I.ops.size() == 1) wr(I.dst, rd(I.ops[0]));
            else { std::vector<Val> t; for (auto& o : I.ops) t.push_back(rd(o)); for (size_t i = 0; i < t.size(); i++) wr(I.dst + (u32)i, t[i]); }
            f.pc++; return;
        }
        case K_BITCAST: {
            if (I.ops.size() == 1 && I.dw.size() == 1) { wr(I.dst, rd(I.ops[0])); f.pc++; return; }
            // regroup lanes
            std::vector<E> src; for (size_t i = 0; i < I.ops.size(); i++) src.push_back(toE(rd(I.ops[i]), I.ow[i]));
            unsigned bit = 0; std::vector<Val> out;
            for (size_t j = 0; j < I.dw.size(); j++) {
                unsigned lo = bit, hi = bit + I.dw[j], pos = 0; std::vector<E> parts;
                for (auto s : src) { unsigned pl = pos, ph = pos + s->w; pos = ph; unsigned l = std::max(lo, pl), h = std::min(hi, ph); if (l < h) parts.push_back(X.un(O_EXTRACT, h - l, 0, l - pl, s)); }
                out.push_back(fromE(X.concat(parts))); bit = hi;
            }
            for (size_t j = 0; j < out.size(); j++) wr(I.dst + (u32)j, out[j]);
            f.pc++; return;
        }
        case K_BR: take_edge(I.edges[0]); return;
        case K_CBR: {
            Val c = rd(I.ops[0]);
            bool t = c.e ? decide(c.e) : (c.c != 0);
            take_edge(I.edges[t ? 0 : 1]); return;
        }
        case K_SWITCH: {
            Val c = rd(I.ops[0]);
            if (!c.e) {
                for (size_t i = 0; i < I.cases.size(); i++) if (I.cases[i] == c.c) { take_edge(I.edges[i + 1]); return; }
                take_edge(I.edges[0]); return;
            }
            E ce = X.flat(c.e);
            for (size_t i = 0; i < I.cases.size(); i++) if (decide(X.bin(O_EQ, 1, 0, ce, X.cst(ce->w, I.cases[i])))) { take_edge(I.edges[i + 1]); return; }
            take_edge(I.edges[0]); return;
        }
        case K_RET: {
            std::vector<Val> t; for (auto& o : I.ops) t.push_back(rd(o));
            Frame fr = f;
            while (S->allocas.size() > fr.allocas) { u32 id = S->allocas.back(); S->allocas.pop_back(); S->mem[id] = ObjRef(); S->free_ids.push_back(id); }
            S->regs.resize(fr.base);
            S->fr.pop_back();
            if (S->fr.empty()) path_done();
            if (fr.retdst != NOREG) for (size_t i = 0; i < t.size(); i++) wr(fr.retdst + (u32)i, t[i]);
            S->fr.back().pc++;
            return;
        }
        case K_CALL: {
            Function* fn = I.fn; int bi = I.builtin;
            if (!fn) {
                u64 a = cval(rd(I.ops.back()));
                auto it = g_fn_by_addr.find(a);
                if (it == g_fn_by_addr.end()) throw MemErr{"call through invalid function pointer"};
                fn = it->second; bi = builtin_of(fn);
            }
            if (bi != B_NONE) {
                if (!I.fn) { Inst J = I; J.fn = fn; J.builtin = bi; builtin(J); }
                else builtin(I);
                S->fr.back().pc++;
                return;
            }
            FuncD* fd = get_func(fn);
            std::vector<Val> args;
            for (size_t i = 0; i < I.argslots.size(); i++) {
                if (i >= fd->argcount.size()) break;
                if (I.byval[i]) {
                    u64 src = cval(rd(I.ops[I.argslots[i].first]));
                    u32 id = new_obj(I.byval[i], 2); S->allocas.push_back(id);
                    copy_mem(mkaddr(id, 0), src, I.byval[i]);
                    args.push_back(Val{mkaddr(id, 0), nullptr});
                } else for (u32 k = 0; k < I.argslots[i].second; k++) args.push_back(rd(I.ops[I.argslots[i].first + k]));
            }
            push_frame(fd, args, I.dst);
            return;
        }
        case K_UNREACH: violation_here("unreachable", "undefined behaviour: unreachable code executed"); return;
        case K_NOP: f.pc++; return;
        default: {
            std::string s; raw_string_ostream os(s); I.ll->print(os);
            throw Unsupported{"instruction " + std::string(I.ll->getOpcodeName())};
        }
    }
}

static void sample_path() {
    R.seen_samples++;
    size_t at;
    if (R.samples.size() < (size_t)opt_samples) { at = R.samples.size(); R.samples.push_back(""); }
    else { u64 k = rnd() % R.seen_samples; if (k >= (u64)opt_samples) return; at = k; }
    if (S->models.empty()) { R.samples[at] = "null"; return; }
    Model& m = *S->models[rnd() % S->models.size()];
    std::string j = "{\"inputs\":[";
    for (size_t i = 0; i < S->inputs.size(); i++) { if (i) j += ","; j += "[\"" + jesc(X.vars[S->inputs[i]].name) + "\"," + std::to_string(X.var_value(m, S->inputs[i])) + "]"; }
    j += "],\"emits\":[";
    for (size_t i = 0; i < S->emits.size(); i++) { if (i) j += ","; auto& p = S->emits[i]; j += std::to_string(p.second.e ? X.eval(p.second.e, m) : p.second.c); }
    j += "]}";
    R.samples[at] = j;
}

static bool g_stop_after_fork = false;  // BFS prefix: stop when the state forked

// run S until it ends; returns true when the path ended, false if suspended (prefix mode)
static bool run_state() {
    int forks0 = S->forks;
    X.known = &S->known;
    u64 steps = 0;
    while (true) {
        if (g_stop_after_fork && S->forks != forks0) return false;
        if ((++steps & 0xfff) == 0 && now_s() > g_deadline) { g_timeout = true; R.why_incomplete["time budget exhausted"]++; R.incomplete++; return true; }
        if (X.nodes.size() > 60000000) { g_timeout = true; R.why_incomplete["expression budget exhausted"]++; R.incomplete++; return true; }
        Frame& f = S->fr.back();
        BB& bb = f.f->bbs[f.bb];
        const Inst& I = bb.ins[f.pc];
        R.inst++;
        if (opt_trace && I.ll) { std::string s; raw_string_ostream os(s); I.ll->print(os); fprintf(stderr, "[%zu] %s:  %s\n", S->fr.size(), f.f->f->getName().str().substr(0, 60).c_str(), s.c_str()); }
        try {
            if (++S->ninst > opt_max_inst) { violation_here("hang", "more than " + std::to_string(opt_max_inst) + " instructions"); }
            try { exec(I); }
            catch (NeedConcretize& nc) {
                bool seen = S->known.count(nc.e) != 0;
                E p = prune(nc.e);
                if (seen && p->op == O_CONST) throw Unsupported{"value set does not resolve"};
                if (p == nc.e || seen) { u64 v = concretize(p); if (p != nc.e) subst(nc.e, X.cst(p->w, v)); }
            }
            catch (MemErr& me) { violation_here("memory", me.what); }
        } catch (PathEnd& pe) {
            switch (pe.why) {
                case PE_DONE: R.paths++; sample_path(); break;
                case PE_ASSUME: R.assumed++; break;
                case PE_THROW_OK: R.throws++; sample_path(); break;
                case PE_VIOL: break;
                case PE_INCOMPLETE: R.incomplete++; break;
            }
            return true;
        } catch (Unsupported& u) {
            R.why_incomplete["unsupported: " + u.what + " at " + where()]++; R.incomplete++;
            return true;
        } catch (z3::exception& ze) {
            R.why_incomplete[std::string("z3: ") + ze.msg()]++; R.incomplete++;
            return true;
        }
    }
}

// =============================================================================================
// module set-up
// =============================================================================================
static void init_bytes(const Constant* c, Obj* o, u64 off) {
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto* ds = dyn_cast<ConstantDataSequential>(c)) { StringRef r = ds->getRawDataValues(); memcpy(&o->b[off], r.data(), r.size()); return; }
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) init_bytes(c->getAggregateElement(i), o, off + sl->getElementOffset(i)); return; }
    if (t->isArrayTy()) { u64 s = DL->getTypeAllocSize(t->getArrayElementType()); for (u64 i = 0; i < t->getArrayNumElements(); i++) init_bytes(c->getAggregateElement((unsigned)i), o, off + i * s); return; }
    if (t->isVectorTy()) { u64 s = DL->getTypeStoreSize(cast<VectorType>(t)->getElementType()); for (u64 i = 0; i < cast<FixedVectorType>(t)->getNumElements(); i++) init_bytes(c->getAggregateElement((unsigned)i), o, off + i * s); return; }
    u64 v; if (const_scalar(c, v)) { u64 n = DL->getTypeStoreSize(t); if (n <= 8) memcpy(&o->b[off], &v, n); }
}

static void write_json(FILE* f) {
    fprintf(f, "{\"paths\":%llu,\"assumed_out\":%llu,\"throws\":%llu,\"violating\":%llu,\"incomplete\":%llu,\"inst\":%llu,\"forks\":%llu,\"vsetforks\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"nodes\":%zu,", (unsigned long long)R.paths, (unsigned long long)R.assumed, (unsigned long long)R.throws, (unsigned long long)R.viol, (unsigned long long)R.incomplete, (unsigned long long)R.inst, (unsigned long long)R.forks, (unsigned long long)R.vsetforks, (unsigned long long)z.n_sat, (unsigned long long)z.n_unsat, (unsigned long long)z.n_unknown, z.t, X.nodes.size());
    auto mp = [&](const char* n, std::map<std::string, u64>& m) { fprintf(f, "\"%s\":{", n); bool first = true; for (auto& p : m) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); first = false; } fprintf(f, "},"); };
    mp("why_incomplete", R.why_incomplete); mp("reach", R.reach);
    bool first = true;
    fprintf(f, "\"possible\":{"); for (auto& p : R.possible) { fprintf(f, "%s\"%s\":[%llu,%llu]", first ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second[0], (unsigned long long)p.second[1]); first = false; }
    fprintf(f, "},"); first = true;
    fprintf(f, "\"asserts\":{");
    for (auto& p : R.asserts) { fprintf(f, "%s\"%s\":[%llu,%llu,%llu]", first ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second[0], (unsigned long long)p.second[1], (unsigned long long)p.second[2]); first = false; }
    fprintf(f, "},\"violations\":["); for (size_t i = 0; i < R.violations.size(); i++) fprintf(f, "%s%s", i ? "," : "", R.violations[i].c_str());
    fprintf(f, "],\"samples\":["); for (size_t i = 0; i < R.samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", R.samples[i].c_str());
    fprintf(f, "],\"functions\":[");
    std::set<std::string> fs;
    for (auto& p : g_funcs) for (auto& b : p.second->bbs) if (b.visited) for (auto* sp : b.subs) {
        std::string file = sp->getFilename().str();
        size_t k = file.find("ffcl/"); if (k == std::string::npos) continue;
        fs.insert(file.substr(k) + ":" + sp->getName().str());
    }
    first = true; for (auto& s : fs) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
    fprintf(f, "]}\n");
}

int main(int argc, char** argv) {
    std::string bc, entry, out;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") entry = nx();
        else if (a == "--out") out = nx();
        else if (a == "--budget") opt_budget = atof(nx().c_str());
        else if (a == "--max-inst") opt_max_inst = strtoull(nx().c_str(), 0, 10);
        else if (a == "--jobs") opt_jobs = atoi(nx().c_str());
        else if (a == "--prefix") opt_prefix = atoi(nx().c_str());
        else if (a == "--models") opt_models = atoi(nx().c_str());
        else if (a == "--samples") opt_samples = atoi(nx().c_str());
        else if (a == "--vset-cap") X.vset_cap = atoi(nx().c_str());
        else if (a == "--pair-cap") X.vset_pair_cap = atoi(nx().c_str());
        else if (a == "--seed") g_rng ^= mix64(strtoull(nx().c_str(), 0, 10));
        else if (a == "--fan") opt_addr_fan = atoi(nx().c_str());
        else if (a == "--trace") opt_trace = true;
        else bc = a;
    }
    SMDiagnostic err;
    g_mod = parseIRFile(bc, err, g_ctx);
    if (!g_mod) { err.print("symx", errs()); return 2; }
    DL = &g_mod->getDataLayout();
    double t0 = now_s();
    g_deadline = t0 + opt_budget;
    z.init();

    State* s0 = new State(); S = s0;
    s0->mem.push_back(ObjRef());  // id 0: null
    // addresses first
    std::vector<std::pair<GlobalVariable*, u32>> gvs;
    for (auto& g : g_mod->globals()) {
        if (g.getName().starts_with("llvm.")) continue;
        u64 sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : 64;
        if (g.isDeclaration() && sz < 4096) sz = 4096;  // external data (streams, type_info tables): opaque storage
        u32 id = new_obj(sz, 0); std::fill(s0->mem[id].p->b.begin(), s0->mem[id].p->b.end(), 0);
        s0->mem[id].p->ro = g.isConstant() && g.hasInitializer();
        s0->mem[id].p->tls = g.isThreadLocal();
        g_addr[&g] = mkaddr(id, 0); gvs.push_back({&g, id});
        if (g.getName() == "__libc_single_threaded") s0->mem[id].p->b[0] = g_mod->getFunction("__kmpc_fork_call") ? 0 : 1;
        if (g.getName() == "_ZSt4cout" || g.getName() == "_ZSt4cerr" || g.getName() == "_ZSt4clog") {
            // enough of a stream for what is inlined of it: a zero virtual base offset and a character type that widens to itself
            auto put = [&](u64 at, u64 v) { for (int k = 0; k < 8; k++) s0->mem[id].p->b[at + k] = (u8)(v >> (8 * k)); };
            put(0, mkaddr(id, 3072)); put(240, mkaddr(id, 1024)); s0->mem[id].p->b[1024 + 56] = 1;
        }
    }
    for (auto& f : *g_mod) { u32 id = new_obj(16, 3); u64 a = mkaddr(id, 0); g_addr[&f] = a; g_fn_by_addr[a] = &f; }
    for (auto& g : gvs) if (g.first->hasInitializer()) init_bytes(g.first->getInitializer(), s0->mem[g.second].p, 0);

    std::deque<State*> work;
    std::vector<State*> stack;
    bool prefix = true;
    g_spawn = [&](State* o) { if (prefix) work.push_back(o); else stack.push_back(o); };

    for (int i = 0; i < opt_models; i++) s0->models.push_back(new_model(mix64(i + 1)));
    // static constructors
    if (auto* gc = g_mod->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
        for (auto& o : ca->operands()) {
            auto* cs = cast<ConstantStruct>(o);
            Function* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts());
            if (!f || f->isDeclaration()) continue;
            push_frame(get_func(f), {}, NOREG);
            u64 p = R.paths; run_state();
            if (R.paths == p) { fprintf(stderr, "static constructor failed\n"); }
            R.paths = 0; R.samples.clear(); R.seen_samples = 0; s0->ninst = 0;
        }
    }
    Function* ef = g_mod->getFunction(entry);
    if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
    push_frame(get_func(ef), {}, NOREG);
    work.push_back(s0);
    g_stop_after_fork = true;
    while (!work.empty() && work.size() < opt_prefix && !g_timeout) {
        S = work.front(); work.pop_front();
        bool ended = run_state();
        if (ended) { delete S; } else work.push_back(S);
    }
    prefix = false; g_stop_after_fork = false;
    std::vector<std::string> parts;
    if (!work.empty() && !g_timeout) {
        std::vector<State*> items(work.begin(), work.end());
        for (size_t i = items.size(); i > 1; i--) std::swap(items[i - 1], items[rnd() % i]);
        auto* ctr = (std::atomic<u64>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        new (ctr) std::atomic<u64>(0);
        fflush(stdout); fflush(stderr);
        std::vector<pid_t> pids;
        for (int j = 0; j < opt_jobs; j++) {
            pid_t pid = fork();
            if (pid == 0) {
                R = Res(); z.n_sat = z.n_unsat = z.n_unknown = 0; z.t = 0; g_vcount.clear();
                g_rng ^= mix64(j + 1);
                while (true) {
                    u64 i = ctr->fetch_add(1);
                    if (i >= items.size()) break;
                    stack.push_back(items[i]);
                    while (!stack.empty()) {
                        S = stack.back(); stack.pop_back();
                        if (g_timeout) { R.incomplete++; R.why_incomplete["time budget exhausted"]++; }
                        else run_state();
                        delete S;
                    }
                }
                FILE* f = fopen((out + "." + std::to_string(j)).c_str(), "w");
                write_json(f); fclose(f);
                _exit(0);
            }
            pids.push_back(pid);
        }
        for (int j = 0; j < opt_jobs; j++) { int st; waitpid(pids[j], &st, 0); if (st != 0) { R.incomplete++; R.why_incomplete["worker died"]++; } }
    } else if (!work.empty()) { R.incomplete += work.size(); R.why_incomplete["time budget exhausted"] += work.size(); }
    FILE* f = fopen((out + ".main").c_str(), "w");
    write_json(f); fclose(f);
    fprintf(stderr, "sync %.2f check %.2f total %.2f\n", z.ts, z.tc, z.t);
    fprintf(stderr, "symx %s: %.1fs\n", entry.c_str(), now_s() - t0);
    _exit(0);
}
