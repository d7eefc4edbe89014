// vpsym: a small symbolic executor for LLVM IR, deciding branch feasibility, memory safety and
// harness assertions with Z3.  See /verif/DESIGN.md for the semantics and what is trusted.
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <z3++.h>

#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

using namespace llvm;
using std::map;
using std::pair;
using std::set;
using std::shared_ptr;
using std::string;
using std::vector;
typedef std::chrono::steady_clock Clock;

static double secs_since(Clock::time_point t)
{
    return std::chrono::duration<double>(Clock::now() - t).count();
}

// ------------------------------------------------------------------------------------------------
// values
// ------------------------------------------------------------------------------------------------
static z3::context& Z()
{
    static z3::context* c = new z3::context();
    return *c;
}

struct E {
    Z3_ast a = nullptr;
    E() {}
    E(const z3::expr& x) : a(x) { Z3_inc_ref(Z(), a); }
    E(const E& o) : a(o.a)
    {
        if(a) Z3_inc_ref(Z(), a);
    }
    E(E&& o) noexcept : a(o.a) { o.a = nullptr; }
    E& operator=(const E& o)
    {
        if(o.a) Z3_inc_ref(Z(), o.a);
        if(a) Z3_dec_ref(Z(), a);
        a = o.a;
        return *this;
    }
    E& operator=(E&& o) noexcept
    {
        std::swap(a, o.a);
        return *this;
    }
    ~E()
    {
        if(a) Z3_dec_ref(Z(), a);
    }
    z3::expr x() const { return z3::expr(Z(), a); }
    unsigned id() const { return Z3_get_ast_id(Z(), a); }
    explicit operator bool() const { return a != nullptr; }
};

enum VK : uint8_t { V_UNDEF, V_INT, V_FP, V_SYM, V_REAL, V_IEEE, V_AGG };

struct Val {
    VK k       = V_UNDEF;
    uint16_t w = 0;
    union {
        uint64_t i;
        double d;
    };
    E e;
    shared_ptr<vector<Val>> agg;
    Val() : i(0) {}
};

static inline uint64_t maskw(uint64_t v, unsigned w)
{
    return w >= 64 ? v : (v & ((uint64_t(1) << w) - 1));
}
static inline int64_t sextw(uint64_t v, unsigned w)
{
    return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w)) >> (64 - w));
}

struct PathEnd {
    int kind;  // 0 ok, 1 infeasible, 2 violation, 3 unsupported, 4 limit, 5 silent stop
    string vkind, msg;
};
enum { P_OK, P_INFEASIBLE, P_VIOL, P_UNSUP, P_LIMIT, P_STOP };

[[noreturn]] static void unsup(const string& m) { throw PathEnd{P_UNSUP, "unsupported", m}; }

static Val mkInt(uint64_t v, unsigned w)
{
    Val r;
    if(w > 64) {
        r.k = V_SYM;
        r.w = w;
        r.e = E(Z().bv_val((uint64_t)v, w));
        return r;
    }
    r.k = V_INT;
    r.w = w;
    r.i = maskw(v, w);
    return r;
}
static Val mkFP(double d, unsigned w)
{
    Val r;
    r.k = V_FP;
    r.w = w;
    r.d = w == 32 ? (double)(float)d : d;
    return r;
}
static Val mkUndef(unsigned w = 0)
{
    Val r;
    r.w = w;
    return r;
}
static Val mkSym(const z3::expr& x)
{
    Val r;
    if(x.is_bool()) {
        if(x.is_true()) return mkInt(1, 1);
        if(x.is_false()) return mkInt(0, 1);
        r.k = V_SYM;
        r.w = 1;
        r.e = E(x);
        return r;
    }
    unsigned w = x.get_sort().bv_size();
    if(w <= 64 && x.is_numeral()) {
        uint64_t v = 0;
        Z3_get_numeral_uint64(Z(), x, &v);
        return mkInt(v, w);
    }
    r.k = V_SYM;
    r.w = w;
    r.e = E(x);
    return r;
}

static z3::expr bvx(const Val& v)
{
    if(v.k == V_INT) {
        if(v.w == 1) return Z().bool_val(v.i != 0);
        return Z().bv_val((uint64_t)v.i, v.w);
    }
    if(v.k == V_SYM) return v.e.x();
    if(v.k == V_UNDEF) unsup("undefined value used in an expression");
    unsup("floating-point value used as integer");
}
// bit-vector view also of booleans
static z3::expr bvx1(const Val& v)
{
    z3::expr x = bvx(v);
    if(x.is_bool()) return z3::ite(x, Z().bv_val(1, 1), Z().bv_val(0, 1));
    return x;
}

static z3::expr real_of_double(double d)
{
    if(std::isnan(d) || std::isinf(d)) unsup("infinite or NaN constant in exact arithmetic");
    if(d == 0) return Z().real_val(0);
    int e;
    double m = std::frexp(d, &e);
    // m*2^53 is an integer
    int64_t n = (int64_t)std::ldexp(m, 53);
    e -= 53;
    while(n % 2 == 0 && e < 0) {
        n /= 2;
        e++;
    }
    if(e >= 0) {
        if(e > 4000) unsup("huge constant");
        z3::expr p = Z().real_val(std::to_string(n).c_str());
        if(e == 0) return p;
        z3::expr two = Z().real_val(1);
        string s = "1";
        // 2^e as decimal via z3 arithmetic on small chunks
        z3::expr acc = p;
        while(e > 0) {
            int k = std::min(e, 60);
            acc   = (acc * Z().real_val((uint64_t(1) << k))).simplify();
            e -= k;
        }
        return acc;
    }
    z3::expr acc = Z().real_val(std::to_string(n).c_str());
    e            = -e;
    while(e > 0) {
        int k = std::min(e, 60);
        acc   = (acc / Z().real_val((uint64_t(1) << k))).simplify();
        e -= k;
    }
    return acc;
}

static z3::expr realx(const Val& v)
{
    if(v.k == V_FP) return real_of_double(v.d);
    if(v.k == V_REAL) return v.e.x();
    if(v.k == V_UNDEF) unsup("undefined value used in real arithmetic");
    unsup("integer bits used as real");
}
static Val mkReal(const z3::expr& x)
{
    Val r;
    r.k = V_REAL;
    r.w = 64;
    r.e = E(x);
    return r;
}
static z3::sort fpsort(unsigned w) { return w == 32 ? Z().fpa_sort(8, 24) : Z().fpa_sort(11, 53); }
static z3::expr ieeex(const Val& v)
{
    if(v.k == V_FP) return v.w == 32 ? Z().fpa_val((float)v.d) : Z().fpa_val(v.d);
    if(v.k == V_IEEE) return v.e.x();
    if(v.k == V_UNDEF) unsup("undefined value used in fp arithmetic");
    unsup("integer bits used as fp");
}
static Val mkIeee(const z3::expr& x, unsigned w)
{
    Val r;
    r.k = V_IEEE;
    r.w = w;
    r.e = E(x);
    return r;
}
static bool isSymK(const Val& v)
{
    if(v.k == V_AGG) {
        for(auto& x : *v.agg)
            if(isSymK(x)) return true;
        return false;
    }
    return v.k == V_SYM || v.k == V_REAL || v.k == V_IEEE;
}

// ------------------------------------------------------------------------------------------------
// options, statistics
// ------------------------------------------------------------------------------------------------
enum FpMode { FP_EXACT, FP_ERR, FP_IEEE };
static FpMode g_fp            = FP_EXACT;
static bool g_pre = false;                // running the harness before the one that is checked
static unsigned g_precnt = 0;
static vector<uint64_t> g_preargs;
static double g_timeout       = 600;     // whole run
static unsigned g_qtimeout    = 20000;   // per query [ms]
static uint64_t g_maxinstr    = 30000000;  // per path
static uint64_t g_maxpaths    = 2000000;
static unsigned g_threads     = 1;
static unsigned g_maxviol     = 4;
static unsigned g_maxwit      = 8;
static uint64_t g_seed        = 1;
static vector<uint64_t> g_args;

struct Stats {
    uint64_t instrs = 0, forks = 0, completed = 0, killed_infeasible = 0, queries = 0, q_sat = 0,
             q_unsat = 0, narrowed = 0, q_unknown = 0, cache_hits = 0, int_queries = 0, max_depth = 0, asserts = 0,
             asserts_proved = 0, asserts_trivial = 0, stopped = 0, oblig_mem = 0;
    double solver_s = 0;
} S;

struct AssertStat {
    uint64_t checked = 0, proved = 0, trivial = 0, failed = 0, unknown = 0;
};
static map<string, AssertStat> g_asserts;
static set<string> g_reached;
static set<string> g_functions;  // "file:function" under /repo
static set<pair<string, unsigned>> g_lines;
static set<string> g_stubs;      // external functions that were modelled

// ------------------------------------------------------------------------------------------------
// solver layer
// ------------------------------------------------------------------------------------------------
typedef shared_ptr<const vector<unsigned>> VarSet;
struct VarInfo {
    E var;
    E val;
};
static std::unordered_map<unsigned, pair<E, VarSet>> g_varcache;
static std::unordered_map<unsigned, E> g_vars;  // id -> constant

// sorts of the terms of an expression (constants included): 1 real, 2 bit-vector, 4 floating point, 8 integer
static std::unordered_map<unsigned, unsigned> g_sortmask;

static VarSet varsOf(const z3::expr& x)
{
    unsigned id = Z3_get_ast_id(Z(), x);
    auto it     = g_varcache.find(id);
    if(it != g_varcache.end()) return it->second.second;
    // iterative DFS to collect
    std::set<unsigned> out;
    std::set<unsigned> seen;
    unsigned mask = 0;
    vector<z3::expr> st{x};
    while(!st.empty()) {
        z3::expr y = st.back();
        st.pop_back();
        unsigned yi = Z3_get_ast_id(Z(), y);
        if(!seen.insert(yi).second) continue;
        if(!y.is_app()) continue;
        switch(Z3_get_sort_kind(Z(), y.get_sort())) {
            case Z3_REAL_SORT: mask |= 1; break;
            case Z3_BV_SORT: mask |= 2; break;
            case Z3_FLOATING_POINT_SORT: mask |= 4; break;
            case Z3_INT_SORT: mask |= 8; break;
            default: break;
        }
        auto c = g_varcache.find(yi);
        if(c != g_varcache.end()) {
            mask |= g_sortmask[yi];
            out.insert(c->second.second->begin(), c->second.second->end());
            continue;
        }
        unsigned n = y.num_args();
        if(n == 0) {
            if(y.decl().decl_kind() == Z3_OP_UNINTERPRETED) {
                out.insert(yi);
                if(!g_vars.count(yi)) g_vars[yi] = E(y);
            }
        } else
            for(unsigned i = 0; i < n; i++) st.push_back(y.arg(i));
    }
    VarSet vs = std::make_shared<vector<unsigned>>(out.begin(), out.end());
    g_varcache[id] = {E(x), vs};
    g_sortmask[id] = mask;
    return vs;
}

typedef map<unsigned, E> Assign;  // var id -> value

struct QRes {
    z3::check_result r = z3::unknown;
    shared_ptr<Assign> model;
};
static map<vector<unsigned>, pair<vector<E>, QRes>> g_qcache;

// Translation of bit-vector constraints to linear integer arithmetic: every bit-vector term becomes an integer in
// [0, 2^w), sums and products are reduced modulo 2^w with an explicit quotient.  Comparisons of sums, which are hard
// for a bit-blaster, are easy this way.
struct BvToInt {
    map<unsigned, pair<E, E>> done;  // term -> integer or boolean
    vector<z3::expr> side;
    map<unsigned, E> vars;           // variable -> integer variable
    unsigned n = 0;
    struct No {
    };
    static z3::expr num(const string& v) { return Z().int_val(v.c_str()); }
    static z3::expr pw(unsigned w)
    {
        z3::expr r = Z().int_val(1);
        return z3::expr(Z(), Z3_mk_power(Z(), Z().int_val(2), Z().int_val((int)w))).simplify();
    }
    z3::expr fresh(const z3::expr& bound)
    {
        z3::expr v = Z().int_const(("i!" + std::to_string(n++)).c_str());
        side.push_back(v >= 0 && v < bound);
        return v;
    }
    z3::expr mod(const z3::expr& s0, unsigned w)  // s0 modulo 2^w
    {
        z3::expr v = fresh(pw(w));
        z3::expr q = Z().int_const(("i!" + std::to_string(n++)).c_str());
        side.push_back(s0 == q * pw(w) + v);
        return v;
    }
    pair<z3::expr, z3::expr> divmod(const z3::expr& x, const z3::expr& c, unsigned w)
    {
        z3::expr q = fresh(pw(w)), r = fresh(pw(w));
        side.push_back(x == q * c + r && r < c);
        return {q, r};
    }
    static z3::expr sgn(const z3::expr& x, unsigned w) { return z3::ite(x >= pw(w - 1), x - pw(w), x); }
    z3::expr t(const z3::expr& e)
    {
        unsigned id = Z3_get_ast_id(Z(), e);
        auto it     = done.find(id);
        if(it != done.end()) return it->second.second.x();
        z3::expr r = t0(e);
        done[id]   = {E(e), E(r)};
        return r;
    }
    z3::expr t0(const z3::expr& e)
    {
        if(!e.is_app()) throw No();
        if(e.is_bv() && e.is_numeral()) return num(Z3_get_numeral_string(Z(), e));
        unsigned k = e.num_args(), w = e.is_bv() ? e.get_sort().bv_size() : 0;
        auto kind  = e.decl().decl_kind();
        auto A     = [&](unsigned i) { return t(e.arg(i)); };
        if(kind == Z3_OP_UNINTERPRETED && k == 0) {
            if(e.is_bool()) return e;
            if(!e.is_bv()) throw No();
            z3::expr v                     = fresh(pw(w));
            vars[Z3_get_ast_id(Z(), e)] = E(v);
            return v;
        }
        switch(kind) {
            case Z3_OP_TRUE: case Z3_OP_FALSE: return e;
            case Z3_OP_NOT: return !A(0);
            case Z3_OP_IMPLIES: return z3::implies(A(0), A(1));
            case Z3_OP_XOR: return A(0) != A(1);
            case Z3_OP_IFF: case Z3_OP_EQ:
                if(!e.arg(0).is_bv() && !e.arg(0).is_bool()) throw No();
                return A(0) == A(1);
            case Z3_OP_DISTINCT:
                if(k != 2) throw No();
                return A(0) != A(1);
            case Z3_OP_ITE: return z3::ite(A(0), A(1), A(2));
            case Z3_OP_AND: case Z3_OP_OR: {
                z3::expr_vector v(Z());
                for(unsigned i = 0; i < k; i++) v.push_back(A(i));
                return kind == Z3_OP_AND ? z3::mk_and(v) : z3::mk_or(v);
            }
            case Z3_OP_ULEQ: return A(0) <= A(1);
            case Z3_OP_ULT: return A(0) < A(1);
            case Z3_OP_UGEQ: return A(0) >= A(1);
            case Z3_OP_UGT: return A(0) > A(1);
            case Z3_OP_SLEQ: case Z3_OP_SLT: case Z3_OP_SGEQ: case Z3_OP_SGT: {
                unsigned v = e.arg(0).get_sort().bv_size();
                z3::expr x = sgn(A(0), v), y = sgn(A(1), v);
                return kind == Z3_OP_SLEQ ? x <= y : kind == Z3_OP_SLT ? x < y : kind == Z3_OP_SGEQ ? x >= y : x > y;
            }
            case Z3_OP_BADD: {
                z3::expr s0 = Z().int_val(0);
                for(unsigned i = 0; i < k; i++) s0 = s0 + lin(e.arg(i));
                return mod(s0, w);
            }
            case Z3_OP_BSUB: {
                z3::expr s0 = lin(e.arg(0));
                for(unsigned i = 1; i < k; i++) s0 = s0 - lin(e.arg(i));
                return mod(s0, w);
            }
            case Z3_OP_BNEG: return mod(-A(0), w);
            case Z3_OP_BNOT: return pw(w) - 1 - A(0);
            case Z3_OP_BMUL: return mod(lin(e), w);
            case Z3_OP_ZERO_EXT: return A(0);
            case Z3_OP_SIGN_EXT: {
                unsigned v = e.arg(0).get_sort().bv_size();
                z3::expr x = A(0);
                return z3::ite(x >= pw(v - 1), x + (pw(w) - pw(v)), x);
            }
            case Z3_OP_CONCAT: {
                z3::expr r = A(0);
                for(unsigned i = 1; i < k; i++) r = r * pw(e.arg(i).get_sort().bv_size()) + A(i);
                return r;
            }
            case Z3_OP_EXTRACT: {
                unsigned hi = Z3_get_decl_int_parameter(Z(), e.decl(), 0), lo = Z3_get_decl_int_parameter(Z(), e.decl(), 1);
                unsigned v = e.arg(0).get_sort().bv_size();
                z3::expr x = A(0), h = Z().int_val(0), l = Z().int_val(0);
                if(hi + 1 < v) h = fresh(pw(v - hi - 1));
                if(lo > 0) l = fresh(pw(lo));
                z3::expr m = fresh(pw(hi - lo + 1));
                side.push_back(x == h * pw(hi + 1) + m * pw(lo) + l);
                return m;
            }
            case Z3_OP_BUDIV: case Z3_OP_BUREM: case Z3_OP_BUDIV_I: case Z3_OP_BUREM_I: {
                z3::expr x = A(0), y = A(1);
                bool dv    = kind == Z3_OP_BUDIV || kind == Z3_OP_BUDIV_I;
                if(e.arg(1).is_numeral()) {
                    if(y.simplify().get_numeral_uint64() == 0) throw No();
                    auto qr = divmod(x, y, w);
                    return dv ? qr.first : qr.second;
                }
                z3::expr q = fresh(pw(w)), r = fresh(pw(w));
                side.push_back(z3::ite(y == 0, q == pw(w) - 1 && r == x, x == q * y + r && r < y));
                return dv ? q : r;
            }
            case Z3_OP_BSHL: case Z3_OP_BLSHR: {
                if(!e.arg(1).is_numeral()) throw No();
                uint64_t c = e.arg(1).get_numeral_uint64();
                if(c >= w) return Z().int_val(0);
                if(kind == Z3_OP_BSHL) return mod(A(0) * pw(c), w);
                return divmod(A(0), pw(c), w).first;
            }
            default: throw No();
        }
    }
    // value modulo 2^w, with -1 as a coefficient where the constant is large
    z3::expr lin(const z3::expr& e)
    {
        unsigned w = e.get_sort().bv_size();
        if(e.is_numeral()) return sgn(t(e), w).simplify();
        if(e.decl().decl_kind() == Z3_OP_BMUL) {
            z3::expr r = Z().int_val(1);
            for(unsigned i = 0; i < e.num_args(); i++) r = r * lin(e.arg(i));
            return r;
        }
        if(e.decl().decl_kind() == Z3_OP_BADD) {
            z3::expr r = Z().int_val(0);
            for(unsigned i = 0; i < e.num_args(); i++) r = r + lin(e.arg(i));
            return r;
        }
        return t(e);
    }
};
static QRes query_int(const vector<E>& cs, const std::set<unsigned>& vars, unsigned timeout)
{
    QRes res;
    try {
        BvToInt b;
        z3::solver s(Z());
        z3::params p(Z());
        p.set("timeout", timeout);
        p.set("random_seed", (unsigned)g_seed);
        s.set(p);
        for(auto& c : cs) s.add(b.t(c.x()));
        for(auto& c : b.side) s.add(c);
        res.r = s.check();
        if(res.r != z3::sat) return res;
        z3::model m = s.get_model();
        res.model   = std::make_shared<Assign>();
        z3::expr_vector from(Z()), to(Z());
        for(unsigned v : vars) {
            z3::expr x = g_vars[v].x();
            z3::expr val(Z());
            if(x.is_bool())
                val = m.eval(x, true);
            else {
                auto it = b.vars.find(v);
                val     = it == b.vars.end()
                              ? Z().bv_val(0, x.get_sort().bv_size())
                              : Z().bv_val(Z3_get_numeral_string(Z(), m.eval(it->second.x(), true)), x.get_sort().bv_size());
            }
            (*res.model)[v] = E(val);
            from.push_back(x);
            to.push_back(val);
        }
        for(auto& c : cs) {
            z3::expr e = c.x();
            if(!e.substitute(from, to).simplify().is_true()) {
                res       = QRes();
                return res;
            }
        }
    } catch(BvToInt::No&) {
        res = QRes();
    } catch(z3::exception&) {
        res = QRes();
    }
    return res;
}

static QRes query(const vector<E>& cs)
{
    vector<unsigned> key;
    for(auto& c : cs) key.push_back(c.id());
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = g_qcache.find(key);
    if(it != g_qcache.end()) {
        S.cache_hits++;
        return it->second.second;
    }
    QRes res;
    auto t0 = Clock::now();
    S.queries++;
    bool real = false, bv = false, fp = false, in = false;
    std::set<unsigned> vars;
    for(auto& c : cs) {
        VarSet v = varsOf(c.x());
        vars.insert(v->begin(), v->end());
        unsigned m = g_sortmask[c.id()];
        real = real || (m & 1);
        bv   = bv || (m & 2);
        fp   = fp || (m & 4);
        in   = in || (m & 8);
    }
    vector<const char*> logics;
    if(!real && !fp && !in)
        logics = {"QF_BV", "int", "QF_BV"};
    else if(fp && !real)
        logics = {"QF_BVFP"};
    else if(real && !bv && !fp)
        logics = {"QF_LRA?", "QF_NRA"};
    else
        logics = {"ALL?", "tactic"};
    for(unsigned attempt = 0; attempt < logics.size(); attempt++) {
        if(string(logics[attempt]) == "int") {
            res = query_int(cs, vars, std::min(g_qtimeout, 10000u));
            if(res.r != z3::unknown) {
                S.int_queries++;
                break;
            }
            continue;
        }
        try {
            z3::solver s = string(logics[attempt]).back() == '?' ? z3::solver(Z())
                           : string(logics[attempt]) == "tactic"
                               ? z3::tactic(Z(), "default").mk_solver()
                               : z3::solver(Z(), logics[attempt]);
            z3::params p(Z());
            unsigned to = g_qtimeout;
            if(attempt + 1 < logics.size()) to = std::min(to, 3000u);
            p.set("timeout", to);
            p.set("random_seed", (unsigned)g_seed);
            s.set(p);
            for(auto& c : cs) s.add(c.x());
            res.r = s.check();
            if(res.r == z3::sat) {
                z3::model m = s.get_model();
                res.model   = std::make_shared<Assign>();
                for(unsigned v : vars) {
                    z3::expr val     = m.eval(g_vars[v].x(), true);
                    (*res.model)[v] = E(val);
                }
                // the solver's models are not taken on trust
                for(auto& c : cs)
                    if(m.eval(c.x(), true).is_false()) {
                        res = QRes();
                        break;
                    }
            }
        } catch(z3::exception& ex) {
            res.r = z3::unknown;
        }
        if(res.r != z3::unknown) break;
    }
    S.solver_s += secs_since(t0);
    if(const char* dir = getenv("VPSYM_DUMP")) {
        if(res.r == z3::unknown || secs_since(t0) > 5) {
            z3::solver s(Z());
            for(auto& c : cs) s.add(c.x());
            FILE* f = fopen((string(dir) + "/q" + std::to_string(S.queries) + ".smt2").c_str(), "w");
            if(f) {
                fputs(s.to_smt2().c_str(), f);
                fclose(f);
            }
        }
    }
    static const char* cross = getenv("VPSYM_CROSS");  // compare the translation with the bit-blaster (testing aid)
    if(cross && bv && !real && !fp && !in && res.r != z3::unknown) {
        QRes o = query_int(cs, vars, 2000);
        if(FILE* f = fopen(cross, "a")) {
            fprintf(f, "%s\n", o.r == z3::unknown ? "unknown" : o.r == res.r ? "agree" : "DISAGREE");
            fclose(f);
        }
    }
    if(res.r == z3::sat)
        S.q_sat++;
    else if(res.r == z3::unsat)
        S.q_unsat++;
    else
        S.q_unknown++;
    g_qcache[key] = {cs, res};
    return res;
}

// ------------------------------------------------------------------------------------------------
// memory
// ------------------------------------------------------------------------------------------------
struct Cell {
    uint32_t size;
    Val v;
};
struct Obj {
    uint64_t base;
    uint64_t size;
    uint8_t kind;  // 0 global, 1 stack, 2 heap, 3 heap array
    bool ro     = false;
    uint64_t region_tag = 0;  // parallel region instance + thread that created it (for races)
    string name;
    vector<uint8_t> bytes;
    vector<uint8_t> init;
    map<uint32_t, Cell> cells;
};

// ------------------------------------------------------------------------------------------------
// decoded program
// ------------------------------------------------------------------------------------------------
struct Opnd {
    int slot = -1;
    Val cv;
};
struct DBlock;
struct DInst {
    unsigned op;
    const Instruction* I;
    vector<Opnd> ops;
    int dst    = -1;
    unsigned w = 0;    // result width
    Type* ty   = nullptr;
    int64_t goff = 0;  // gep constant offset
    vector<pair<unsigned, int64_t>> gidx;  // operand idx, scale
    vector<int> succ;
    vector<pair<uint64_t, int>> cases;
    Function* callee = nullptr;
    bool isIntr      = false;
    unsigned iid     = 0;
    int pred         = 0;
};
struct DPhi {
    int dst;
    unsigned w;
    map<int, Opnd> in;  // pred block -> operand
};
struct DBlock {
    const BasicBlock* B;
    vector<DPhi> phis;
    vector<DInst> insts;
    bool visited = false;
};
struct DFunc {
    Function* F;
    string name;
    vector<DBlock> blocks;
    int nslots = 0;
};

struct Frame {
    DFunc* f;
    int blk = 0, ip = 0, prev = -1;
    vector<Val> regs;
    vector<uint64_t> allocas;
    int retslot     = -1;
    int normal_dest = -1;
    uint64_t vaarea = 0;
    int parmark     = 0;  // 1: outlined parallel function
};

struct Input {
    string name;
    char kind;  // u: bv, b: bool, f: double, c: choice
    E e;
    uint64_t cval = 0;
};
struct Obs {
    string name;
    Val v;
};
struct OutTok {
    int kind;  // 0 char, 1 unsigned, 2 signed, 3 double
    uint64_t c = 0;
    Val v;
};

// characters standing for symbolic numbers in the text of a string stream
static map<unsigned, pair<E, OutTok>> g_text;

struct Access {
    uint8_t rd[2] = {0, 0};  // [plain, sync] thread masks
    uint8_t wr[2] = {0, 0};
};
struct Par {
    bool active = false;
    unsigned tid = 0, T = 1;
    DFunc* fn = nullptr;
    vector<Val> args;
    uint64_t region = 0;
    vector<int> loopno;           // per thread
    vector<unsigned> order;       // threads are run in this order between two barriers
    unsigned pos = 0;             // position in the order
    vector<int> status;           // per thread: 0 not started, 1 waiting at a barrier, 2 finished
    vector<vector<Frame>> parked;  // stacks of the waiting threads
    size_t base = 0;              // frames below belong to the encountering thread
    map<int, vector<uint64_t>> splits;  // loop ordinal -> split points (T-1)
    map<int, int> dispatch_done;
    map<int, vector<uint64_t>> dispatch;  // lb, ub, st
    map<uint64_t, Access> acc;
    int locked      = 0;
    uint64_t resume_tid_addr = 0;
};

struct State {
    vector<Frame> st;
    map<uint64_t, shared_ptr<Obj>> mem;
    vector<E> pc;
    Assign assign;
    vector<Input> inputs;
    vector<Obs> obs;
    map<uint64_t, vector<OutTok>> out;
    map<unsigned, pair<E, uint64_t>> conc;
    map<string, int> namecnt;
    map<string, int> opts;
    vector<pair<string, pair<E, E>>> ufs;  // uninterpreted function applications
    map<string, Val> env;
    uint64_t next_addr = 0x100000000ull;
    uint64_t instrs    = 0;
    unsigned fresh     = 0;
    unsigned asserts   = 0;
    Par par;
    uint64_t focus = 0;  // the parallel region whose schedule is arbitrary
    uint64_t regions = 0;
    unsigned depth   = 0;
    unsigned omp_push = 0, omp_set = 0;  // threads asked for in the next region, in all further ones
    bool expect_trap = false;
};
typedef shared_ptr<State> SP;

struct Violation {
    string kind, msg, where, stack;
    vector<pair<string, string>> inputs;
    bool strong = false;
};
static vector<Violation> g_viol;
static map<string, int> g_violkeys;
static vector<string> g_unsup;
static map<string, uint64_t> g_incomplete;
struct Witness {
    vector<pair<string, string>> inputs;
    vector<pair<string, string>> obs;
    unsigned asserts;
};
static vector<Witness> g_wit;
static uint64_t g_wit_seen = 0;

#include "vpsym_exec.inc"
