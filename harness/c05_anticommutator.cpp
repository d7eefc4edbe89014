// C05: which pairs of ladder operators anticommute.
#include <string>

#include "vp.h"

#include "ieompp/algebra/anticommutator.hpp"
#include "ieompp/algebra/term/term.hpp"
#include "ieompp/symbolic/prefactor.hpp"

using namespace ieompp;
using namespace ieompp::algebra;

HARNESS(concrete1)
{
    using Op = Operator<uint64_t>;
    const bool ca = vp_bool("ca"), cb = vp_bool("cb");
    const uint64_t ia = vp_u64("ia"), ib = vp_u64("ib");
    const Op a{ca, ia}, b{cb, ib};
    const bool expect = !((ca != cb) & (ia == ib));
    vp_assert(anticommutates(a, b) == expect, "anticommute iff not a conjugate pair");
    vp_assert(anticommutates(b, a) == expect, "symmetric");
    vp_observe_u64("r", anticommutates(a, b));
    vp_reach("end");
}
HARNESS(concrete2)
{
    using Op = Operator<uint64_t, bool>;
    const bool ca = vp_bool("ca"), cb = vp_bool("cb"), sa = vp_bool("sa"), sb = vp_bool("sb");
    const uint64_t ia = vp_u64("ia"), ib = vp_u64("ib");
    const Op a{ca, ia, sa}, b{cb, ib, sb};
    const bool expect = !((ca != cb) & (ia == ib) & (sa == sb));
    vp_assert(anticommutates(a, b) == expect, "anticommute iff not a conjugate pair");
    vp_assert(anticommutates(b, a) == expect, "symmetric");
    vp_assert(anticommutates(a, a), "an operator anticommutes with itself");
    vp_assert(!anticommutates(a, a.get_conjugate()), "an operator does not anticommute with its conjugate");
    double p = 3.;
    anticommutator<Term<double, Op>>(a, b, p);
    vp_assert(p == 3., "concrete anticommutator leaves the prefactor alone");
    vp_observe_u64("r", anticommutates(a, b));
    vp_reach("end");
}
HARNESS(concrete3)
{
    using Op = Operator<uint64_t, uint64_t, bool>;
    const bool ca = vp_bool("ca"), cb = vp_bool("cb"), sa = vp_bool("sa"), sb = vp_bool("sb");
    const uint64_t ia = vp_u64("ia"), ib = vp_u64("ib"), ja = vp_u64("ja"), jb = vp_u64("jb");
    const Op a{ca, std::make_tuple(ia, ja, sa)}, b{cb, std::make_tuple(ib, jb, sb)};
    const bool expect = !((ca != cb) & (ia == ib) & (ja == jb) & (sa == sb));
    vp_assert(anticommutates(a, b) == expect, "anticommute iff not a conjugate pair");
    vp_assert(anticommutates(b, a) == expect, "symmetric");
    vp_observe_u64("r", anticommutates(a, b));
    vp_reach("end");
}

static std::string symbol(const char* n0, const char* n1, uint64_t len)
{
    std::string s;
    if(len > 2) { // arbitrary in the middle and at the end
        s.assign(len, 'x');
        s[len / 2] = char(vp_u8(n0));
        s[len - 1] = char(vp_u8(n1));
        return s;
    }
    s.push_back(char(vp_u8(n0)));
    if(len > 1) {
        s.push_back(char(vp_u8(n1)));
    }
    return s;
}
static bool is_pair(const Kronecker& k, const std::string& a, const std::string& b)
{
    return ((k.a == a) & (k.b == b)) | ((k.a == b) & (k.b == a));
}

// first index a symbol, second concrete; args: lengths of the symbols
HARNESS(symbolic_concrete)
{
    using Op = Operator<std::string, uint64_t>;
    using P  = symbolic::Prefactor<double>;
    using T  = Term<P, Op>;
    const bool ca = vp_bool("ca"), cb = vp_bool("cb");
    const uint64_t ia = vp_u64("ia"), ib = vp_u64("ib");
    const std::string sa = symbol("xa", "ya", vp_arg(0)), sb = symbol("xb", "yb", vp_arg(1));
    const Op a{ca, sa, ia}, b{cb, sb, ib};
    const bool expect = (ca == cb) | (ia != ib);
    vp_assert(anticommutates(a, b) == expect, "anticommute iff equal flags or concrete indices differ");
    vp_assert(anticommutates(b, a) == expect, "symmetric");
    P p;
    p.value = vp_f64("p");
    p.kroneckers.push_back(Kronecker{"u", "v"});
    const double v = p.value;
    anticommutator<T>(a, b, p);
    vp_assert_eq_f64(p.value, v, "value unchanged");
    vp_assert(is_pair(p.kroneckers[0], "u", "v"), "existing delta kept");
    if(sa == sb) {
        vp_assert(p.kroneckers.size() == 1, "no delta for identical symbols");
        vp_reach("same");
    } else {
        vp_assert(p.kroneckers.size() == 2 && is_pair(p.kroneckers[1], sa, sb), "one delta for the differing symbols");
        vp_reach("different");
    }
    vp_observe_u64("r", anticommutates(a, b));
    vp_observe_u64("k", p.kroneckers.size());
    vp_reach("end");
}
// all indices symbols
HARNESS(symbolic_all)
{
    using Op = Operator<std::string, std::string>;
    using P  = symbolic::Prefactor<double>;
    using T  = Term<P, Op>;
    const bool ca = vp_bool("ca"), cb = vp_bool("cb");
    const std::string sa = symbol("xa", "ya", 1), sb = symbol("xb", "yb", 1), ta = symbol("va", "wa", vp_arg(0)),
                      tb = symbol("vb", "wb", vp_arg(1));
    const Op a{ca, sa, ta}, b{cb, sb, tb};
    vp_assert(anticommutates(a, b) == (ca == cb), "anticommute iff equal flags");
    P p;
    p.value = vp_f64("p");
    anticommutator<T>(a, b, p);
    const bool d1 = sa != sb, d2 = ta != tb;
    uint64_t n = 0;
    if(d1) {
        vp_assert(p.kroneckers.size() > n && is_pair(p.kroneckers[n], sa, sb), "delta of the first symbols");
        ++n;
    }
    if(d2) {
        vp_assert(p.kroneckers.size() > n && is_pair(p.kroneckers[n], ta, tb), "delta of the second symbols");
        ++n;
    }
    vp_assert(p.kroneckers.size() == n, "one delta per differing symbol");
    vp_observe_u64("k", p.kroneckers.size());
    vp_reach("end");
}
// three indices: symbol, concrete, symbol
HARNESS(symbolic_three)
{
    using Op = Operator<std::string, bool, std::string>;
    using P  = symbolic::Prefactor<double>;
    using T  = Term<P, Op>;
    const bool ca = vp_bool("ca"), cb = vp_bool("cb"), ia = vp_bool("ia"), ib = vp_bool("ib");
    const std::string sa = symbol("xa", "ya", 1), sb = symbol("xb", "yb", 1), ta = symbol("va", "wa", 1), tb = symbol("vb", "wb", 1);
    const Op a{ca, std::make_tuple(sa, ia, ta)}, b{cb, std::make_tuple(sb, ib, tb)};
    vp_assert(anticommutates(a, b) == ((ca == cb) | (ia != ib)), "anticommute iff equal flags or concrete indices differ");
    P p;
    p.value = 1.;
    anticommutator<T>(a, b, p);
    const bool d1 = sa != sb, d2 = ta != tb;
    vp_assert(p.kroneckers.size() == uint64_t(d1) + uint64_t(d2), "one delta per differing symbol");
    if(d1) {
        vp_assert(is_pair(p.kroneckers[0], sa, sb), "delta of the first symbols");
    }
    if(d2) {
        vp_assert(is_pair(p.kroneckers.back(), ta, tb), "delta of the last symbols");
    }
    vp_observe_u64("k", p.kroneckers.size());
    vp_reach("end");
}
