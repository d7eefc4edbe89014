// C06: [A,B] = AB - BA on Fock space.
#include <string>

#include "vp.h"

#include "ieompp/algebra/commutator.hpp"
#include "ieompp/algebra/term/term.hpp"
#include "ieompp/symbolic/prefactor.hpp"

#include <vector>

using namespace ieompp;
using namespace ieompp::algebra;

// Fock-space oracle: occupation numbers as bits of a mask, Jordan-Wigner signs
struct Fock {
    uint64_t state;
    bool zero;      // amplitude is zero
    bool minus;     // sign
};
static bool parity(uint64_t x)   // of up to 16 bits
{
    x ^= x >> 8;
    x ^= x >> 4;
    x ^= x >> 2;
    x ^= x >> 1;
    return x & 1;
}
static void apply(Fock& f, bool creator, uint64_t mode)
{
    const uint64_t bit = uint64_t(1) << mode;
    const bool occ     = ((f.state >> mode) & 1) != 0;
    f.zero             = f.zero | (occ == creator);
    f.minus            = f.minus ^ parity(f.state & (bit - 1));
    f.state ^= bit;
}
static int64_t amplitude(const Fock& f)
{
    return int64_t(vp_select_u64(f.zero, 0, vp_select_u64(f.minus, uint64_t(-1), 1)));
}

static const char* const fn[8] = {"f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7"};
static const char* const in[8] = {"i0", "i1", "i2", "i3", "i4", "i5", "i6", "i7"};

// args: lengths of A and B, number of modes
// operators carry a site (offset by an arbitrary 64-bit value) and a spin; mode = 2*site + spin
HARNESS(commutator)
{
    using Op = Operator<uint64_t, bool>;
    using T  = Term<int64_t, Op>;
    const uint64_t n = vp_arg(0), m = vp_arg(1), modes = vp_arg(2);
    const uint64_t base = vp_u64("base");
    bool flag[8];
    uint64_t mode[8];
    T a, b;
    a.prefactor = 2;
    b.prefactor = 3;
    for(uint64_t k = 0; k < n + m; ++k) {
        flag[k] = vp_bool(fn[k]);
        mode[k] = vp_below(in[k], modes);
        (k < n ? a : b).operators.push_back(Op{flag[k], base + (mode[k] >> 1), (mode[k] & 1) != 0});
    }
    const uint64_t state = vp_u64("state");
    vp_assume(state < (uint64_t(1) << modes));

    std::vector<T> c;
    c.reserve(n * m + 1);
    c.push_back(T{7, {Op{true, 5, true}}});
    commutate(a, b, c);
    vp_assert(c.size() >= 1 && c[0].prefactor == 7 && c[0].operators.size() == 1 && c[0].operators[0] == (Op{true, 5, true}),
              "terms that were in the container are kept");

    Fock ab{state, false, false}, ba{state, false, false};
    for(uint64_t k = n + m; k-- > 0;) {
        apply(ab, flag[k], mode[k]);
    }
    for(uint64_t k = n; k-- > 0;) {
        apply(ba, flag[k], mode[k]);
    }
    for(uint64_t k = n + m; k-- > n;) {
        apply(ba, flag[k], mode[k]);
    }
    int64_t sum = 0;
    for(uint64_t t = 1; t < c.size(); ++t) {
        Fock f{state, false, false};
        for(uint64_t k = c[t].operators.size(); k-- > 0;) {
            const Op& o      = c[t].operators[k];
            const uint64_t x = ((o.index1 - base) << 1) | uint64_t(o.index2);
            vp_assert(x < modes, "operators of the result occur in A or B");
            apply(f, o.creator, x);
        }
        vp_assert(f.zero | (f.state == ab.state), "every term of the result leads to the same state");
        sum += c[t].prefactor * amplitude(f);
    }
    vp_assert(sum == 6 * (amplitude(ab) - amplitude(ba)), "[A,B] = AB - BA");
    vp_observe_u64("terms", c.size());
    vp_observe_u64("sum", uint64_t(sum));
    vp_reach("end");
}

// longer strings over fixed modes, only some flags and the mode of one operator are arbitrary;
// args: lengths of A and B, number of modes, position of the arbitrary operator
HARNESS(large_commutator)
{
    using Op = Operator<uint64_t, bool>;
    using T  = Term<int64_t, Op>;
    const uint64_t n = vp_arg(0), m = vp_arg(1), modes = vp_arg(2), any = vp_arg(3);
    std::vector<bool> flag(n + m);
    std::vector<uint64_t> mode(n + m);
    T a, b;
    a.prefactor = 2;
    b.prefactor = 3;
    uint64_t count[64] = {};
    for(uint64_t k = 0; k < n + m; ++k) {
        mode[k] = k == any ? vp_choose("mode", 0, modes - 1) : 3 * k % modes;
        // creations and annihilations of a mode alternate (so that products do not vanish) but for the arbitrary one
        flag[k] = k == any ? vp_conc(vp_bool("flag")) != 0 : count[mode[k]] % 2 != 0;
        ++count[mode[k]];
        (k < n ? a : b).operators.push_back(Op{bool(flag[k]), mode[k] >> 1, (mode[k] & 1) != 0});
    }
    const uint64_t state = vp_u64("state");
    vp_assume(state < (uint64_t(1) << modes));
    std::vector<T> c;
    commutate(a, b, c);
    Fock ab{state, false, false}, ba{state, false, false};
    for(uint64_t k = n + m; k-- > 0;) apply(ab, flag[k], mode[k]);
    for(uint64_t k = n; k-- > 0;) apply(ba, flag[k], mode[k]);
    for(uint64_t k = n + m; k-- > n;) apply(ba, flag[k], mode[k]);
    int64_t sum = 0;
    for(const T& t : c) {
        Fock f{state, false, false};
        for(uint64_t k = t.operators.size(); k-- > 0;) {
            const Op& o = t.operators[k];
            const uint64_t x = (o.index1 << 1) | uint64_t(o.index2);
            vp_assert(x < modes, "operators of the result occur in A or B");
            apply(f, o.creator, x);
        }
        vp_assert(f.zero | (f.state == ab.state), "every term of the result leads to the same state");
        sum += t.prefactor * amplitude(f);
    }
    vp_assert(sum == 6 * (amplitude(ab) - amplitude(ba)), "[A,B] = AB - BA");
    vp_observe_u64("terms", c.size());
    vp_observe_u64("sum", uint64_t(sum));
    vp_reach("end");
}

// prefactors: every term carries plus or minus the product of both prefactors; args: lengths of A and B
HARNESS(prefactors)
{
    using Op = Operator<uint64_t>;
    using C  = std::complex<double>;
    using T  = Term<C, Op>;
    const uint64_t n = vp_arg(0), m = vp_arg(1);
    T a, b;
    const double x = vp_f64("x"), y = vp_f64("y"), u = vp_f64("u"), v = vp_f64("v");
    a.prefactor = C(x, y);
    b.prefactor = C(u, v);
    for(uint64_t k = 0; k < n + m; ++k) {
        const bool f = vp_bool(fn[k]);
        (k < n ? a : b).operators.push_back(Op{f, vp_u64(in[k])});
    }
    std::vector<T> c;
    commutate(a, b, c);
    using I = Term<int64_t, Op>;
    I ia{1, a.operators}, ib{1, b.operators};
    std::vector<I> ic;
    commutate(ia, ib, ic);
    vp_assert(c.size() == ic.size(), "same terms for every prefactor type");
    for(uint64_t k = 0; k < c.size(); ++k) {
        vp_assert_eq_f64(c[k].prefactor.real(), double(ic[k].prefactor) * (x * u - y * v), "real part of the prefactor");
        vp_assert_eq_f64(c[k].prefactor.imag(), double(ic[k].prefactor) * (x * v + y * u), "imaginary part of the prefactor");
    }
    vp_observe_u64("terms", c.size());
    vp_reach("end");
}

// symbols as indices: for every assignment of modes to symbols the terms, weighted with their Kronecker deltas, sum up
// to AB - BA; args: lengths of A and B, number of symbols, number of modes
HARNESS(symbolic_commutator)
{
    using Op = Operator<std::string, bool>;
    using P  = symbolic::Prefactor<int64_t>;
    using T  = Term<P, Op>;
    const uint64_t n = vp_arg(0), m = vp_arg(1), symbols = vp_arg(2), sites = vp_arg(3);
    bool flag[8], spin[8];
    uint64_t sym[8];
    uint64_t site[4];
    static const char* const an[4] = {"m0", "m1", "m2", "m3"};
    static const char* const sn[8] = {"s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7"};
    for(uint64_t k = 0; k < symbols; ++k) {
        site[k] = vp_below(an[k], sites);
    }
    T a, b;
    a.prefactor.value = 2;
    b.prefactor.value = 3;
    for(uint64_t k = 0; k < n + m; ++k) {
        flag[k] = vp_bool(fn[k]);
        spin[k] = vp_bool(sn[k]);
        sym[k]  = vp_choose(in[k], 0, symbols - 1);
        (k < n ? a : b).operators.push_back(Op{flag[k], std::string(1, char('a' + sym[k])), spin[k]});
    }
    const uint64_t state = vp_u64("state");
    vp_assume(state < (uint64_t(1) << (2 * sites)));
    std::vector<T> c;
    c.reserve(n * m);
    commutate(a, b, c);
    Fock ab{state, false, false}, ba{state, false, false};
    for(uint64_t k = n + m; k-- > 0;) {
        apply(ab, flag[k], 2 * site[sym[k]] + uint64_t(spin[k]));
    }
    for(uint64_t k = n; k-- > 0;) {
        apply(ba, flag[k], 2 * site[sym[k]] + uint64_t(spin[k]));
    }
    for(uint64_t k = n + m; k-- > n;) {
        apply(ba, flag[k], 2 * site[sym[k]] + uint64_t(spin[k]));
    }
    int64_t sum = 0;
    for(const T& t : c) {
        bool on = true;
        for(const Kronecker& d : t.prefactor.kroneckers) {
            vp_assert(d.a.size() == 1 && d.b.size() == 1 && uint64_t(d.a[0] - 'a') < symbols && uint64_t(d.b[0] - 'a') < symbols,
                      "deltas only relate symbols of A and B");
            on = on & (site[uint64_t(d.a[0] - 'a')] == site[uint64_t(d.b[0] - 'a')]);
        }
        Fock f{state, false, false};
        for(uint64_t k = t.operators.size(); k-- > 0;) {
            const Op& o = t.operators[k];
            apply(f, o.creator, 2 * site[uint64_t(o.index1[0] - 'a')] + uint64_t(o.index2));
        }
        f.zero = f.zero | !on;
        vp_assert(f.zero | (f.state == ab.state), "every term of the result leads to the same state");
        sum += t.prefactor.value * amplitude(f);
    }
    vp_assert(sum == 6 * (amplitude(ab) - amplitude(ba)), "[A,B] = AB - BA for every assignment of the symbols");
    vp_observe_u64("terms", c.size());
    vp_observe_u64("sum", uint64_t(sum));
    vp_reach("end");
}
