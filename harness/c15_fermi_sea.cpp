// C15, C16, C17: excited Fermi sea, non-vanishing expectation values, particle number.
#include "vp.h"
#include <cassert>
#include <cmath>
#include <complex>
#include <initializer_list>
#include <limits>
#include <list>
#include <string>
#include <vector>

#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/models/hubbard_momentum_space/basis.hpp"
#include "ieompp/models/hubbard_momentum_space/excited_fermi_sea.hpp"
#include "ieompp/models/hubbard_momentum_space/non_vanishing_expectation_values.hpp"
#include "ieompp/models/hubbard_momentum_space/particle_number.hpp"

using namespace ieompp;
using Op       = algebra::Operator<uint64_t, bool>;
using Monomial = algebra::Monomial<Op>;
namespace ms   = models::hubbard_momentum_space;
using State    = ms::ExcitedFermiSea<Monomial>;
using Basis    = ms::Basis3Operator<Monomial>;
using Values   = ms::NonVanishingExpectationValues<uint64_t, double>;
using C        = std::complex<double>;

static const uint64_t STEPS = 40;
static const char* const nc[8] = {"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7"};
static const char* const nk[8] = {"k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7"};
static const char* const ns[8] = {"s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7"};
static const char* const ne[8] = {"e0", "e1", "e2", "e3", "e4", "e5", "e6", "e7"};

// a band in which an arbitrary set of momenta (any 64-bit label) is filled
struct ArbitraryBand {
    using Float = double;
    uint64_t mask, compare;
    double below, above;
    bool filled(uint64_t k) const { return (k & mask) == compare; }
    double operator()(uint64_t k) const { return vp_select_f64(filled(k), below, above); }
};
// a table of arbitrary energies
struct Table {
    using Float = double;
    std::vector<double> e;
    const double& operator()(uint64_t k) const { return e[k]; }
};
struct Step {
    bool c;
    uint64_t k;
    bool s;
};
static bool same(const Step& a, const Step& b) { return (a.k == b.k) & (a.s == b.s); }

template <typename List>
static bool sorted(const List& l)
{
    bool ok = true;
    for(auto it = l.begin(); it != l.end();) {
        auto a = *it;
        if(++it == l.end()) {
            break;
        }
        const uint64_t ak = std::get<0>(a), bk = std::get<0>(*it);
        const bool as = std::get<1>(a), bs = std::get<1>(*it);
        ok &= (ak < bk) | ((ak == bk) & (!as & bs));
    }
    return ok;
}
template <typename List>
static bool contains(const List& l, const Step& m)
{
    bool found = false;
    for(const auto& x : l) {
        found |= (std::get<0>(x) == m.k) & (std::get<1>(x) == m.s);
    }
    return found;
}
// state after the steps h[0..n), from the sea given by occupied0(step)
template <typename Filled>
static void check_state(const State& st, const Step* h, uint64_t n, bool alive, const Filled& filled, bool order)
{
    vp_assert(st.vanishes == !alive, "the state vanishes exactly if the product annihilates the sea");
    if(!vp_conc(alive)) {
        vp_assert(!st.is_initial_fermi_sea(), "a vanished state is not the Fermi sea");
        vp_reach("vanished");
        return;
    }
    uint64_t particles = 0, holes = 0;
    for(uint64_t j = 0; j < n; ++j) {
        bool last = true, odd = true;
        for(uint64_t i = 0; i < n; ++i) {
            if(i > j) {
                last &= !same(h[i], h[j]);
            }
            if(i < j) {
                odd ^= same(h[i], h[j]);
            }
        }
        // the last step on a mode decides whether it differs from the initial sea
        const bool f = filled(h[j].k);
        particles += vp_select_u64(last & odd & !f, 1, 0);
        holes += vp_select_u64(last & odd & f, 1, 0);
        vp_assert(!last | (contains(st.created_particles, h[j]) == (odd & !f)), "recorded particles are the occupied modes above the sea");
        vp_assert(!last | (contains(st.annihilated_particles, h[j]) == (odd & f)), "recorded holes are the empty modes of the sea");
    }
    vp_assert(st.created_particles.size() == particles, "every particle is recorded once");
    vp_assert(st.annihilated_particles.size() == holes, "every hole is recorded once");
    vp_assert(st.is_initial_fermi_sea() == (particles + holes == 0), "the initial sea is reported exactly if all occupations are restored");
    if(order) {
        vp_assert(sorted(st.created_particles) & sorted(st.annihilated_particles), "particles and holes are listed in ascending order");
    }
    vp_reach("alive");
}
template <typename Filled>
static bool advance(const Step* h, uint64_t j, const Filled& filled)
{
    bool occ = filled(h[j].k);
    for(uint64_t i = 0; i < j; ++i) {
        occ ^= same(h[i], h[j]);
    }
    return h[j].c ? !occ : occ;
}
// limit: 0 = any 64-bit label (as many labels of either kind as wanted are below 8)
static void read_steps(Step* h, uint64_t n, uint64_t limit = 0)
{
    for(uint64_t j = 0; j < n; ++j) {
        h[j].c = vp_bool(nc[j]);
        h[j].k = vp_u64(nk[j]);
        h[j].s = vp_bool(ns[j]);
        vp_assume(limit == 0 || h[j].k < limit);
    }
}
static double read_band(ArbitraryBand& b, uint64_t limit = 0)
{
    const double ef = vp_f64("ef");
    vp_assume((ef > -100.) & (ef < 100.));
    b.mask    = limit ? 1 : vp_u64("mask");
    b.compare = limit ? 0 : vp_u64("compare");
    b.below   = vp_f64("below");
    b.above   = vp_f64("above");
    vp_assume((b.below < ef) & (b.above >= ef));
    return ef;
}

// operators applied one after the other
HARNESS(operators)
{
    const uint64_t n = vp_arg(0);
    ArbitraryBand band;
    const double ef = read_band(band, vp_arg(1));
    Step h[8];
    read_steps(h, n, vp_arg(1));
    const auto filled = [&](uint64_t k) { return band.filled(k); };
    State st;
    bool alive = true;
    vp_assert(st.is_initial_fermi_sea(), "a fresh state is the Fermi sea");
    for(uint64_t j = 0; j < n; ++j) {
        const State before(st);
        const bool wasalive = alive;
        alive &= advance(h, j, filled);
        st.apply_operator(Op{h[j].c, h[j].k, h[j].s}, band, ef);
        if(j + 1 == n) {
            check_state(st, h, n, alive, filled, true);
            vp_assert(before.vanishes == !wasalive, "copies of a state are independent");
        }
        if(!vp_conc(alive)) {
            if(j + 1 < n) {
                vp_assert(st.vanishes & !st.is_initial_fermi_sea(), "once vanished");
                // nothing brings a vanished state back
                st.apply_operator(Op{h[j + 1].c, h[j + 1].k, h[j + 1].s}, band, ef);
                vp_assert(st.vanishes & !st.is_initial_fermi_sea(), "a vanished state stays vanished");
            }
            break;
        }
    }
    vp_observe_u64("vanishes", st.vanishes);
    vp_reach("end");
}
// create_particle / annihilate_particle report success
HARNESS(particles)
{
    const uint64_t n = vp_arg(0);
    ArbitraryBand band;
    const double ef = read_band(band, vp_arg(1));
    Step h[8];
    read_steps(h, n, vp_arg(1));
    const auto filled = [&](uint64_t k) { return band.filled(k); };
    State st;
    bool alive = true;
    for(uint64_t j = 0; j < n; ++j) {
        alive &= advance(h, j, filled);
        const typename Op::Indices idx(h[j].k, h[j].s);
        const bool ok = vp_conc(h[j].c) ? st.create_particle(idx, band, ef) : st.annihilate_particle(idx, band, ef);
        vp_assert(ok == alive, "creating or annihilating a particle succeeds exactly if the state survives");
        vp_assert(State::is_initially_occupied(idx, band, ef) == band.filled(h[j].k), "initially occupied: below the Fermi energy");
        if(!vp_conc(alive)) {
            break;
        }
        if(j + 1 == n) {
            check_state(st, h, n, alive, filled, false);
        }
    }
    vp_assert(st.vanishes == !alive, "vanishes exactly if an operation failed");
    vp_observe_u64("vanishes", st.vanishes);
    vp_reach("end");
}
// a monomial acts rightmost operator first; two monomials one after the other
HARNESS(monomials)
{
    const uint64_t n = vp_arg(0), first = vp_arg(1);
    ArbitraryBand band;
    const double ef = read_band(band, vp_arg(2));
    Step h[8];
    read_steps(h, n, vp_arg(2));
    const auto filled = [&](uint64_t k) { return band.filled(k); };
    Monomial a, b;
    for(uint64_t j = first; j-- > 0;) {
        a.push_back(Op{h[j].c, h[j].k, h[j].s});
    }
    for(uint64_t j = n; j-- > first;) {
        b.push_back(Op{h[j].c, h[j].k, h[j].s});
    }
    bool alive = true;
    for(uint64_t j = 0; j < n; ++j) {
        alive &= advance(h, j, filled);
    }
    State st;
    st.apply_monomial(a, band, ef);
    st.apply_monomial(b, band, ef);
    check_state(st, h, n, alive, filled, true);
    vp_observe_u64("vanishes", st.vanishes);
    vp_reach("end");
}
// one step from any state with a particles and b holes, recorded in any order
HARNESS(inductive)
{
    const uint64_t a = vp_arg(0), b = vp_arg(1), n = a + b + 1;
    ArbitraryBand band;
    const double ef = read_band(band, vp_arg(2));
    Step h[8];
    read_steps(h, n, vp_arg(2));
    const auto filled = [&](uint64_t k) { return band.filled(k); };
    State st;
    for(uint64_t j = 0; j < a + b; ++j) {
        vp_assume(filled(h[j].k) == (j >= a));
        for(uint64_t i = 0; i < j; ++i) {
            vp_assume(!same(h[i], h[j]));
        }
        (j < a ? st.created_particles : st.annihilated_particles).push_back(typename Op::Indices(h[j].k, h[j].s));
    }
    const bool alive = advance(h, a + b, filled);
    st.apply_operator(Op{h[n - 1].c, h[n - 1].k, h[n - 1].s}, band, ef);
    check_state(st, h, n, alive, filled, true);
    vp_observe_u64("vanishes", st.vanishes);
    vp_reach("end");
}
// a long history, one operator of it arbitrary; args: length, position of the arbitrary one, length of
// the first monomial (0: operator by operator)
HARNESS(long_history)
{
    const uint64_t n = vp_arg(0), any = vp_arg(1), first = vp_arg(2);
    ArbitraryBand band;
    const double ef = read_band(band, 8);
    const auto filled = [&](uint64_t k) { return band.filled(k); };
    Step h[STEPS];
    bool alive = true, occupied[64];
    for(uint64_t m = 0; m < 64; ++m) occupied[m] = m / 2 % 2 == 0;
    Monomial a, b;
    for(uint64_t j = 0; j < n; ++j) {
        // each mode in turn is flipped; every few steps one is flipped back
        const uint64_t m = j % 5 == 4 ? j / 5 : 7 * j % 64;
        h[j]        = Step{!occupied[m], m / 2, m % 2 != 0};
        if(j == any) {
            h[j] = Step{vp_bool(vp_numbered("c", j)), vp_u64(vp_numbered("k", j)), vp_bool(vp_numbered("s", j))};
            vp_assume(h[j].k < 32);
        } else {
            occupied[m] = !occupied[m];
        }
        alive &= advance(h, j, filled);
    }
    State st;
    if(first == 0) {
        for(uint64_t j = 0; j < n; ++j) st.apply_operator(Op{h[j].c, h[j].k, h[j].s}, band, ef);
    } else {
        for(uint64_t j = first; j-- > 0;) a.push_back(Op{h[j].c, h[j].k, h[j].s});
        for(uint64_t j = n; j-- > first;) b.push_back(Op{h[j].c, h[j].k, h[j].s});
        st.apply_monomial(a, band, ef);
        st.apply_monomial(b, band, ef);
    }
    check_state(st, h, n, alive, filled, true);
    vp_observe_u64("vanishes", st.vanishes);
    vp_reach("end");
}
// arbitrary energies, default Fermi energy 0
HARNESS(default_energy)
{
    const uint64_t n = vp_arg(0), M = vp_arg(1);
    Table t;
    for(uint64_t k = 0; k < M; ++k) {
        const double e = vp_f64(ne[k]);
        vp_assume((e > -100.) & (e < 100.));
        t.e.push_back(e);
    }
    Step h[8];
    read_steps(h, n);
    Monomial m;
    for(uint64_t j = n; j-- > 0;) {
        vp_assume(h[j].k < M);
        h[j].k = vp_conc(h[j].k);
        m.push_back(Op{h[j].c, h[j].k, h[j].s});
    }
    const auto filled = [&](uint64_t k) { return t.e[k] < 0.; };
    bool alive = true;
    for(uint64_t j = 0; j < n; ++j) {
        alive &= advance(h, j, filled);
    }
    State st, su;
    st.apply_monomial(m, t);
    check_state(st, h, n, alive, filled, true);
    for(uint64_t j = 0; j < n; ++j) {
        su.apply_operator(Op{h[j].c, h[j].k, h[j].s}, t);
    }
    vp_assert(su.vanishes == st.vanishes && su.is_initial_fermi_sea() == st.is_initial_fermi_sea(), "operator by operator or as a monomial");
    vp_observe_u64("vanishes", st.vanishes);
    vp_reach("end");
}

// --------------------------------------------------------------------------------------------- C16: expectation values
struct Zone {
    uint64_t n;
    struct It {
        uint64_t i;
        uint64_t operator*() const { return i; }
        It& operator++()
        {
            ++i;
            return *this;
        }
        bool operator!=(const It& o) const { return i != o.i; }
    };
    uint64_t size() const { return n; }
    It begin() const { return It{0}; }
    It end() const { return It{n}; }
    int64_t operator[](uint64_t i) const { return int64_t(i); }
    uint64_t operator()(int64_t k) const { return uint64_t(k + 16 * int64_t(n)) % n; }
};
// Fock space: 2k+1 up, 2k down; sign by counting modes before
struct Fock {
    int sign;
    uint64_t occ;
};
static void fock_apply(Fock& f, bool c, uint64_t k, bool up)
{
    const uint64_t m = 2 * k + (up ? 1 : 0), bit = uint64_t(1) << m;
    if(f.sign == 0) {
        return;
    }
    if(((f.occ & bit) != 0) == c) {
        f.sign = 0;
        return;
    }
    if(__builtin_popcountll(f.occ & (bit - 1)) & 1) {
        f.sign = -f.sign;
    }
    f.occ ^= bit;
}
struct Elem {
    uint64_t k1, k2, k3;
};
// <sea| (s_a + d_a) (s_b + d_b)^+ |sea> with s = 2 c+_{k1,up} c+_{k2,down} c_{k3,down}, d = delta_{k2,k3} c+_{k1,up};
// the element 0 is c+_{q,up}
static int expectation(uint64_t sea, const Elem& a, bool a0, const Elem& b, bool b0)
{
    int sum = 0;
    for(int x = 0; x < 2; ++x) {
        for(int y = 0; y < 2; ++y) {
            if((x == 1 && (a0 || a.k2 != a.k3)) || (y == 1 && (b0 || b.k2 != b.k3))) {
                continue;
            }
            Fock f{1, sea};
            fock_apply(f, false, b.k1, true);
            if(!b0 && y == 0) {
                fock_apply(f, false, b.k2, false);
                fock_apply(f, true, b.k3, false);
            }
            // (c+1 c+2 c3)^+ = c+3 c2 c1
            if(!a0 && x == 0) {
                fock_apply(f, false, a.k3, false);
                fock_apply(f, true, a.k2, false);
            }
            fock_apply(f, true, a.k1, true);
            if(f.sign != 0 && f.occ == sea) {
                sum += f.sign * ((!a0 && x == 0) ? 2 : 1) * ((!b0 && y == 0) ? 2 : 1);
            }
        }
    }
    return sum;
}
static bool fixed_energies; // only the Fermi energy is arbitrary
static double read_table(Table& t, uint64_t N, uint64_t& sea)
{
    const double ef = vp_f64("ef");
    vp_assume((ef > -100.) & (ef < 100.));
    sea = 0;
    for(uint64_t k = 0; k < N; ++k) {
        const double e = fixed_energies ? double(5 * k % N) - 0.5 * double(N) : vp_f64(ne[k]);
        vp_assume((e > -100.) & (e < 100.));
        t.e.push_back(e);
        if(vp_conc(e < ef)) {
            sea |= uint64_t(3) << (2 * k);
        }
    }
    return ef;
}
static Elem elem(uint64_t N, uint64_t q, uint64_t i)
{
    if(i == 0) {
        return Elem{q, 0, 0};
    }
    const uint64_t k1 = (i - 1) / N, k2 = (i - 1) % N;
    return Elem{k1, k2, (k1 + k2 + N - q) % N};
}
static void listing_of(uint64_t N)
{
    const uint64_t q = vp_choose("q", 0, N - 1);
    Table t;
    uint64_t sea;
    const double ef = read_table(t, N, sea);
    const Zone zone{N};
    const Basis basis(q, zone);
    const Basis conj = basis.get_conjugate();
    Values v(basis, conj, t, ef);
    v.sort();
    // expected list, row by row
    uint64_t pos = 0;
    bool entries = true, values = true;
    for(uint64_t i = 0; i < 1 + N * N; ++i) {
        for(uint64_t j = 0; j < 1 + N * N; ++j) {
            const int x = expectation(sea, elem(N, q, i), i == 0, elem(N, q, j), j == 0);
            if(x == 0) {
                continue;
            }
            if(pos >= v.size()) {
                entries = false;
                break;
            }
            entries &= (v[pos].left_index == i) & (v[pos].right_index == j);
            values &= (v[pos].value == double(x));
            ++pos;
        }
    }
    vp_assert(entries && pos == v.size(), "exactly the non-vanishing products are listed, each once, sorted by left and right index");
    vp_assert(values, "the listed values are the expectation values");
    vp_observe_u64("n", v.size());
    vp_reach("end");
}
HARNESS(listing) { listing_of(vp_arg(0)); }
HARNESS(large_listing)
{
    fixed_energies = true;
    listing_of(vp_arg(0));
}
HARNESS(listing_default_energy)
{
    const uint64_t N = vp_arg(0);
    Table t;
    uint64_t sea = 0;
    for(uint64_t k = 0; k < N; ++k) {
        const double e = vp_f64(ne[k]);
        vp_assume((e > -100.) & (e < 100.));
        t.e.push_back(e);
        if(vp_conc(e < 0.)) {
            sea |= uint64_t(3) << (2 * k);
        }
    }
    const Zone zone{N};
    const Basis basis(0, zone);
    const Basis conj = basis.get_conjugate();
    const Values v(basis, conj, t);
    uint64_t expected = 0;
    for(uint64_t i = 0; i < 1 + N * N; ++i) {
        for(uint64_t j = 0; j < 1 + N * N; ++j) {
            expected += expectation(sea, elem(N, 0, i), i == 0, elem(N, 0, j), j == 0) != 0;
        }
    }
    vp_assert(v.size() == expected, "the default Fermi energy is 0");
    vp_observe_u64("n", v.size());
    vp_reach("end");
}
// sorting a list of arbitrary contributions
static void sorting_of(uint64_t n, uint64_t arbitrary)
{
    Table t;
    t.e.push_back(1.);
    const Zone zone{1};
    const Basis basis(0, zone);
    Values v(basis, basis.get_conjugate(), t, 0.);
    vp_assert(v.empty(), "nothing is listed for an empty sea");
    uint64_t l[64], r[64];
    for(uint64_t i = 0; i < n; ++i) {
        const bool any = arbitrary == 64 || i == arbitrary;
        l[i]           = any ? vp_u64(vp_numbered("l", i)) : 7 * i % 13;
        r[i]           = any ? vp_u64(vp_numbered("r", i)) : 5 * i % 11;
        v.push_back(Values::Contribution{l[i], r[i], double(i)});
    }
    v.sort();
    vp_assert(v.size() == n, "sorting keeps the number of entries");
    uint64_t seen = 0;
    for(uint64_t i = 0; i < n; ++i) {
        const uint64_t k = uint64_t(v[i].value);
        vp_assert(k < n && ((seen >> k) & 1) == 0, "sorting keeps every entry");
        seen |= uint64_t(1) << k;
        vp_assert((v[i].left_index == l[k]) & (v[i].right_index == r[k]), "sorting keeps the entries together");
        if(i > 0) {
            vp_assert((v[i - 1].left_index < v[i].left_index)
                          | ((v[i - 1].left_index == v[i].left_index) & (v[i - 1].right_index <= v[i].right_index)),
                      "sorted by left, then by right index");
        }
    }
    vp_observe_u64("first", n ? v[0].left_index : 0);
    vp_reach("end");
}
HARNESS(sorting) { sorting_of(vp_arg(0), 64); }
// args: number of entries, the one that is arbitrary
HARNESS(large_sorting) { sorting_of(vp_arg(0), vp_arg(1)); }

// --------------------------------------------------------------------------------------------- C17: particle number
static void number_of(uint64_t N)
{
    static char name[2][128][8];
    const uint64_t q = vp_choose("q", 0, N - 1);
    Table t;
    uint64_t sea;
    const double ef = read_table(t, N, sea);
    const Zone zone{N};
    const Basis basis(q, zone);
    const Basis conj = basis.get_conjugate();
    const auto number = ms::make_particle_number(basis, conj, t, ef);
    std::vector<C> h;
    for(uint64_t i = 0; i < 1 + N * N; ++i) {
        for(int z = 0; z < 2; ++z) {
            name[z][i][0] = z ? 'y' : 'x';
            name[z][i][1] = char('0' + i / 100);
            name[z][i][2] = char('0' + i / 10 % 10);
            name[z][i][3] = char('0' + i % 10);
            name[z][i][4] = 0;
        }
        const double x = vp_f64(name[0][i]), y = vp_f64(name[1][i]);
        vp_assume((x > -100.) & (x < 100.) & (y > -100.) & (y < 100.));
        h.push_back(C(x, y));
    }
    double expected = 0.;
    for(uint64_t i = 0; i < 1 + N * N; ++i) {
        for(uint64_t j = 0; j < 1 + N * N; ++j) {
            const int x = expectation(sea, elem(N, q, i), i == 0, elem(N, q, j), j == 0);
            if(x != 0) {
                // Re(h_i conj(h_j))
                expected += x * (h[i].real() * h[j].real() + h[i].imag() * h[j].imag());
            }
        }
    }
    const double n = number(h);
    vp_assert_eq_f64(n, expected, "the particle number is the quadratic form of the expectation values");
    for(auto& x : h) x *= 2.;
    vp_assert_eq_f64(number(h), 4. * expected, "the same vector with other values");
    vp_observe_u64("n", sea);
    vp_reach("end");
}
HARNESS(particle_number) { number_of(vp_arg(0)); }
HARNESS(large_number)
{
    fixed_energies = true;
    number_of(vp_arg(0));
}
