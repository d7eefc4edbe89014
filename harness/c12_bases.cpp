// C12, C13: the operator bases of the real-space and of the momentum-space model.
#include "vp.h"
#include <initializer_list>
#include <string>
#include <vector>

#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/models/hubbard/operator_traits.hpp"
#include "ieompp/models/hubbard_momentum_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"

using namespace ieompp;
using Op       = algebra::Operator<uint64_t, bool>;
using Monomial = algebra::Monomial<Op>;
using Chain    = lattices::PeriodicChain<double, uint64_t>;
namespace rs   = models::hubbard_real_space;
namespace ms   = models::hubbard_momentum_space;
using R1       = rs::Basis1Operator<Monomial>;
using R3       = rs::Basis3Operator<Monomial>;
using M3       = ms::Basis3Operator<Monomial>;

// a lattice with an arbitrary number of sites
struct Sites {
    struct It {
        uint64_t i;
        uint64_t operator*() const { return i; }
        It& operator++()
        {
            ++i;
            return *this;
        }
        bool operator!=(const It& o) const { return i != o.i; }
    };
    uint64_t n;
    uint64_t size() const { return n; }
    It begin() const { return It{0}; }
    It end() const { return It{n}; }
};

static bool is_op(const Op& o, bool creator, uint64_t site, bool up)
{
    return (o.creator == creator) & (o.index1 == site) & (o.index2 == up);
}
static bool is_creator(const Monomial& m, uint64_t i, bool conj)
{
    return m.size() == 1 && is_op(m[0], !conj, i, true);
}
// c+_{i1,up} c+_{i2,down} c_{i3,down} or its conjugate
static bool is_string(const Monomial& m, uint64_t i1, uint64_t i2, uint64_t i3, bool conj)
{
    if(m.size() != 3) {
        return false;
    }
    if(conj) {
        return is_op(m[0], true, i3, false) & is_op(m[1], false, i2, false) & is_op(m[2], false, i1, true);
    }
    return is_op(m[0], true, i1, true) & is_op(m[1], true, i2, false) & is_op(m[2], false, i3, false);
}

template <typename Lattice>
static void check_real1(const Lattice& l, uint64_t N)
{
    const R1 b(l);
    const R1 c = b.get_conjugate();
    vp_assert(b.size() == N, "the one-operator basis has one element per site");
    vp_assert(c.size() == N, "the conjugate basis has the same size");
    vp_assert(b.N == N && c.N == N, "the basis knows the number of sites");
    const uint64_t i = vp_conc(vp_below("i", N));
    vp_assert(is_creator(b[i], i, false), "one-operator basis: creator of site i with spin up at position i");
    vp_assert(is_creator(c[i], i, true), "conjugate one-operator basis");
    vp_observe_u64("op", b[i][0].index1);
}
template <typename Lattice>
static void check_real3(const Lattice& l, uint64_t N, uint64_t one = 0, uint64_t fixed = 0)
{
    const R3 b(l);
    const R3 c = b.get_conjugate();
    vp_assert(b.size() == N + N * N * N, "the three-operator basis has N + N^3 elements");
    vp_assert(c.size() == b.size(), "the conjugate basis has the same size");
    vp_assert(b.N == N && c.N == N, "the basis knows the number of sites");
    // all sites are arbitrary, or one of them with the others fixed
    const auto site = [&](uint64_t k, const char* name) { return one == 0 || one == k ? vp_below(name, N) : (fixed + k) % N; };
    const uint64_t i1 = site(1, "i1"), i2 = site(2, "i2"), i3 = site(3, "i3");
    // a position is asked for with arbitrary sites
    const uint64_t p = b.get_3op_index(i1, i2, i3);
    vp_assert((p >= N) & (p < b.size()), "three-operator positions follow the one-operator positions");
    vp_assert(c.get_3op_index(i1, i2, i3) == p, "the conjugate basis uses the same positions");
    const uint64_t q = vp_conc(p);
    vp_assert(is_string(b[q], i1, i2, i3, false), "the string is stored at the position that is reported for it");
    vp_assert(is_string(c[q], i1, i2, i3, true), "the conjugate basis stores the conjugate string there");
    const uint64_t i = one != 0 && one < 4 ? fixed % N : vp_conc(vp_below("i", N));
    vp_assert(is_creator(b[i], i, false), "three-operator basis: creator of site i with spin up at position i");
    vp_assert(is_creator(c[i], i, true), "conjugate three-operator basis: annihilator at position i");
    vp_observe_u64("p", p);
}

HARNESS(real1_chain)
{
    const uint64_t N = vp_arg(0);
    const Chain l(N, 1.);
    check_real1(l, N);
    vp_reach("end");
}
HARNESS(real1_sites)
{
    const Sites l{vp_arg(0)};
    check_real1(l, l.n);
    vp_reach("end");
}
HARNESS(real3_chain)
{
    const uint64_t N = vp_arg(0);
    const Chain l(N, 1.);
    check_real3(l, N);
    vp_reach("end");
}
HARNESS(real3_large)
{
    const Chain l(vp_arg(0), 1.);
    check_real3(l, vp_arg(0), vp_arg(1), vp_arg(2));
    vp_reach("end");
}
HARNESS(real3_sites)
{
    const Sites l{vp_arg(0)};
    check_real3(l, l.n);
    vp_reach("end");
}
template <typename B>
static auto set_squared(B& b, uint64_t v, int) -> decltype(b.N_squared, void())
{
    const_cast<uint64_t&>(b.N_squared) = v;
}
template <typename B>
static void set_squared(B&, uint64_t, long)
{
}
// the position is unique for arbitrarily large lattices: different sites never share one
HARNESS(real3_position)
{
    const Sites l{2};
    R3 b(l);
    const uint64_t N = vp_arg(0);
    const_cast<uint64_t&>(b.N) = N;
    set_squared(b, N * N, 0);
    const uint64_t i1 = vp_below("i1", N), i2 = vp_below("i2", N), i3 = vp_below("i3", N);
    vp_assert(b.get_3op_index(i1, i2, i3) == N + (i1 * N + i2) * N + i3, "positions are row-major");
    vp_reach("end");
}

// ------------------------------------------------------------------------------------------------ momentum space
HARNESS(momentum)
{
    const uint64_t N = vp_arg(0);
    const Chain bz(N);
    // everything is arbitrary, or one of q, k1 and k2 with the others fixed
    const uint64_t one = vp_arg(1), q = one < 2 ? vp_choose("q", 0, N - 1) : vp_arg(2) % N;
    const M3 b(q, bz);
    const M3 c = b.get_conjugate();
    M3 d(b);
    d.conjugate();
    vp_assert(b.size() == 1 + N * N, "the momentum basis has 1 + N^2 elements");
    vp_assert(c.size() == b.size() && d.size() == b.size(), "the conjugate basis has the same size");
    vp_assert(b.N == N && c.N == N, "the basis knows the number of momenta");
    vp_assert(is_creator(b[0], q, false), "the first element creates the total momentum with spin up");
    vp_assert(is_creator(c[0], q, true), "its conjugate annihilates the total momentum");
    vp_assert(is_creator(d[0], q, true), "conjugating in place: first element");
    const uint64_t i1 = one == 0 || one == 2 ? vp_below("i1", N) : (vp_arg(2) + 3) % N;
    const uint64_t i2 = one == 0 || one == 3 ? vp_below("i2", N) : (vp_arg(2) + 5) % N;
    const uint64_t p = b.get_3op_index(i1, i2);
    vp_assert((p >= 1) & (p < b.size()), "positions of strings follow the first element");
    const uint64_t k = vp_conc(p);
    // site i has momentum 2 pi i / N - pi: k3 = k1 + k2 - q holds for the site indices modulo N
    const uint64_t i3 = (i1 + i2 + N - q) % N;
    vp_assert(is_string(b[k], i1, i2, i3, false), "the string with k3 = k1 + k2 - q is stored at the reported position");
    vp_assert(is_string(c[k], i1, i2, i3, true), "the conjugate basis stores the conjugate string there");
    vp_assert(is_string(d[k], i1, i2, i3, true), "conjugating in place gives the conjugate string");
    vp_observe_u64("p", p);
    vp_observe_u64("k3", b[k][2].index1);
    vp_reach("end");
}
// a Brillouin zone in exact integer arithmetic, of which only the interface is assumed
struct IntegerZone {
    uint64_t n;
    struct It {
        uint64_t i;
        uint64_t operator*() const { return i; }
        It& operator++()
        {
            ++i;
            return *this;
        }
        bool operator!=(const It& o) const { return i != o.i; }
    };
    uint64_t size() const { return n; }
    It begin() const { return It{0}; }
    It end() const { return It{n}; }
    int64_t operator[](uint64_t i) const { return int64_t(i) + 7; }
    uint64_t operator()(int64_t k) const { return uint64_t(k - 7 + 16 * int64_t(n)) % n; }
};
HARNESS(momentum_interface)
{
    const uint64_t N = vp_arg(0);
    const IntegerZone bz{N};
    const uint64_t q = vp_choose("q", 0, N - 1);
    const M3 b(q, bz);
    const uint64_t i1 = vp_below("i1", N), i2 = vp_below("i2", N);
    const uint64_t p = b.get_3op_index(i1, i2);
    vp_assert((p >= 1) & (p < b.size()), "positions of strings follow the first element");
    const uint64_t k = vp_conc(p);
    vp_assert(is_string(b[k], i1, i2, (i1 + i2 + N - q) % N, false), "the string with k3 = k1 + k2 - q is stored at the reported position");
    vp_observe_u64("k3", b[k][2].index1);
    vp_reach("end");
}
HARNESS(momentum_position)
{
    const Chain bz(2);
    M3 b(0, bz);
    const uint64_t N = vp_arg(0);
    const_cast<std::size_t&>(b.N) = N;
    const uint64_t i1 = vp_below("i1", N), i2 = vp_below("i2", N);
    vp_assert(b.get_3op_index(i1, i2) == 1 + i1 * N + i2, "positions are row-major");
    vp_reach("end");
}
