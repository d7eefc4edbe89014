// C21: Liouvillian matrices.  Oracle: explicit Fock-space matrices of the orthonormal basis operators on three sites;
// larger lattices against the hopping/interaction rules (which are themselves checked against the Fock space).
#include "vp.h"
#include <algorithm>
#include <cassert>
#include <cmath>
#include <complex>
#include <functional>
#include <initializer_list>
#include <limits>
#include <numeric>
#include <string>
#include <type_traits>
#include <vector>

#include "ieompp/types/blaze.hpp"
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard/operator_traits.hpp"
#include "ieompp/models/hubbard_momentum_space/blaze_sparse.hpp"
#include "ieompp/models/hubbard_momentum_space/liouvillian.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/blaze_sparse.hpp"
#include "ieompp/models/hubbard_real_space/blaze_sparse_no.hpp"
#include "ieompp/models/hubbard_real_space/liouvillian.hpp"

using namespace ieompp;
using Op       = algebra::Operator<uint64_t, bool>;
using Monomial = algebra::Monomial<Op>;
using Chain    = lattices::PeriodicChain<double, uint64_t>;
using Square   = lattices::PeriodicSquareLattice<double, uint64_t>;
namespace rs   = models::hubbard_real_space;
namespace ms   = models::hubbard_momentum_space;
using R1       = rs::Basis1Operator<Monomial>;
using R3       = rs::Basis3Operator<Monomial>;
using M3       = ms::Basis3Operator<Monomial>;
using C        = std::complex<double>;
using SD       = blaze::CompressedMatrix<double>;
using SC       = blaze::CompressedMatrix<C>;

// ------------------------------------------------------------------------------------------------- Fock space
// mode 2*site + spin; states are bit sets
struct Fock {
    uint64_t modes, dim;
};
struct Factor {
    bool c;
    uint64_t mode;
};
// applies a product (rightmost first); returns the sign or 0
static int apply(const Factor* f, int n, uint64_t& state)
{
    int sign = 1;
    for(int k = n - 1; k >= 0; --k) {
        const uint64_t bit = uint64_t(1) << f[k].mode;
        if(((state & bit) != 0) == f[k].c) {
            return 0;
        }
        if(__builtin_parityll(state & (bit - 1))) {
            sign = -sign;
        }
        state ^= bit;
    }
    return sign;
}
struct Product {
    double w;
    int n;
    Factor f[4];
};
using Operator = std::vector<Product>;
using Dense    = std::vector<double>;
static Product product(double w, std::initializer_list<Factor> l)
{
    Product p;
    p.w = w;
    p.n = 0;
    for(const auto& x : l) {
        p.f[p.n++] = x;
    }
    return p;
}
// [h, a] as a dense matrix
static Dense commutator(const Fock& F, const Operator& h, const Operator& a)
{
    Dense r(F.dim * F.dim, 0.);
    for(uint64_t s = 0; s < F.dim; ++s) {
        for(const auto& x : a) {
            uint64_t t   = s;
            const int s1 = apply(x.f, x.n, t);
            if(s1 != 0) {
                for(const auto& y : h) {
                    uint64_t u   = t;
                    const int s2 = apply(y.f, y.n, u);
                    if(s2 != 0) {
                        r[u * F.dim + s] += double(s1 * s2) * x.w * y.w;
                    }
                }
            }
        }
        for(const auto& y : h) {
            uint64_t t   = s;
            const int s1 = apply(y.f, y.n, t);
            if(s1 != 0) {
                for(const auto& x : a) {
                    uint64_t u   = t;
                    const int s2 = apply(x.f, x.n, u);
                    if(s2 != 0) {
                        r[u * F.dim + s] -= double(s1 * s2) * x.w * y.w;
                    }
                }
            }
        }
    }
    return r;
}
// Tr(a^+ m) / dim
static double scalar(const Fock& F, const Operator& a, const Dense& m)
{
    double r = 0.;
    for(uint64_t s = 0; s < F.dim; ++s) {
        for(const auto& x : a) {
            uint64_t t   = s;
            const int s1 = apply(x.f, x.n, t);
            if(s1 != 0) {
                r += double(s1) * x.w * m[t * F.dim + s];
            }
        }
    }
    return r / double(F.dim);
}
static uint64_t mode(uint64_t site, bool up) { return 2 * site + (up ? 1 : 0); }
// basis operators without the common factor sqrt(2)
static Operator one(uint64_t i) { return Operator{product(1., {Factor{true, mode(i, true)}})}; }
static Operator three(uint64_t i, uint64_t j, uint64_t k)
{
    Operator r{product(2., {Factor{true, mode(i, true)}, Factor{true, mode(j, false)}, Factor{false, mode(k, false)}})};
    if(j == k) {
        r.push_back(product(-1., {Factor{true, mode(i, true)}}));
    }
    return r;
}
static double coupling(const char* name)
{
    const double x = vp_f64(name);
    vp_assume((x > -100.) & (x < 100.));
    return x;
}
// all entries of a real-space matrix against the Fock space; N sites on a ring
template <typename Matrix, typename Value>
static void real_oracle(uint64_t N, bool with_three, const Matrix& m, double J, double U, Value value)
{
    Fock F{2 * N, uint64_t(1) << (2 * N)};
    Operator kin, pot;
    for(uint64_t i = 0; i < N; ++i) {
        const uint64_t j = (i + 1) % N;
        for(int s = 0; s < 2; ++s) {
            kin.push_back(product(-1., {Factor{true, mode(i, s != 0)}, Factor{false, mode(j, s != 0)}}));
            kin.push_back(product(-1., {Factor{true, mode(j, s != 0)}, Factor{false, mode(i, s != 0)}}));
        }
        pot.push_back(product(1., {Factor{true, mode(i, true)}, Factor{false, mode(i, true)}, Factor{true, mode(i, false)}, Factor{false, mode(i, false)}}));
    }
    std::vector<Operator> basis;
    for(uint64_t i = 0; i < N; ++i) {
        basis.push_back(one(i));
    }
    if(with_three) {
        for(uint64_t i = 0; i < N; ++i) {
            for(uint64_t j = 0; j < N; ++j) {
                for(uint64_t k = 0; k < N; ++k) {
                    basis.push_back(three(i, j, k));
                }
            }
        }
    }
    vp_assert((m.rows() == basis.size()) & (m.columns() == basis.size()), "dimensions");
    for(uint64_t b = 0; b < basis.size(); ++b) {
        const Dense k = commutator(F, kin, basis[b]), p = commutator(F, pot, basis[b]);
        for(uint64_t a = 0; a < basis.size(); ++a) {
            const double e = 2. * (J * scalar(F, basis[a], k) + U * scalar(F, basis[a], p));
            value(m(a, b), e);
        }
    }
}
static void eq_real(double x, double e) { vp_assert_eq_f64(x, e, "matrix element is the scalar product of a basis operator with the commutator"); }
static void eq_complex(const C& x, double e)
{
    vp_assert_eq_f64(x.real(), e, "real part of a matrix element is the scalar product of a basis operator with the commutator");
    vp_assert_eq_f64(x.imag(), 0., "matrix elements are real");
}
HARNESS(kinetic_fock)
{
    const uint64_t N = vp_arg(0);
    const double J = coupling("J");
    const Chain l(N, 1.);
    const R1 b(l);
    SD m;
    rs::init_kinetic_matrix(rs::make_liouvillian<double>(J, 0.), m, b, l);
    real_oracle(N, false, m, J, 0., eq_real);
    vp_assert(m.complete(), "all rows are finalised");
    SC c;
    rs::init_kinetic_matrix(rs::make_liouvillian<double>(J, 0.), c, b, l);
    real_oracle(N, false, c, J, 0., eq_complex);
    SD n;
    rs::init_kinetic_matrix_no(rs::make_liouvillian<double>(J, 0.), n, b, l);
    real_oracle(N, false, n, J, 0., eq_real);
    vp_reach("end");
}
HARNESS(full_fock)
{
    const uint64_t N = vp_arg(0);
    const double J = coupling("J"), U = coupling("U");
    const Chain l(N, 1.);
    const R3 b(l);
    SD m;
    rs::init_matrix(rs::make_liouvillian(J, U), m, b, l);
    vp_assert(m.complete(), "all rows are finalised");
    real_oracle(N, true, m, J, U, eq_real);
    vp_reach("end");
}
// the same with complex matrices, built into a matrix that had another content before
HARNESS(full_fock_again)
{
    const uint64_t N = vp_arg(0);
    const double J = coupling("J"), U = coupling("U");
    const Chain l(N, 1.), l4(4, 1.);
    const R3 b(l);
    SC m;
    const R1 b4(l4);
    rs::init_kinetic_matrix(rs::make_liouvillian(U, J), m, b4, l4);
    rs::init_matrix(rs::make_liouvillian(J, U), m, b, l);
    real_oracle(N, true, m, J, U, eq_complex);
    vp_reach("end");
}
// ---------------------------------------------------------------------------------------- larger lattices: rules
template <typename Lattice>
static bool bond(const Lattice& l, uint64_t a, uint64_t b)
{
    for(auto n : l.neighbors(a)) {
        if(n == b) {
            return true;
        }
    }
    return false;
}
template <typename Lattice>
static double rule(const Lattice& l, uint64_t N, uint64_t a, uint64_t b, double J, double U)
{
    if(a < N && b < N) {
        return a == b ? U / 2. : (bond(l, a, b) ? -J : 0.);
    }
    if(a < N || b < N) {
        const uint64_t s = a < N ? a : b, t = a < N ? b : a;
        return t == N + (s * N + s) * N + s ? U / 2. : 0.;
    }
    const uint64_t x = a - N, y = b - N;
    const uint64_t p[3] = {x / (N * N), x / N % N, x % N}, q[3] = {y / (N * N), y / N % N, y % N};
    if(x == y) {
        return U / 2.;
    }
    int diff = -1, n = 0;
    for(int k = 0; k < 3; ++k) {
        if(p[k] != q[k]) {
            diff = k;
            ++n;
        }
    }
    if(n != 1 || !bond(l, p[diff], q[diff])) {
        return 0.;
    }
    return diff == 2 ? J : -J;
}
template <typename Lattice>
static void by_rule(const Lattice& l, uint64_t coordination)
{
    const double J = coupling("J"), U = coupling("U");
    const uint64_t N = l.size();
    const R3 b(l);
    SD m;
    rs::init_matrix(rs::make_liouvillian(J, U), m, b, l);
    vp_assert((m.rows() == N + N * N * N) & (m.columns() == m.rows()) & (m.complete()), "dimensions");
    for(uint64_t r = 0; r < m.rows(); ++r) {
        // the stored elements agree with the rules and there is one for each element that does not vanish
        uint64_t n = 0;
        for(uint64_t k = 0; k < m.nonZeros(r); ++k) {
            vp_assert_eq_f64(m.stored_value(r, k), rule(l, N, r, m.stored_column(r, k), J, U), "stored matrix element");
            n += rule(l, N, r, m.stored_column(r, k), 1., 1.) != 0. ? 1 : 0;
        }
        uint64_t want = 1 + coordination;
        if(r >= N) {
            const uint64_t x = r - N;
            want             = 1 + 3 * coordination + (x / (N * N) == x % N && x / N % N == x % N ? 1 : 0);
        } else {
            want += 1;
        }
        vp_assert(n == want, "number of elements in a row");
    }
    SD k;
    const R1 b1(l);
    rs::init_kinetic_matrix(rs::make_liouvillian(J, U), k, b1, l);
    for(uint64_t r = 0; r < N; ++r) {
        for(uint64_t c = 0; c < N; ++c) {
            vp_assert_eq_f64(k(r, c), bond(l, r, c) ? -J : 0., "kinetic matrix element");
        }
    }
    vp_reach("end");
}
HARNESS(chain_rule) { by_rule(Chain(vp_arg(0), 1.), 2); }
HARNESS(square_rule) { by_rule(Square(vp_arg(0), vp_arg(1), 1., 1.), 4); }
// the rules themselves on three sites
HARNESS(rules)
{
    const double J = coupling("J"), U = coupling("U");
    const Chain l(3, 1.);
    struct {
        const Chain& l;
        double J, U;
        uint64_t rows() const { return 30; }
        uint64_t columns() const { return 30; }
        double operator()(uint64_t a, uint64_t b) const { return rule(l, 3, a, b, J, U); }
    } m{l, J, U};
    real_oracle(3, true, m, J, U, eq_real);
    vp_reach("end");
}
// normal-ordered variant: well-formed (the stand-in asserts order, range, capacity) and complete rows
template <typename Lattice>
static void normal_ordered(const Lattice& l)
{
    const double J = vp_f64("J"), U = vp_f64("U");
    vp_assume((J > 0.001) & (J < 0.01) & (U > 10.) & (U < 100.));
    const R3 b(l);
    SD m;
    const auto ev = [](uint64_t x, uint64_t y) { return x == y ? 0.5 : 0.0625 * double(1 + (x > y ? x - y : y - x) % 3); };
    rs::init_matrix_no(rs::make_liouvillian(J, U), m, b, l, ev);
    vp_assert((m.rows() == b.size()) & (m.columns() == b.size()) & (m.complete()), "dimensions");
    vp_reach("end");
}
HARNESS(normal_ordered_chain) { normal_ordered(Chain(vp_arg(0), 1.)); }
HARNESS(normal_ordered_square) { normal_ordered(Square(vp_arg(0), vp_arg(1), 1., 1.)); }

// ------------------------------------------------------------------------------------------------ momentum space
struct Band {
    std::vector<double> e;
    double operator()(uint64_t i) const
    {
        vp_assert(i < e.size(), "dispersion of an existing momentum");
        return e[i];
    }
};
static Band band(uint64_t N)
{
    Band b;
    for(uint64_t i = 0; i < N; ++i) {
        b.e.push_back(coupling(vp_numbered("e", i)));
    }
    return b;
}
HARNESS(momentum_fock)
{
    vp_opt("tol_exp", 30);
    const uint64_t N = vp_arg(0), q = vp_arg(1);
    const double U = coupling("U");
    const ms::Liouvillian<double, Band> L{band(N), U};
    const Chain k(N);
    const M3 b(q, k);
    SD m;
    ms::init_matrix(L, m, b, k);
    vp_assert((m.rows() == 1 + N * N) & (m.columns() == 1 + N * N) & (m.complete()), "dimensions");
    const Fock F{2 * N, uint64_t(1) << (2 * N)};
    std::vector<Operator> kin(N);
    Operator pot;
    for(uint64_t i = 0; i < N; ++i) {
        for(int s = 0; s < 2; ++s) {
            kin[i].push_back(product(1., {Factor{true, mode(i, s != 0)}, Factor{false, mode(i, s != 0)}}));
        }
    }
    for(uint64_t x = 0; x < N; ++x) {
        for(uint64_t y = 0; y < N; ++y) {
            for(uint64_t z = 0; z < N; ++z) {
                pot.push_back(product(1., {Factor{true, mode((x + z) % N, true)}, Factor{false, mode(x, true)},
                                           Factor{true, mode((y + N - z) % N, false)}, Factor{false, mode(y, false)}}));
            }
        }
    }
    std::vector<Operator> basis;
    basis.push_back(one(q));
    for(uint64_t x = 0; x < N; ++x) {
        for(uint64_t y = 0; y < N; ++y) {
            basis.push_back(three(x, y, (x + y + N - q) % N));
        }
    }
    for(uint64_t c = 0; c < basis.size(); ++c) {
        std::vector<Dense> d;
        for(uint64_t i = 0; i < N; ++i) {
            d.push_back(commutator(F, kin[i], basis[c]));
        }
        const Dense p = commutator(F, pot, basis[c]);
        for(uint64_t r = 0; r < basis.size(); ++r) {
            double e = 2. * U * scalar(F, basis[r], p) / double(N);
            for(uint64_t i = 0; i < N; ++i) {
                e += 2. * L.dispersion(i) * scalar(F, basis[r], d[i]);
            }
            vp_assert_eq_f64(m(r, c), e, "matrix element is the scalar product of a basis operator with the commutator");
        }
    }
    vp_reach("end");
}
HARNESS(momentum_rule)
{
    vp_opt("tol_exp", 30);
    const uint64_t N = vp_arg(0), q = vp_choose("q", 0, N - 1);
    const double U = coupling("U");
    const ms::Liouvillian<double, Band> L{band(N), U};
    const Chain k(N);
    const M3 b(q, k);
    SC m;
    ms::init_matrix(L, m, b, k);
    for(uint64_t r = 0; r < b.size(); ++r) {
        for(uint64_t c = 0; c < b.size(); ++c) {
            double e = 0.;
            if(r == c) {
                e = U / 2.;
                if(r == 0) {
                    e += L.dispersion(q);
                } else {
                    const uint64_t x = (r - 1) / N, y = (r - 1) % N;
                    e += L.dispersion(x) + L.dispersion(y) - L.dispersion((x + y + N - q) % N);
                }
            } else if(r == 0 || c == 0) {
                e = U / (2. * double(N));
            }
            vp_assert_eq_f64(m(r, c).real(), e, "matrix element");
            vp_assert_eq_f64(m(r, c).imag(), 0., "real");
        }
    }
    vp_reach("end");
}
HARNESS(make)
{
    vp_opt("tol_exp", 36);
    const double J = coupling("J"), U = coupling("U");
    const auto r = rs::make_liouvillian(J, U);
    vp_assert_eq_f64(r.J, J, "hopping");
    vp_assert_eq_f64(r.U, U, "interaction");
    const uint64_t N = 5;
    const Chain k(N), l(N, 1.);
    const auto m = ms::make_liouvillian(k, l, J, U);
    vp_assert_eq_f64(m.U, U, "interaction");
    for(uint64_t i = 0; i < N; ++i) {
        vp_assert_eq_f64(m.dispersion(i), -2. * J * std::cos(k[i]), "tight-binding band");
    }
    // couplings left out are one
    const auto r1 = rs::make_liouvillian<double>(J), r2 = rs::make_liouvillian<double>();
    vp_assert_eq_f64(r1.J, J, "hopping given, interaction left out");
    vp_assert((r1.U == 1.) & (r2.J == 1.) & (r2.U == 1.), "default couplings in real space");
    const auto m1 = ms::make_liouvillian<double>(k, l, J), m2 = ms::make_liouvillian<double>(k, l);
    vp_assert((m1.U == 1.) & (m2.U == 1.), "default interaction in momentum space");
    for(uint64_t i = 0; i < N; ++i) {
        vp_assert_eq_f64(m1.dispersion(i), -2. * J * std::cos(k[i]), "band with the given hopping");
        vp_assert_eq_f64(m2.dispersion(i), -2. * std::cos(k[i]), "band with the default hopping");
    }
    vp_reach("end");
}
