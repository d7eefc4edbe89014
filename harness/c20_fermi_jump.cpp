// C20: the Fermi jump is the squared modulus of the Fourier sum of the effective one-particle coefficients.
#include "vp.h"
#include <cassert>
#include <cmath>
#include <complex>
#include <functional>
#include <initializer_list>
#include <limits>
#include <numeric>
#include <string>
#include <vector>

#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump/1d.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump/2d.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump_no.hpp"

using namespace ieompp;
using Op       = algebra::Operator<uint64_t, bool>;
using Monomial = algebra::Monomial<Op>;
using Chain    = lattices::PeriodicChain<double, uint64_t>;
using Square   = lattices::PeriodicSquareLattice<double, uint64_t>;
namespace rs   = models::hubbard_real_space;
using R1       = rs::Basis1Operator<Monomial>;
using R3       = rs::Basis3Operator<Monomial>;
using J1       = rs::FermiJump1D<double, R1>;
using J3       = rs::FermiJump1D<double, R3>;
using P3       = rs::FermiJump2D<double, R3>;
using N1       = rs::FermiJump1D_NO<double, R1>;
using N3       = rs::FermiJump1D_NO<double, R3>;
using C        = std::complex<double>;
using Blaze    = blaze::DynamicVector<C>;

static double g[16][16];
static void read_matrix(uint64_t n)
{
    static char name[9][9][4];
    for(uint64_t a = 0; a < n; ++a) {
        for(uint64_t b = 0; b < n; ++b) {
            name[a][b][0] = 'g';
            name[a][b][1] = char('0' + a);
            name[a][b][2] = char('0' + b);
            name[a][b][3] = 0;
            const double v = vp_f64(name[a][b]);
            vp_assume((v > -8.) & (v < 8.));
            g[a][b] = v;
        }
    }
}
static double ev(const Op& a, const Op& b)
{
    vp_assert((a.index1 < 16) & (b.index1 < 16), "expectation values of existing sites");
    return g[a.index1][b.index1];
}
// fixed values but for the given matrix element and coefficients
static void fixed_matrix(uint64_t n, uint64_t a, uint64_t b)
{
    for(uint64_t i = 0; i < n; ++i) {
        for(uint64_t j = 0; j < n; ++j) {
            g[i][j] = double(1 + (5 * i + 3 * j) % 7) * 0.125;
        }
    }
    const double v = vp_f64("g");
    vp_assume((v > -8.) & (v < 8.));
    g[a][b] = v;
}
static std::vector<C> fixed_coefficients(uint64_t n, uint64_t a, uint64_t b)
{
    std::vector<C> h(n);
    for(uint64_t i = 0; i < n; ++i) {
        h[i] = C(double(i * i % 11) * 0.25 - 1., double(3 * i % 5) * 0.5 - 1.);
    }
    const double x = vp_f64("x"), y = vp_f64("y");
    vp_assume((x > -8.) & (x < 8.) & (y > -8.) & (y < 8.));
    h[a] = C(x, h[a].imag());
    h[b] = C(h[b].real(), y);
    return h;
}
template <typename V>
static V coefficients(char first, uint64_t n)
{
    static char name[2][4][1000][8];
    V h(n);
    const int s = first - 'a';
    for(uint64_t i = 0; i < n; ++i) {
        for(int z = 0; z < 2; ++z) {
            char* const p = name[z][s][i];
            p[0]          = z ? 'y' : 'x';
            p[1]          = first;
            p[2]          = char('0' + i / 100);
            p[3]          = char('0' + i / 10 % 10);
            p[4]          = char('0' + i % 10);
            p[5]          = 0;
        }
        const double x = vp_f64(name[0][s][i]), y = vp_f64(name[1][s][i]);
        vp_assume((x > -8.) & (x < 8.) & (y > -8.) & (y < 8.));
        h[i] = C(x, y);
    }
    return h;
}
// effective one-particle coefficient: 2 c+_i c+_j c_k = ... + (2 <c+_j c_k> - delta_jk) c+_i
template <typename V>
static void effective(uint64_t N, bool three, const V& h, uint64_t i, double& re, double& im)
{
    re = h[i].real();
    im = h[i].imag();
    if(three) {
        for(uint64_t j = 0; j < N; ++j) {
            for(uint64_t k = 0; k < N; ++k) {
                const double f = 2. * g[j][k] - (j == k ? 1. : 0.);
                const C& x     = h[N + (i * N + j) * N + k];
                re += f * x.real();
                im += f * x.imag();
            }
        }
    }
}
template <typename V>
static double jump(uint64_t N, bool three, const V& h, const double* phase)
{
    double re = 0., im = 0.;
    for(uint64_t i = 0; i < N; ++i) {
        double a, b;
        effective(N, three, h, i, a, b);
        const double c = std::cos(phase[i]), s = std::sin(phase[i]);
        re += c * a - s * b;
        im += c * b + s * a;
    }
    return re * re + im * im;
}
static double momentum(const char* name)
{
    const double k = vp_f64(name);
    vp_assume((k > -10.) & (k < 10.));
    return k;
}
template <typename J>
static void keeps(const J& jump, uint64_t N, const double* phase)
{
    J j(jump);
    for(uint64_t a = 0; a < N; ++a) {
        vp_assert_eq_f64(j.fourier_coefficient(a).real(), std::cos(phase[a]), "real part of the Fourier factor");
        vp_assert_eq_f64(j.fourier_coefficient(a).imag(), std::sin(phase[a]), "imaginary part of the Fourier factor");
        for(uint64_t b = 0; b < N; ++b) {
            vp_assert_eq_f64(j.expectation_value(Op::make_creator(a, true), Op::make_annihilator(b, true)), g[a][b],
                             "expectation values are those of the given function");
        }
    }
}
HARNESS(chain1)
{
    const uint64_t N = vp_arg(0);
    read_matrix(N < 4 ? N : 4);
    const double kF  = momentum("kF");
    auto h     = coefficients<std::vector<C>>('a', N);
    const Chain l(N, vp_arg(1) == 0 ? 1. : 0.5);
    const R1 b(l);
    double ph[32];
    for(uint64_t i = 0; i < N; ++i) {
        ph[i] = kF * l[i];
    }
    const J1 j(l, ev, kF);
    keeps(j, N < 9 ? N : 9, ph);
    const double w = jump(N, false, h, ph);
    vp_assert_eq_f64(j(b, h), w, "jump in the one-operator basis");
    vp_assert_eq_f64(j(b, h), w, "a second evaluation yields the same");
    for(auto& x : h) x *= 2.;
    vp_assert_eq_f64(j(b, h), 4. * w, "the same vector with other values");
    vp_reach("end");
}
HARNESS(chain3)
{
    const uint64_t N = vp_arg(0);
    const double kF  = momentum("kF");
    read_matrix(N);
    auto h = coefficients<std::vector<C>>('a', N + N * N * N);
    const Chain l(N, vp_arg(1) == 0 ? 1. : 0.5);
    const R3 b(l);
    double ph[32];
    for(uint64_t i = 0; i < N; ++i) {
        ph[i] = kF * l[i];
    }
    const J3 j(b, l, ev, kF);
    const double w = jump(N, true, h, ph);
    vp_assert_eq_f64(j(h), w, "jump in the three-operator basis");
    vp_assert_eq_f64(j(h), w, "a second evaluation yields the same");
    for(auto& x : h) x *= 2.;
    vp_assert_eq_f64(j(h), 4. * w, "the same vector with other values");
    vp_reach("end");
}
// larger lattices; all but one matrix element and two coefficients (the m-th ones) fixed
HARNESS(large_chain)
{
    const uint64_t N = vp_arg(0), m = vp_arg(1), size = N + N * N * N;
    const double kF = momentum("kF");
    fixed_matrix(N, m % N, m / N % N);
    const auto h = fixed_coefficients(size, m % size, (size - 1 - m) % size);
    const Chain l(N, 1.);
    const R3 b(l);
    double ph[32];
    for(uint64_t i = 0; i < N; ++i) {
        ph[i] = kF * l[i];
    }
    const J3 j(b, l, ev, kF);
    vp_assert_eq_f64(j(h), jump(N, true, h, ph), "jump in the three-operator basis");
    vp_reach("end");
}
HARNESS(large_square)
{
    const uint64_t X = vp_arg(0), Y = vp_arg(1), m = vp_arg(2), N = X * Y, size = N + N * N * N;
    const double kx = momentum("kx"), ky = momentum("ky");
    fixed_matrix(N, m % N, m / N % N);
    const auto h = fixed_coefficients(size, m % size, (size - 1 - m) % size);
    const Square l(X, Y, 1., 0.5);
    const R3 b(l);
    double ph[32];
    for(uint64_t i = 0; i < N; ++i) {
        ph[i] = kx * double(i / Y) + ky * (0.5 * double(i % Y));
    }
    const P3 j(b, l, ev, Square::Vector{kx, ky});
    vp_assert_eq_f64(j(h), jump(N, true, h, ph), "jump on the square lattice");
    vp_reach("end");
}
// several objects with different sizes, evaluated in turn
HARNESS(chain_history)
{
    const uint64_t N = vp_arg(0), M = vp_arg(1);
    const double kF  = momentum("kF");
    read_matrix(N > M ? N : M);
    const auto h = coefficients<std::vector<C>>('a', N + N * N * N), f = coefficients<std::vector<C>>('b', M + M * M * M);
    const Chain l(N, 1.), n(M, 1.);
    const R3 b(l), c(n);
    double ph[32], qh[32];
    for(uint64_t i = 0; i < N; ++i) {
        ph[i] = kF * l[i];
    }
    for(uint64_t i = 0; i < M; ++i) {
        qh[i] = kF * n[i];
    }
    const J3 j(b, l, ev, kF), k(c, n, ev, kF);
    const double w = jump(N, true, h, ph), z = jump(M, true, f, qh);
    vp_assert_eq_f64(j(h), w, "first object");
    vp_assert_eq_f64(k(f), z, "second object");
    vp_assert_eq_f64(j(h), w, "first object again");
    const std::vector<C> g0(N + N * N * N, C(0., 0.));
    vp_assert_eq_f64(j(g0), 0., "first object with other coefficients");
    vp_assert_eq_f64(k(f), z, "second object again");
    vp_reach("end");
}
HARNESS(chain_blaze)
{
    const uint64_t N = vp_arg(0);
    const double kF  = momentum("kF");
    read_matrix(N);
    auto h = coefficients<Blaze>('a', N + N * N * N);
    const Chain l(N, 1.);
    const R3 b(l);
    double ph[32];
    for(uint64_t i = 0; i < N; ++i) {
        ph[i] = kF * l[i];
    }
    const J3 j(b, l, ev, kF);
    const double w = jump(N, true, h, ph);
    vp_assert_eq_f64(j(h), w, "jump for Blaze vectors");
    for(auto& x : h) x *= 2.;
    vp_assert_eq_f64(j(h), 4. * w, "the same vector with other values");
    vp_reach("end");
}
HARNESS(normal_ordered)
{
    const uint64_t N = vp_arg(0);
    vp_opt("tol_exp", 36);
    auto h = coefficients<std::vector<C>>('a', N + N * N * N);
    const Chain l(N, vp_arg(1) == 0 ? 1. : 0.5);
    double ph[32];
    for(uint64_t i = 0; i < N; ++i) {
        ph[i] = 1.5707963267948966 * l[i];
    }
    const N3 j(l, ev);
    const N1 k(l, ev);
    read_matrix(N);
    keeps(j, N, ph);
    keeps(k, N, ph);
    // the basis is normal ordered already: only the one-operator coefficients contribute, k_F = pi/2
    const double w = jump(N, false, h, ph);
    vp_assert_eq_f64(j(h), w, "normal-ordered three-operator basis");
    vp_assert_eq_f64(j(h), w, "again");
    vp_assert_eq_f64(k(h), w, "one-operator basis");
    for(auto& x : h) x *= 2.;
    vp_assert_eq_f64(j(h), 4. * w, "the same vector with other values");
    vp_assert_eq_f64(k(h), 4. * w, "the same vector with other values, one-operator basis");
    vp_reach("end");
}
HARNESS(square)
{
    const uint64_t X = vp_arg(0), Y = vp_arg(1), N = X * Y;
    const double kx  = momentum("kx"), ky = momentum("ky");
    read_matrix(N);
    auto h = coefficients<std::vector<C>>('a', N + N * N * N);
    const Square l(X, Y, 1., 0.5);
    const R3 b(l);
    double ph[32];
    for(uint64_t i = 0; i < N; ++i) {
        const uint64_t x = i / Y, y = i % Y;
        ph[i]            = kx * double(x) + ky * (0.5 * double(y));
    }
    const P3 j(b, l, ev, Square::Vector{kx, ky});
    const double w = jump(N, true, h, ph);
    vp_assert_eq_f64(j(h), w, "jump on the square lattice");
    vp_assert_eq_f64(j(h), w, "a second evaluation yields the same");
    for(auto& x : h) x *= 2.;
    vp_assert_eq_f64(j(h), 4. * w, "the same vector with other values");
    vp_reach("end");
}
HARNESS(square_history)
{
    const double kx = momentum("kx"), ky = momentum("ky");
    read_matrix(4);
    const auto h = coefficients<std::vector<C>>('a', 2 + 8), f = coefficients<std::vector<C>>('b', 4 + 64);
    const Square l(1, 2, 1., 1.), n(2, 2, 1., 1.);
    const R3 b(l), c(n);
    const double ph[2] = {0., ky}, qh[4] = {0., ky, kx, kx + ky};
    const P3 j(b, l, ev, Square::Vector{kx, ky}), k(c, n, ev, Square::Vector{kx, ky});
    const double w = jump(2, true, h, ph), z = jump(4, true, f, qh);
    vp_assert_eq_f64(j(h), w, "first object");
    vp_assert_eq_f64(k(f), z, "second object");
    vp_assert_eq_f64(j(h), w, "first object again");
    vp_reach("end");
}
