// C23: one Runge-Kutta step is the fourth-order Taylor propagator.
#include "vp.h"
#include <cassert>
#include <cmath>
#include <complex>
#include <initializer_list>
#include <limits>
#include <string>
#include <type_traits>

#include "ieompp/types/blaze.hpp"
#include "ieompp/types/function_matrix.hpp"
#include "ieompp/ode/rk4.hpp"

using namespace ieompp;
using C  = std::complex<double>;
using VD = blaze::DynamicVector<double>;
using VC = blaze::DynamicVector<C>;

static double number(const char* n)
{
    const double x = vp_f64(n);
    vp_assume((x > -4.) & (x < 4.));
    return x;
}
struct Name {
    char s[6];
};
static const char* name(char a, char b, uint64_t i, uint64_t j)
{
    static Name n[26][4][24][24];
    static const char digits[] = "0123456789abcdefghijklmn";
    char* s = n[a - 'a'][b - 'a'][i][j].s;
    s[0]    = a;
    s[1]    = b;
    s[2]    = digits[i];
    s[3]    = digits[j];
    s[4]    = 0;
    return s;
}
template <typename S>
struct Make;
template <>
struct Make<double> {
    static double get(char a, uint64_t i, uint64_t j) { return number(name(a, 'a', i, j)); }
};
template <>
struct Make<C> {
    static C get(char a, uint64_t i, uint64_t j)
    {
        const double x = number(name(a, 'a', i, j)), y = number(name(a, 'b', i, j));
        return C(x, y);
    }
};
static void same(double a, double b, const char* what) { vp_assert_eq_f64(a, b, what); }
static void same(const C& a, const C& b, const char* what)
{
    vp_assert_eq_f64(a.real(), b.real(), what);
    vp_assert_eq_f64(a.imag(), b.imag(), what);
}
// no library complex arithmetic here
static double mul(double a, double b) { return a * b; }
static C mul(const C& a, const C& b) { return C(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
static double scale(double s, double a) { return s * a; }
static C scale(double s, const C& a) { return C(s * a.real(), s * a.imag()); }

// entries of large matrices are not symbolic
template <typename S>
static S fixed(uint64_t i, uint64_t j);
template <>
double fixed<double>(uint64_t i, uint64_t j)
{
    return (double((5 * i + 3 * j) % 8) - 3.5) / 8.;
}
template <>
C fixed<C>(uint64_t i, uint64_t j)
{
    const double x = fixed<double>(i, j), y = fixed<double>(j, i + 1);
    return C(x, y);
}
template <typename S>
struct Dense {
    uint64_t n;
    S m[24][24];
};
template <typename S>
static Dense<S> matrix(char a, uint64_t n)
{
    Dense<S> r;
    r.n = n;
    for(uint64_t i = 0; i < n; ++i) {
        for(uint64_t j = 0; j < n; ++j) {
            r.m[i][j] = n < 4 ? Make<S>::get(a, i, j) : fixed<S>(i, j);
        }
    }
    return r;
}
template <typename S>
static blaze::DynamicVector<S> vec(char a, uint64_t n)
{
    blaze::DynamicVector<S> v(n);
    for(uint64_t i = 0; i < n; ++i) {
        v[i] = Make<S>::get(a, i, 0);
    }
    return v;
}
// sum over k = 0..4 of (hM)^k / k! v
template <typename S>
static blaze::DynamicVector<S> taylor(const Dense<S>& m, double h, const blaze::DynamicVector<S>& v)
{
    blaze::DynamicVector<S> r(v), p(v);
    double f = 1.;
    // p_k = M^k v
    double hk = 1.;
    for(int k = 1; k <= 4; ++k) {
        blaze::DynamicVector<S> q(v.size());
        for(uint64_t i = 0; i < m.n; ++i) {
            S s = S();
            for(uint64_t j = 0; j < m.n; ++j) {
                s += mul(m.m[i][j], p[j]);
            }
            q[i] = s;
        }
        p = q;
        f *= double(k);
        hk *= h;
        for(uint64_t i = 0; i < m.n; ++i) {
            r[i] += scale(hk / f, p[i]);
        }
    }
    return r;
}
template <typename S>
static blaze::DynamicMatrix<S> dense(const Dense<S>& m)
{
    blaze::DynamicMatrix<S> r(m.n, m.n);
    for(uint64_t i = 0; i < m.n; ++i) {
        for(uint64_t j = 0; j < m.n; ++j) {
            r(i, j) = m.m[i][j];
        }
    }
    return r;
}
template <typename S>
static blaze::CompressedMatrix<S> sparse(const Dense<S>& m)
{
    blaze::CompressedMatrix<S> r(m.n, m.n);
    for(uint64_t i = 0; i < m.n; ++i) {
        for(uint64_t j = 0; j < m.n; ++j) {
            types::matrix_insert(r, i, j, m.m[i][j]);
        }
    }
    return r;
}
template <typename S>
static types::FunctionMatrix<S> function(const Dense<S>& m)
{
    return types::FunctionMatrix<S>(m.n, m.n, [&m](std::size_t i, std::size_t j) { return m.m[i][j]; });
}
template <typename S>
static void step(const ode::RK4<double>& rk, uint64_t kind, const Dense<S>& m, blaze::DynamicVector<S>& v)
{
    if(kind == 0) {
        const auto x = dense(m);
        rk.step(x, v);
    } else if(kind == 1) {
        const auto x = sparse(m);
        rk.step(x, v);
    } else {
        const auto x = function(m);
        rk.step(x, v);
    }
}
template <typename S>
static void single()
{
    vp_opt("tol_exp", 30);
    const uint64_t n = vp_arg(0), kind = vp_arg(1);
    const double h = n < 4 ? number("h") : 0.125;
    const ode::RK4<double> rk(n, h);
    vp_assert_eq_f64(rk.step_size(), h, "step size");
    vp_assert(rk.dimension() == n, "dimension");
    const auto m = matrix<S>('m', n);
    const auto v = vec<S>('v', n);
    auto u = v;
    step(rk, kind, m, u);
    vp_assert(u.size() == n, "the size of the vector does not change");
    const auto w = taylor(m, h, v);
    for(uint64_t i = 0; i < n; ++i) {
        same(u[i], w[i], "a step is the Taylor polynomial of degree four of the propagator");
    }
    vp_reach("end");
}
HARNESS(real_step) { single<double>(); }
HARNESS(complex_step) { single<C>(); }
// steps of different sizes do not influence each other; args: kinds of the first and second step, sizes
template <typename S>
static void history_of()
{
    vp_opt("tol_exp", 30);
    const uint64_t a = vp_arg(0), b = vp_arg(1), n = vp_arg(2), k = vp_arg(3);
    const double h = number("h"), g = number("g");
    const ode::RK4<double> r1(n, h), r2(k, g);
    const auto m1 = matrix<S>('m', n), m2 = matrix<S>('n', k);
    const auto v1 = vec<S>('v', n), v2 = vec<S>('w', k);
    auto u1 = v1;
    auto u2 = v2;
    step(r1, a, m1, u1);
    step(r2, b, m2, u2);
    const auto w1 = taylor(m1, h, v1);
    const auto w2 = taylor(m2, g, v2);
    for(uint64_t i = 0; i < n; ++i) {
        same(u1[i], w1[i], "the first step");
    }
    for(uint64_t i = 0; i < k; ++i) {
        same(u2[i], w2[i], "the second step");
    }
    auto u3 = v1;
    step(r1, a, m1, u3);
    for(uint64_t i = 0; i < n; ++i) {
        same(u3[i], w1[i], "the first step again");
    }
    vp_reach("end");
}
// the same matrix, integrator and vector with other values; args: dimension, kind of matrix
template <typename S>
static void in_place()
{
    vp_opt("tol_exp", 30);
    const uint64_t n = vp_arg(0), kind = vp_arg(1);
    const double h = number("h");
    const ode::RK4<double> rk(n, h);
    auto m       = matrix<S>('m', n);
    const auto v = vec<S>('v', n);
    auto x       = dense(m);
    auto y       = sparse(m);
    const auto z = function(m);
    auto u       = v;
    for(int round = 0; round < 3; ++round) {
        if(kind == 0) {
            rk.step(x, u);
        } else if(kind == 1) {
            rk.step(y, u);
        } else {
            rk.step(z, u);
        }
        blaze::DynamicVector<S> b(n);
        for(uint64_t i = 0; i < n; ++i) b[i] = round == 1 ? v[n - 1 - i] : v[i];
        const auto w = taylor(m, h, b);
        for(uint64_t i = 0; i < n; ++i) {
            same(u[i], w[i], "a step with changed matrix and vector");
            u[i] = round == 0 ? v[n - 1 - i] : v[i];
        }
        if(round == 0) continue; // first only the vector is changed
        m.m[0][n - 1] = S(1.25);
        x(0, n - 1)   = S(1.25);
        y             = sparse(m);
    }
    vp_reach("end");
}
HARNESS(real_in_place) { in_place<double>(); }
HARNESS(complex_in_place) { in_place<C>(); }
HARNESS(history) { history_of<double>(); }
HARNESS(complex_history) { history_of<C>(); }
HARNESS(product)
{
    const uint64_t n = vp_arg(0);
    const auto m     = matrix<double>('m', n);
    const auto v     = vec<double>('v', n);
    VD f(v), d(v);
    types::multiply_assign(function(m), f);
    types::multiply_assign(dense(m), d);
    for(uint64_t i = 0; i < n; ++i) {
        double s = 0.;
        for(uint64_t j = 0; j < n; ++j) {
            s += m.m[i][j] * v[j];
        }
        vp_assert_eq_f64(f[i], s, "product with a function matrix");
        vp_assert_eq_f64(d[i], s, "product with a matrix");
    }
    vp_assert((f.size() == n) & (d.size() == n), "sizes");
    vp_reach("end");
}
