// C36: products of vectors, and of function matrices with vectors, for the Eigen and the Blaze back-end.
#include "vp.h"
#include <cassert>
#include <cmath>
#include <complex>
#include <functional>
#include <initializer_list>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>
#if VP_EIGEN
#include <Eigen/Dense>
#include "ieompp/types/eigen/dot_product.hpp"
#include "ieompp/types/eigen/multiply_assign.hpp"
#else
#include "ieompp/types/blaze.hpp"
#endif
#include "ieompp/types/dot_product.hpp"
#include "ieompp/types/function_matrix.hpp"
#include "ieompp/types/multiply_assign.hpp"
using namespace ieompp;
using C = std::complex<double>;

static double number(char a, char b, uint64_t i, uint64_t j)
{
    static char n[26][2][24][24][8];
    static const char digits[] = "0123456789abcdefghijklmn";
    char* s = n[a - 'a'][b - 'a'][i][j];
    s[0]    = a;
    s[1]    = b;
    s[2]    = digits[i];
    s[3]    = digits[j];
    s[4]    = 0;
    const double x = vp_f64(s);
    vp_assume((x > -4.) & (x < 4.));
    return x;
}
template <typename S>
struct Make;
template <>
struct Make<double> {
    static double get(char a, uint64_t i, uint64_t j) { return number(a, 'a', i, j); }
};
template <>
struct Make<C> {
    static C get(char a, uint64_t i, uint64_t j)
    {
        const double x = number(a, 'a', i, j), y = number(a, 'b', i, j);
        return C(x, y);
    }
};
// entries of large matrices are not symbolic
template <typename S>
static S fixed(uint64_t i, uint64_t j);
template <>
double fixed<double>(uint64_t i, uint64_t j)
{
    return (double((5 * i + 3 * j) % 8) - 3.5) / 8.;
}
template <>
C fixed<C>(uint64_t i, uint64_t j)
{
    const double x = fixed<double>(i, j), y = fixed<double>(j, i + 1);
    return C(x, y);
}
static void same(double a, double b, const char* what) { vp_assert_eq_f64(a, b, what); }
static void same(const C& a, const C& b, const char* what)
{
    vp_assert_eq_f64(a.real(), b.real(), what);
    vp_assert_eq_f64(a.imag(), b.imag(), what);
}
static double mul(double a, double b) { return a * b; }
static C mul(const C& a, const C& b) { return C(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }

#if VP_EIGEN
template <typename S>
using Vector = Eigen::Matrix<S, Eigen::Dynamic, 1>;
template <typename S>
using Matrix = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
typedef Eigen::Vector2d Two;
typedef Eigen::Vector3d Three;
static uint64_t size(const Vector<double>& v) { return uint64_t(v.rows()); }
static uint64_t size(const Vector<C>& v) { return uint64_t(v.rows()); }
#else
template <typename S>
using Vector = blaze::DynamicVector<S>;
template <typename S>
using Matrix = blaze::DynamicMatrix<S>;
typedef blaze::StaticVector<double, 2> Two;
typedef blaze::StaticVector<double, 3> Three;
static uint64_t size(const Vector<double>& v) { return v.size(); }
static uint64_t size(const Vector<C>& v) { return v.size(); }
#endif

// numbers
HARNESS(numbers)
{
    const double x = number('x', 'a', 0, 0), y = number('y', 'a', 0, 0);
    vp_assert_eq_f64(types::dot_product(x, y), x * y, "product of two numbers");
    const uint64_t a = vp_u64("a"), b = vp_u64("b");
    vp_assert(types::dot_product(a, b) == a * b, "product of two integers");
    vp_observe_f64("p", types::dot_product(x, y));
    vp_reach("end");
}
template <typename V>
static void dot(V a, V b, uint64_t n)
{
    double sum = 0.;
    for(uint64_t i = 0; i < n; ++i) {
        a[i] = number('x', 'a', i, 0);
        b[i] = n < 4 ? number('y', 'a', i, 0) : fixed<double>(i, 1);
        sum += a[i] * b[i];
    }
    const double p = types::dot_product(a, b), q = types::dot_product(b, a);
    vp_assert_eq_f64(p, sum, "sum of the products of the components");
    vp_assert_eq_f64(p, q, "symmetric");
    vp_assert_eq_f64(types::dot_product(a, a) + types::dot_product(b, b) + 2. * p, types::dot_product(V(a + b), V(a + b)), "square of a sum");
    vp_observe_f64("p", p);
    vp_reach("end");
}
HARNESS(dot_dynamic)
{
    const uint64_t n = vp_arg(0);
    dot(Vector<double>(n), Vector<double>(n), n);
}
HARNESS(dot_two) { dot(Two(), Two(), 2); }
HARNESS(dot_three) { dot(Three(), Three(), 3); }
// v becomes M v for function matrices, one after the other for matrices of different sizes
template <typename S>
static void function_matrix(uint64_t n, char a, char x)
{
    S m[24][24] = {}, old[24] = {};
    Vector<S> v(n);
    for(uint64_t i = 0; i < n; ++i) {
        v[i] = old[i] = Make<S>::get(x, i, 0);
        for(uint64_t j = 0; j < n; ++j) m[i][j] = n < 4 ? Make<S>::get(a, i, j) : fixed<S>(i, j);
    }
    const types::FunctionMatrix<S, uint64_t> f(n, n, [&m](uint64_t i, uint64_t j) { return m[i][j]; });
    types::multiply_assign(f, v);
    vp_assert(size(v) == n, "size of the product");
    for(uint64_t i = 0; i < n; ++i) {
        S sum = S(0);
        for(uint64_t j = 0; j < n; ++j) sum += mul(m[i][j], old[j]);
        same(v[i], sum, "component of the product");
    }
    // the same vector and matrix with other values
    for(uint64_t i = 0; i < n; ++i) v[i] = old[n - 1 - i];
    m[0][n - 1] = S(1.25);
    types::multiply_assign(f, v);
    for(uint64_t i = 0; i < n; ++i) {
        S sum = S(0);
        for(uint64_t j = 0; j < n; ++j) sum += mul(m[i][j], old[n - 1 - j]);
        same(v[i], sum, "component of the product after changes");
    }
}
HARNESS(function_real)
{
    if(vp_arg(1)) function_matrix<double>(vp_arg(1), 'c', 'u');
    function_matrix<double>(vp_arg(0), 'm', 'x');
    vp_reach("end");
}
HARNESS(function_complex)
{
    if(vp_arg(1)) function_matrix<C>(vp_arg(1), 'c', 'u');
    function_matrix<C>(vp_arg(0), 'm', 'x');
    vp_reach("end");
}
// the general version, for matrices
template <typename S>
static void matrix(uint64_t n)
{
    Matrix<S> m(n, n);
    S old[24] = {};
    Vector<S> v(n);
    for(uint64_t i = 0; i < n; ++i) {
        v[i] = old[i] = Make<S>::get('x', i, 0);
        for(uint64_t j = 0; j < n; ++j) m(i, j) = n < 4 ? Make<S>::get('m', i, j) : fixed<S>(i, j);
    }
    types::multiply_assign(m, v);
    vp_assert(size(v) == n, "size of the product");
    for(uint64_t i = 0; i < n; ++i) {
        S sum = S(0);
        for(uint64_t j = 0; j < n; ++j) sum += mul(S(m(i, j)), old[j]);
        same(v[i], sum, "component of the product");
    }
    // the same vector and matrix with other values
    for(uint64_t i = 0; i < n; ++i) v[i] = old[n - 1 - i];
    m(0, n - 1) = S(1.25);
    types::multiply_assign(m, v);
    for(uint64_t i = 0; i < n; ++i) {
        S sum = S(0);
        for(uint64_t j = 0; j < n; ++j) sum += mul(S(m(i, j)), old[n - 1 - j]);
        same(v[i], sum, "component of the product after changes");
    }
    vp_reach("end");
}
HARNESS(matrix_real) { matrix<double>(vp_arg(0)); }
HARNESS(matrix_complex) { matrix<C>(vp_arg(0)); }
