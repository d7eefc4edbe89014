// C25: matrix predicates.
#include "vp.h"
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdlib>
#include <functional>
#include <initializer_list>
#include <limits>
#include <string>
#include <type_traits>

#include "ieompp/types/blaze.hpp"
#include "ieompp/types/function_matrix.hpp"
#include "ieompp/types/matrix_check.hpp"

using namespace ieompp;
using C = std::complex<double>;
static const double EPS = 2.220446049250313e-16;

struct Name {
    char s[6];
};
static const char* name(char a, char b, uint64_t i, uint64_t j)
{
    static Name n[26][4][5][5];
    char* s = n[a - 'a'][b - 'a'][i][j].s;
    s[0]    = a;
    s[1]    = b;
    s[2]    = char('0' + i);
    s[3]    = char('0' + j);
    s[4]    = 0;
    return s;
}
static double number(char a, char b, uint64_t i, uint64_t j)
{
    const double x = vp_f64(name(a, b, i, j));
    vp_assume((x > -1000.) & (x < 1000.));
    return x;
}
// large matrices: a few entries are symbolic, the others are those of a zero, symmetric or hermitian matrix
enum Base { SMALL, ZERO, SYMMETRIC, HERMITIAN };
static Base base;
static uint64_t places[4][2], place_count;
static void add_place(uint64_t i, uint64_t j)
{
    places[place_count][0] = i;
    places[place_count][1] = j;
    ++place_count;
}
static void large(Base b, uint64_t r, uint64_t c, uint64_t where)
{
    base        = b;
    place_count = 0;
    switch(where) {
    case 0: add_place(0, c - 1); add_place(r - 1, 0); break;
    case 1: add_place(r / 2, c / 2 - 1); add_place(c / 2 - 1, r / 2); break;
    case 2: add_place(r - 1, c - 2); add_place(r - 1, c - 1); break;
    case 3: add_place(r - 2, c - 1); add_place(0, 0); break;
    case 4: add_place(1, c - 3); add_place(c - 3, 1); break;
    }
}
static double part(char a, char b, uint64_t i, uint64_t j)
{
    if(base == SMALL) return number(a, b, i, j);
    for(uint64_t k = 0; k < place_count; ++k)
        if(places[k][0] == i && places[k][1] == j) return number(a, b, k, 0);
    if(base == ZERO) return 0.;
    if(b == 'a') return 1. / double(1 + i + j);
    return base == HERMITIAN ? 0.5 * (double(i) - double(j)) : 0.25 * double(i + j);
}
template <typename S>
struct Make;
template <>
struct Make<double> {
    static double get(char a, uint64_t i, uint64_t j) { return part(a, 'a', i, j); }
    static double re(double x) { return x; }
    static double im(double) { return 0.; }
};
template <>
struct Make<C> {
    static C get(char a, uint64_t i, uint64_t j)
    {
        const double x = part(a, 'a', i, j), y = part(a, 'b', i, j);
        return C(x, y);
    }
    static double re(const C& x) { return x.real(); }
    static double im(const C& x) { return x.imag(); }
};
template <typename S>
struct Dense {
    uint64_t r, c;
    S m[40][40];
};
template <typename S>
static Dense<S> matrix(char a, uint64_t r, uint64_t c)
{
    Dense<S> d;
    d.r = r;
    d.c = c;
    for(uint64_t i = 0; i < r; ++i) {
        for(uint64_t j = 0; j < c; ++j) {
            d.m[i][j] = Make<S>::get(a, i, j);
        }
    }
    return d;
}
template <typename S>
static types::FunctionMatrix<S> function(const Dense<S>& m)
{
    return types::FunctionMatrix<S>(m.r, m.c, [&m](std::size_t i, std::size_t j) {
        vp_assert((i < m.r) & (j < m.c), "only entries inside of the matrix are asked for");
        return m.m[i][j];
    });
}
template <typename S>
static blaze::DynamicMatrix<S> blaze_matrix(const Dense<S>& m)
{
    blaze::DynamicMatrix<S> r(m.r, m.c);
    for(uint64_t i = 0; i < m.r; ++i) {
        for(uint64_t j = 0; j < m.c; ++j) {
            r(i, j) = m.m[i][j];
        }
    }
    return r;
}
// only the entries of the pattern are stored; the others are zero
template <typename S>
static blaze::CompressedMatrix<S> compressed_matrix(Dense<S>& m, uint64_t pattern)
{
    blaze::CompressedMatrix<S> r(m.r, m.c);
    r.reserve(m.r * m.c);
    for(uint64_t i = 0; i < m.r; ++i) {
        for(uint64_t j = 0; j < m.c; ++j) {
            if((pattern >> ((i + 2 * j) % 4)) & 1) {
                r.append(i, j, m.m[i][j]);
            } else {
                m.m[i][j] = S(0.);
            }
        }
        r.finalize(i);
    }
    return r;
}
// a matrix is far from a property if one entry is off by more than the tolerance, and has it if all entries agree
static bool near(double a, double b)
{
    const double d = a - b;
    return (d < EPS) & (-d < EPS);
}
template <typename S>
static bool sym(const Dense<S>& m, double sign)
{
    bool r = m.r == m.c;
    if(!r) {
        return false;
    }
    for(uint64_t i = 0; i < m.r; ++i) {
        for(uint64_t j = 0; j < m.c; ++j) {
            r = r & near(Make<S>::re(m.m[i][j]), Make<S>::re(m.m[j][i])) & near(Make<S>::im(m.m[i][j]), sign * Make<S>::im(m.m[j][i]));
        }
    }
    return r;
}
template <typename S>
static bool zero(const Dense<S>& m)
{
    bool r = true;
    for(uint64_t i = 0; i < m.r; ++i) {
        for(uint64_t j = 0; j < m.c; ++j) {
            r = r & near(Make<S>::re(m.m[i][j]), 0.) & near(Make<S>::im(m.m[i][j]), 0.);
        }
    }
    return r;
}
template <typename S>
static void predicates()
{
    const uint64_t r = vp_arg(0), c = vp_arg(1);
    const auto m = matrix<S>('m', r, c);
    const auto f = function(m);
    const auto b = blaze_matrix(m);
    const bool s = sym(m, 1.), h = sym(m, -1.);
    vp_assert((f.rows() == r) & (f.cols() == c), "dimensions of a function matrix");
    vp_assert(types::is_quadratic(f) == (r == c), "quadratic function matrix");
    vp_assert(types::is_quadratic(b) == (r == c), "quadratic matrix");
    switch(vp_arg(2)) {
    case 0: vp_assert(types::is_symmetric(f) == s, "a function matrix is symmetric iff every entry equals its transposed entry"); break;
    case 1: vp_assert(types::is_hermitian(f) == h, "a function matrix is hermitian iff every entry equals its conjugate transposed entry"); break;
    case 2: vp_assert(types::is_symmetric(b) == s, "a matrix is symmetric iff every entry equals its transposed entry"); break;
    case 3: vp_assert(types::is_hermitian(b) == h, "a matrix is hermitian iff every entry equals its conjugate transposed entry"); break;
    case 4: vp_assert(types::IsZero(b) == zero(m), "a matrix is zero iff every entry is"); break;
    }
    vp_reach("end");
}
template <typename S>
static void compressed()
{
    const uint64_t r = vp_arg(0), c = vp_arg(1);
    auto m       = matrix<S>('m', r, c);
    const auto b = compressed_matrix(m, vp_arg(3));
    vp_assert(types::is_quadratic(b) == (r == c), "quadratic matrix");
    switch(vp_arg(2)) {
    case 0: vp_assert(types::is_symmetric(b) == sym(m, 1.), "a compressed matrix is symmetric iff every entry equals its transposed entry"); break;
    case 1: vp_assert(types::is_hermitian(b) == sym(m, -1.), "a compressed matrix is hermitian iff every entry equals its conjugate transposed entry"); break;
    case 2: vp_assert(types::IsZero(b) == zero(m), "a compressed matrix is zero iff every entry is"); break;
    }
    typedef blaze::DynamicVector<S> V;
    typedef blaze::CompressedVector<S> W;
    const V v(r);
    const W w(r);
    vp_assert((types::MatrixDimensionInfo<V>::rows(v) == r) & (types::MatrixDimensionInfo<V>::columns(v) == 1), "dimensions of a vector");
    vp_assert((types::MatrixDimensionInfo<W>::rows(w) == r) & (types::MatrixDimensionInfo<W>::columns(w) == 1), "dimensions of a compressed vector");
    vp_reach("end");
}
// which predicate, size, places
static Base base_of(uint64_t p) { return p == 4 ? ZERO : p % 2 ? HERMITIAN : SYMMETRIC; }
HARNESS(real_large)
{
    large(base_of(vp_arg(2)), vp_arg(0), vp_arg(1), vp_arg(3));
    predicates<double>();
}
HARNESS(complex_large)
{
    large(base_of(vp_arg(2)), vp_arg(0), vp_arg(1), vp_arg(3));
    predicates<C>();
}
HARNESS(real_compressed) { compressed<double>(); }
HARNESS(complex_compressed) { compressed<C>(); }
HARNESS(real_predicates) { predicates<double>(); }
HARNESS(complex_predicates) { predicates<C>(); }
template <typename S>
static void equality_of()
{
    const uint64_t r = vp_arg(0), c = vp_arg(1), p = vp_arg(2), q = vp_arg(3);
    const auto m = matrix<S>('m', r, c), n = matrix<S>('n', p, q);
    bool same    = (r == p) & (c == q);
    if(same) {
        for(uint64_t i = 0; i < r; ++i) {
            for(uint64_t j = 0; j < c; ++j) {
                same = same & near(Make<S>::re(m.m[i][j]), Make<S>::re(n.m[i][j])) & near(Make<S>::im(m.m[i][j]), Make<S>::im(n.m[i][j]));
            }
        }
    }
    const auto f = function(m), g = function(n);
    if(vp_arg(4) == 0) {
        vp_assert((f == g) == same, "function matrices are equal iff dimensions and all entries agree");
    } else {
        vp_assert((f != g) == !same, "function matrices are unequal iff dimensions or an entry differ");
    }
    vp_reach("end");
}
HARNESS(real_equality) { equality_of<double>(); }
HARNESS(complex_equality) { equality_of<C>(); }
HARNESS(real_large_equality)
{
    large(SYMMETRIC, vp_arg(0), vp_arg(1), vp_arg(5));
    equality_of<double>();
}
HARNESS(complex_large_equality)
{
    large(HERMITIAN, vp_arg(0), vp_arg(1), vp_arg(5));
    equality_of<C>();
}
