// C24: number helpers.
#include "vp.h"
#include <cmath>
#include <complex>
#include <cstdlib>
#include <initializer_list>
#include <limits>
#include <type_traits>

#include "ieompp/types/number.hpp"

using namespace ieompp;
using C = std::complex<double>;

static const double EPS = 2.220446049250313e-16;   // 2^-52
static C read(const char* x, const char* y)
{
    const double a = vp_f64(x), b = vp_f64(y);
    return C(a, b);
}
static bool within(double x, double tol) { return (x < tol) & (-x < tol); }

// exact
HARNESS(products)
{
    const C a = read("ar", "ai"), b = read("br", "bi");
    const C c = types::conjugate(a);
    vp_assert_eq_f64(c.real(), a.real(), "real part of the conjugate");
    vp_assert_eq_f64(c.imag(), -a.imag(), "imaginary part of the conjugate");
    vp_assert_eq_f64(types::conjugate(a.real()), a.real(), "the conjugate of a real number");
    const uint64_t n = vp_u64("n");
    vp_assert(types::conjugate(n) == n, "the conjugate of an integer");
    const C p = types::multiply_with_conjugate(a, b);
    vp_assert_eq_f64(p.real(), a.real() * b.real() + a.imag() * b.imag(), "real part of a conj(b)");
    vp_assert_eq_f64(p.imag(), a.imag() * b.real() - a.real() * b.imag(), "imaginary part of a conj(b)");
    vp_assert_eq_f64(types::add_conjugate_products(a, b), 2. * (a.real() * b.real() + a.imag() * b.imag()), "a conj(b) + conj(a) b");
    vp_reach("end");
}
// bit-precise, every finite double
HARNESS(real_tests)
{
    const double a = vp_f64("a"), b = vp_f64("b");
    vp_assume(std::isfinite(a) & std::isfinite(b));
    vp_assert(types::IsZero(a) == within(a, EPS), "zero iff closer to zero than the machine precision");
    vp_assert(types::IsEqual(a, b) == within(a - b, EPS), "equal iff the difference is below the machine precision");
    // (hence symmetric: IEEE subtraction is antisymmetric)
    vp_assert(types::IsEqual(b, a) == within(b - a, EPS), "equal, arguments exchanged");
    vp_assert(types::IsEqual(a, a), "equality is reflexive");
    vp_observe_u64("eq", types::IsEqual(a, b));
    vp_reach("end");
}
HARNESS(real_tolerance)
{
    const double a = vp_f64("a"), b = vp_f64("b"), d = vp_f64("d");
    vp_assume(std::isfinite(a) & std::isfinite(b));
    vp_assume(d >= 0.);
    vp_assume(d < 1e300);
    vp_assert(types::IsZero(a, d) == within(a, d + EPS), "zero within a tolerance");
    vp_assert(types::IsEqual(a, b, d) == within(a - b, d + EPS), "equal within a tolerance");
    // (hence symmetric: IEEE subtraction is antisymmetric)
    vp_assert(types::IsEqual(b, a, d) == within(b - a, d + EPS), "equal within a tolerance, arguments exchanged");
    vp_observe_u64("eq", types::IsEqual(a, b, d));
    vp_reach("end");
}
HARNESS(complex_tests)
{
    const C a = read("ar", "ai"), b = read("br", "bi");
    vp_assume(std::isfinite(a.real()) & std::isfinite(b.real()) & std::isfinite(a.imag()) & std::isfinite(b.imag()));
    vp_assert(types::IsZero(a) == (within(a.real(), EPS) & within(a.imag(), EPS)), "zero iff both components are");
    vp_assert(types::IsEqual(a, b) == (within(a.real() - b.real(), EPS) & within(a.imag() - b.imag(), EPS)), "equal iff both components are");
    vp_observe_u64("eq", types::IsEqual(a, b));
    vp_reach("end");
}
HARNESS(complex_tolerance)
{
    const C a = read("ar", "ai"), b = read("br", "bi");
    const double d = vp_f64("d");
    vp_assume(std::isfinite(a.real()) & std::isfinite(b.real()) & std::isfinite(a.imag()) & std::isfinite(b.imag()));
    vp_assume(d >= 0.);
    vp_assume(d < 1e300);
    vp_assert(types::IsZero(a, d) == (within(a.real(), d + EPS) & within(a.imag(), d + EPS)), "zero within a tolerance iff both components are");
    vp_assert(types::IsEqual(a, b, d) == (within(a.real() - b.real(), d + EPS) & within(a.imag() - b.imag(), d + EPS)),
              "equal within a tolerance iff both components are");
    vp_observe_u64("eq", types::IsEqual(a, b, d));
    vp_reach("end");
}
HARNESS(integers)
{
    const uint64_t a = vp_u64("a"), b = vp_u64("b");
    vp_assert(types::IsZero(a) == (a == 0), "unsigned zero");
    vp_assert(types::IsEqual(a, b) == (a == b), "unsigned equality");
    vp_assert(types::IsZero(int64_t(a)) == (a == 0), "signed zero");
    vp_assert(types::IsEqual(int64_t(a), int64_t(b)) == (a == b), "signed equality");
    vp_assert(types::IsZero(uint8_t(a)) == (uint8_t(a) == 0), "byte zero");
    vp_assert(types::IsEqual(int32_t(a), int32_t(b)) == (int32_t(a) == int32_t(b)), "32-bit equality");
    vp_observe_u64("a", a);
    vp_reach("end");
}
HARNESS(traits)
{
    vp_assert(types::IsComplex<C>::value & types::IsComplex<std::complex<float>>::value, "complex types");
    vp_assert(!types::IsComplex<double>::value & !types::IsComplex<uint64_t>::value, "real types");
    vp_assert(std::is_same<types::RealType<C>::Type, double>::value & std::is_same<types::RealType<double>::Type, double>::value
                  & std::is_same<types::RealType<std::complex<float>>::Type, float>::value,
              "real types of complex and real types");
    vp_reach("end");
}
