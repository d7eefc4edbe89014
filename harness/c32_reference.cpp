// C32: pieces of the reference programs: powers of -i (kinetic theory) and the occupation of the two-site model.
#include "vp.h"
#include <cmath>
#include <complex>
#include <cstdint>
#include <fstream>
#include <iostream>
#include <numeric>
#include <sstream>
#include <vector>
#include "ieompp/types/blaze.hpp"
#include "program_record.h"
typedef std::complex<double> C;
static uint64_t vp_sites, vp_steps;
static double vp_J, vp_U;
namespace ieompp_verify
{
    inline uint64_t sites() { return vp_sites; }
    inline uint64_t steps() { return vp_steps; }
    inline double hopping() { return vp_J; }
    inline double interaction() { return vp_U; }
}
// values of the Bessel functions J_d(2 s dt): anything in [-1, 1]
static double bessel[16][32];
#define BOOST_MATH_BESSEL_HPP
namespace boost
{
    namespace math
    {
        template <typename T>
        double cyl_bessel_j(T order, double x)
        {
            double n = double(order), sign = 1.;
            if(n < 0.) {
                n    = -n;
                sign = int(n) % 2 ? -1. : 1.;
            }
            for(int d = 0; d < 16; ++d)
                for(uint64_t s = 0; s < vp_steps; ++s)
                    if(n == double(d) && std::abs(x - 2. * double(s) * 0.01) < 1e-9) return sign * bessel[d][s];
            vp_assert(false, "Bessel functions of distances and times that occur");
            return 0.;
        }
    }
    namespace program_options
    {
    }
}
#define PROGRAM_OPTIONS_VP_2003_05_19
namespace std
{
    static vp_ostream vp_cout;
    typedef vp_ostream vp_ofstream;
}
#include "ieompp/lattices/periodic_chain.hpp"
#define IEOMPP_VERIFY 1
// chosen only where the program has no function of that name
static bool no_such_function;
struct Anything {
    template <typename T>
    Anything(const T&)
    {
    }
};
static std::complex<double> minus_i_power(Anything)
{
    no_such_function = true;
    return 0.;
}
static std::complex<double> particle_number(Anything)
{
    no_such_function = true;
    return 0.;
}
#define SKIP_IF_MISSING()             \
    if(no_such_function) {            \
        vp_assert(true, "no helper"); \
        vp_reach("end");              \
        return;                       \
    }
#define cout vp_cout
#define ofstream vp_ofstream
#define ostream vp_ostream
// still a main function (its end returns 0), under another name
int main() __asm__("vp_program_main");
#if VP_PROGRAM == 1
#include "hubbard_real_1d_kinetic_theory.cpp"
#elif VP_PROGRAM == 2
#include "hubbard_trivial.cpp"
#else
#include "hubbard_dispersion_1d.cpp"
#endif
#undef ostream
#undef ofstream
#undef cout

static const double PI = 3.14159265358979323846264338327950288;
static void run_program(uint64_t rows, int columns)
{
    rows_written    = 0;
    after_separator = malformed = false;
    for(int r = 0; r < ROWS; ++r) row_columns[r] = 0;
    vp_assert(main() == 0, "success");
    vp_assert(!malformed & !after_separator, "tab separated columns");
    vp_assert(rows_written == int(rows), "a row for every step");
    for(uint64_t r = 0; r < rows; ++r) vp_assert(row_columns[r] == columns, "all columns in every row");
}
#if VP_PROGRAM == 1
// does the program take exponents of that type?
template <typename T>
auto takes(int) -> decltype(static_cast<C (*)(T)>(&minus_i_power), std::true_type());
template <typename T>
std::false_type takes(...);
// (-i)^n for every exponent
HARNESS(powers)
{
    const uint64_t n = vp_u64("n");
    if(!decltype(takes<uint64_t>(0))::value) vp_assume(n <= 0x7fffffff);
    const C z = minus_i_power(n);
    SKIP_IF_MISSING();
    static const double re[] = {1., 0., -1., 0.}, im[] = {0., -1., 0., 1.};
    const uint64_t m = n & 3;
    vp_assert((z.real() == re[m]) & (z.imag() == im[m]), "(-i)^n");
    vp_observe_f64("re", z.real());
    vp_observe_f64("im", z.imag());
    vp_reach("end");
}
// the whole table: sum of <c_i^+ c_j> h_i(t) conj(h_j(t)) with h_d(t) = (-i)^d J_d(2 t) in the half-filled chain
HARNESS(theory)
{
    vp_opt("tol_exp", 30);
    vp_sites = vp_arg(0);
    vp_steps = vp_arg(1);
    for(uint64_t d = 0; d <= vp_sites / 2; ++d) {
        for(uint64_t s = 0; s < vp_steps; ++s) {
            const char step[] = {'_', char('0' + s), 0};
            bessel[d][s]      = vp_f64(vp_numbered("b", d, step));
            vp_assume((bessel[d][s] >= -1.) & (bessel[d][s] <= 1.));
        }
    }
    run_program(vp_steps, 3);
    auto ring = [](uint64_t a, uint64_t b) {
        const uint64_t d = a > b ? a - b : b - a;
        return d < vp_sites - d ? d : vp_sites - d;
    };
    for(uint64_t s = 0; s < vp_steps; ++s) {
        double re = 0., im = 0.;
        for(uint64_t i = 0; i < vp_sites; ++i) {
            for(uint64_t j = 0; j < vp_sites; ++j) {
                const uint64_t di = ring(0, i), dj = ring(0, j), d = ring(i, j);
                const double ev = d == 0 ? 0.5 : std::sin(PI / 2. * double(d)) / (PI * double(d));
                const double bb = ev * bessel[di][s] * bessel[dj][s];
                switch((di + 3 * dj) % 4) { // (-i)^di (i)^dj
                    case 0: re += bb; break;
                    case 1: im -= bb; break;
                    case 2: re -= bb; break;
                    default: im += bb;
                }
            }
        }
        vp_assert_eq_f64(row_values[s][0], double(s) * 0.01, "time");
        vp_assert_eq_f64(row_values[s][1], re, "occupation");
        vp_assert_eq_f64(row_values[s][2], im, "imaginary part");
        vp_assert_eq_f64(im, 0., "the occupation is real");
    }
    vp_observe_f64("n", row_values[vp_steps - 1][1]);
    vp_reach("end");
}
#elif VP_PROGRAM == 3
// every momentum with its energy -2 cos(k)
HARNESS(dispersion)
{
    vp_opt("tol_exp", 36);
    vp_sites = vp_arg(0);
    run_program(vp_sites, 2);
    const uint64_t i = vp_conc(vp_below("i", vp_sites));
    const double k   = 2. * PI * double(i) / double(vp_sites) - PI;
    vp_assert_eq_f64(row_values[i][0], k, "momentum");
    vp_assert_eq_f64(row_values[i][1], -2. * std::cos(k), "energy");
    vp_reach("end");
}
#else
static blaze::DynamicVector<C> vector_of(const char* name)
{
    blaze::DynamicVector<C> h(4);
    static const char* const re[] = {"re0", "re1", "re2", "re3"};
    static const char* const im[] = {"im0", "im1", "im2", "im3"};
    (void)name;
    for(int i = 0; i < 4; ++i) {
        const double a = vp_f64(re[i]), b = vp_f64(im[i]);
        vp_assume((a >= -4.) & (a <= 4.) & (b >= -4.) & (b <= 4.));
        h[i] = C(a, b);
    }
    return h;
}
// sum of conj(h_i) h_j <A_i A_j^+>
static double occupation_of(const blaze::DynamicVector<C>& h)
{
    const double p = 1. / ieompp::Pi<double>::value;
    const double g[4][4] = {{0.5, p, p, 0.25}, {p, 0.5, p, 0.5 * p}, {p, p, 0.5, 0.5 * p}, {0.25, 0.5 * p, 0.5 * p, 0.25}};
    double sum = 0.;
    for(int i = 0; i < 4; ++i)
        for(int j = 0; j < 4; ++j)
            sum += g[i][j] * (h[i].real() * h[j].real() + h[i].imag() * h[j].imag());
    return sum;
}
// occupation of the two-site model: sum of conj(h_i) h_j <A_i A_j^+>, a real number for every coefficient vector
HARNESS(occupation)
{
    const auto h  = vector_of("h");
    const C n     = particle_number(h);
    SKIP_IF_MISSING();
    const double sum = occupation_of(h);
    vp_assert_eq_f64(n.imag(), 0., "an occupation is real");
    vp_assert_eq_f64(n.real(), sum, "quadratic form of the coefficients");
    vp_observe_f64("n", n.real());
    vp_reach("end");
}
// the occupation does not depend on a common phase
HARNESS(phase)
{
    const auto h = vector_of("h");
    blaze::DynamicVector<C> k(4);
    for(int i = 0; i < 4; ++i) k[i] = C(-h[i].imag(), h[i].real()); // i h
    const C n = particle_number(k), m = particle_number(h);
    SKIP_IF_MISSING();
    vp_assert_eq_f64(n.real(), m.real(), "independent of the phase");
    vp_reach("end");
}
// the whole table: times, coefficients integrated with the equations of motion, occupation
HARNESS(trivial)
{
    vp_opt("tol_exp", 30);
    vp_steps                = vp_arg(0);
    const uint64_t symbolic = vp_arg(1);
    vp_J = symbolic & 1 ? vp_f64("J") : 1.25;
    vp_U = symbolic & 2 ? vp_f64("U") : -0.75;
    vp_assume((vp_J > -4.) & (vp_J < 4.) & (vp_U > -4.) & (vp_U < 4.));
    run_program(vp_steps + 1, 11);
    // dh/dt = i M h
    const double u = vp_U / 2., M[4][4] = {{u, -vp_J, -vp_J, u}, {-vp_J, u, 0., 0.}, {-vp_J, 0., u, 0.}, {u, 0., 0., u}};
    C h[4] = {1., 0., 0., 0.};
    auto derivative = [&M](const C* x, C* y) {
        for(int i = 0; i < 4; ++i) {
            double re = 0., im = 0.;
            for(int j = 0; j < 4; ++j) {
                re += M[i][j] * x[j].real();
                im += M[i][j] * x[j].imag();
            }
            y[i] = C(-im, re);
        }
    };
    for(uint64_t s = 0; s <= vp_steps; ++s) {
        vp_assert_eq_f64(row_values[s][0], double(s) * 0.01, "time");
        blaze::DynamicVector<C> now(4);
        for(int i = 0; i < 4; ++i) {
            vp_assert_eq_f64(row_values[s][1 + 2 * i], h[i].real(), "real part of a coefficient");
            vp_assert_eq_f64(row_values[s][2 + 2 * i], h[i].imag(), "imaginary part of a coefficient");
            now[i] = h[i];
        }
        vp_assert_eq_f64(row_values[s][9], occupation_of(now), "occupation");
        vp_assert_eq_f64(row_values[s][10], 0., "the occupation is real");
        // the next term of the series of the exponential up to the fourth order
        C term[4], next[4], sum[4];
        for(int i = 0; i < 4; ++i) sum[i] = term[i] = h[i];
        for(int k = 1; k <= 4; ++k) {
            derivative(term, next);
            for(int i = 0; i < 4; ++i) {
                term[i] = C(next[i].real() * 0.01 / k, next[i].imag() * 0.01 / k);
                sum[i] += term[i];
            }
        }
        for(int i = 0; i < 4; ++i) h[i] = sum[i];
    }
    vp_observe_f64("n", row_values[vp_steps][9]);
    vp_reach("end");
}
#endif
