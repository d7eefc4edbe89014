// C19: the site occupation is the Wick-theorem quadratic form.
#include "vp.h"
#include <cassert>
#include <cmath>
#include <complex>
#include <functional>
#include <initializer_list>
#include <limits>
#include <numeric>
#include <string>
#include <vector>

#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/site_occupation.hpp"

using namespace ieompp;
using Op       = algebra::Operator<uint64_t, bool>;
using Monomial = algebra::Monomial<Op>;
using Chain    = lattices::PeriodicChain<double, uint64_t>;
namespace rs   = models::hubbard_real_space;
using R1       = rs::Basis1Operator<Monomial>;
using R3       = rs::Basis3Operator<Monomial>;
using O1       = rs::SiteOccupation<double, R1>;
using O3       = rs::SiteOccupation<double, R3>;
using C        = std::complex<double>;

// <c+_a c_b>: any real symmetric matrix over six sites
static double g[16][16];
static void read_matrix(uint64_t n)
{
    for(uint64_t a = 0; a < n; ++a) {
        const char row[] = {'g', char('0' + a), 0};
        for(uint64_t b = a; b < n; ++b) {
            const double v = vp_f64(vp_numbered(row, b));
            vp_assume((v > -8.) & (v < 8.));
            g[a][b] = g[b][a] = v;
        }
    }
}
// only the separation on the ring matters
static void read_ring(uint64_t n)
{
    double d[16];
    for(uint64_t k = 0; k <= n / 2; ++k) {
        d[k] = vp_f64(vp_numbered("d", k));
        vp_assume((d[k] > -8.) & (d[k] < 8.));
    }
    for(uint64_t a = 0; a < n; ++a) {
        for(uint64_t b = 0; b < n; ++b) {
            const uint64_t x = a > b ? a - b : b - a;
            g[a][b]          = d[x < n - x ? x : n - x];
        }
    }
}
static double ev(const Op& a, const Op& b)
{
    // the functions of this library only ask for <c+ c> of one spin
    vp_assert(a.creator & !b.creator & (a.index2 == b.index2), "expectation values are asked for as <creator annihilator> of one spin");
    vp_assert((a.index1 < 16) & (b.index1 < 16), "of existing sites");
    return g[a.index1][b.index1];
}
// Wick's theorem: sum over all pairings of the first operator with a later one
struct W {
    bool c, up;
    uint64_t i;
};
static double contraction(const W& a, const W& b)
{
    if(a.c == b.c || a.up != b.up) {
        return 0.;
    }
    return a.c ? g[a.i][b.i] : (a.i == b.i ? 1. : 0.) - g[b.i][a.i];
}
static double wick(const W* s, int n)
{
    if(n == 0) {
        return 1.;
    }
    double sum = 0.;
    for(int k = 1; k < n; ++k) {
        if(s[0].c == s[k].c || s[0].up != s[k].up) {
            continue;
        }
        W r[6];
        int m = 0;
        for(int j = 1; j < n; ++j) {
            if(j != k) {
                r[m++] = s[j];
            }
        }
        sum += (k % 2 == 1 ? 1. : -1.) * contraction(s[0], s[k]) * wick(r, m);
    }
    return sum;
}
// normalised basis operators: N1 = sqrt(2) c+_a, N3 = sqrt(2) (2 c+_a c+_b c_c - delta_{b,c} c+_a)
struct Elem {
    bool three;
    uint64_t a, b, c;
};
static double expectation(const Elem& x, const Elem& y)
{
    double sum = 0.;
    for(int p = 0; p < (x.three ? 2 : 1); ++p) {
        for(int q = 0; q < (y.three ? 2 : 1); ++q) {
            const bool p3 = x.three && p == 0, q3 = y.three && q == 0;
            if((x.three && p == 1 && x.b != x.c) || (y.three && q == 1 && y.b != y.c)) {
                continue;
            }
            W s[6];
            int n  = 0;
            s[n++] = W{true, true, x.a};
            if(p3) {
                s[n++] = W{true, false, x.b};
                s[n++] = W{false, false, x.c};
            }
            if(q3) {
                s[n++] = W{true, false, y.c};
                s[n++] = W{false, false, y.b};
            }
            s[n++] = W{false, true, y.a};
            sum += 2. * (p3 ? 2. : x.three ? -1. : 1.) * (q3 ? 2. : y.three ? -1. : 1.) * wick(s, n);
        }
    }
    return sum;
}
static Monomial monomial(const Elem& x, bool conj)
{
    Monomial m;
    if(!x.three) {
        m.push_back(Op{!conj, x.a, true});
    } else if(!conj) {
        m.push_back(Op{true, x.a, true});
        m.push_back(Op{true, x.b, false});
        m.push_back(Op{false, x.c, false});
    } else {
        m.push_back(Op{true, x.c, false});
        m.push_back(Op{false, x.b, false});
        m.push_back(Op{false, x.a, true});
    }
    return m;
}
// sites up to relabelling: every coincidence pattern of n sites
static void pattern(uint64_t* s, uint64_t n)
{
    static const char* const nm[6] = {"s0", "s1", "s2", "s3", "s4", "s5"};
    uint64_t used = 0;
    for(uint64_t k = 0; k < n; ++k) {
        s[k] = vp_choose(nm[k], 0, used);
        used = s[k] == used ? used + 1 : used;
    }
}
HARNESS(pairs)
{
    const bool xt = vp_arg(0) != 0, yt = vp_arg(1) != 0;
    read_matrix(2 + (xt ? 2 : 0) + (yt ? 2 : 0));
    uint64_t s[6];
    pattern(s, 2 + (xt ? 2 : 0) + (yt ? 2 : 0));
    const uint64_t o = xt ? 3 : 1;
    const Elem x{xt, s[0], xt ? s[1] : 0, xt ? s[2] : 0}, y{yt, s[o], yt ? s[o + 1] : 0, yt ? s[o + 2] : 0};
    const Chain l(1, 1.);
    const R3 b3(l);
    const R3 c3 = b3.get_conjugate();
    const O3 o3{ev, std::cref(b3), std::cref(c3)};
    const double w = expectation(x, y);
    const Monomial mx = monomial(x, false), my = monomial(y, true);
    vp_assert_eq_f64(o3.expectation_value(mx, my), w, "expectation value of two basis operators by Wick's theorem");
    if(!xt && !yt) {
        const R1 b1(l);
        const R1 c1 = b1.get_conjugate();
        const O1 o1{ev, std::cref(b1), std::cref(c1)};
        vp_assert_eq_f64(o1.expectation_value(mx, my), w, "expectation value in the one-operator basis");
        vp_assert_eq_f64(o3.expectation_value_1_1(mx, my), w, "one-one");
    } else if(!xt) {
        vp_assert_eq_f64(o3.expectation_value_1_3(mx, my), w, "one-three");
    } else if(!yt) {
        vp_assert_eq_f64(o3.expectation_value_3_1(mx, my), w, "three-one");
    } else {
        vp_assert_eq_f64(o3.expectation_value_3_3(mx, my), w, "three-three");
    }
    vp_reach("end");
}
static std::vector<C> coefficients(uint64_t n)
{
    static char name[2][160][8];
    std::vector<C> h;
    for(uint64_t i = 0; i < n; ++i) {
        for(int z = 0; z < 2; ++z) {
            name[z][i][0] = z ? 'y' : 'x';
            name[z][i][1] = char('0' + i / 100);
            name[z][i][2] = char('0' + i / 10 % 10);
            name[z][i][3] = char('0' + i % 10);
            name[z][i][4] = 0;
        }
        const double x = vp_f64(name[0][i]), y = vp_f64(name[1][i]);
        vp_assume((x > -8.) & (x < 8.) & (y > -8.) & (y < 8.));
        h.push_back(C(x, y));
    }
    return h;
}
static Elem elem(uint64_t N, uint64_t i)
{
    if(i < N) {
        return Elem{false, i, 0, 0};
    }
    i -= N;
    return Elem{true, i / (N * N), i / N % N, i % N};
}
static double quadratic_form(uint64_t N, uint64_t n, const std::vector<C>& h)
{
    double sum = 0.;
    for(uint64_t i = 0; i < n; ++i) {
        for(uint64_t j = 0; j < n; ++j) {
            sum += expectation(elem(N, i), elem(N, j)) * (h[i].real() * h[j].real() + h[i].imag() * h[j].imag());
        }
    }
    return sum / 2.;
}
HARNESS(occupation1)
{
    const uint64_t N = vp_arg(0);
    read_matrix(N);
    std::vector<C> h = coefficients(N);
    const Chain l(N, 1.);
    const R1 b(l);
    const R1 c = b.get_conjugate();
    const O1 o{ev, std::cref(b), std::cref(c)};
    const double expected = quadratic_form(N, N, h);
    vp_assert_eq_f64(o(h), expected, "occupation in the one-operator basis");
    for(auto& x : h) x *= 2.;
    vp_assert_eq_f64(o(h), 4. * expected, "the same vector with other values");
    vp_reach("end");
}
HARNESS(occupation3)
{
    const uint64_t N = vp_arg(0);
    read_ring(N);
    std::vector<C> h = coefficients(N + N * N * N);
    const Chain l(N, 1.);
    const R3 b(l);
    const R3 c = b.get_conjugate();
    O3 o{ev, std::cref(b), std::cref(c)};
    const double expected = quadratic_form(N, N + N * N * N, h);
    if(vp_arg(1) == 2) {
        // the default
        vp_assert(o.exploit_inversion_symmetry, "inversion symmetry is exploited by default");
    } else {
        o.exploit_inversion_symmetry = vp_arg(1) != 0;
    }
    vp_assert_eq_f64(o(h), expected, "occupation is half of the quadratic form");
    for(auto& x : h) x *= 2.;
    vp_assert_eq_f64(o(h), 4. * expected, "the same vector with other values");
    vp_reach("end");
}
// larger rings; all but one expectation value and two coefficients fixed
HARNESS(large_occupation)
{
    const uint64_t N = vp_arg(0), m = vp_arg(1), size = N + N * N * N;
    double d[16];
    for(uint64_t k = 0; k <= N / 2; ++k) {
        d[k] = 0.25 + 0.125 * double(k * k % 5);
    }
    d[m % (N / 2 + 1)] = vp_f64("d");
    vp_assume((d[m % (N / 2 + 1)] > -8.) & (d[m % (N / 2 + 1)] < 8.));
    for(uint64_t a = 0; a < N; ++a) {
        for(uint64_t b = 0; b < N; ++b) {
            const uint64_t x = a > b ? a - b : b - a;
            g[a][b]          = d[x < N - x ? x : N - x];
        }
    }
    std::vector<C> h(size);
    for(uint64_t i = 0; i < size; ++i) {
        h[i] = C(double(i * i % 11) * 0.25 - 1., double(3 * i % 5) * 0.5 - 1.);
    }
    const double x = vp_f64("x"), y = vp_f64("y");
    vp_assume((x > -8.) & (x < 8.) & (y > -8.) & (y < 8.));
    h[m % size]              = C(x, h[m % size].imag());
    h[(size - 1 - m) % size] = C(h[(size - 1 - m) % size].real(), y);
    const Chain l(N, 1.);
    const R3 b(l);
    const R3 c = b.get_conjugate();
    O3 o{ev, std::cref(b), std::cref(c)};
    o.exploit_inversion_symmetry = vp_arg(2) != 0;
    vp_assert_eq_f64(o(h), quadratic_form(N, size, h), "occupation is half of the quadratic form");
    vp_reach("end");
}
