// C14, C18: dispersion and expectation values of the Fermi sea.
#include "vp.h"
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <initializer_list>
#include <string>
#include <vector>

// a two-dimensional vector type as a lattice may use it
struct Vec2 {
    double x, y;
};
namespace ieompp
{
    namespace types
    {
        inline double dot_product(const Vec2& a, const Vec2& b) { return a.x * b.x + a.y * b.y; }
    } // namespace types
} // namespace ieompp

#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/models/hubbard/dispersion.hpp"
#include "ieompp/models/hubbard_real_space/expectation_value.hpp"

using namespace ieompp;
using Chain = lattices::PeriodicChain<double, uint64_t>;
using D     = models::hubbard::Dispersion<double>;
static const double pi = 3.14159265358979323846264338327950288;

static double hopping()
{
    const double J = vp_f64("J");
    vp_assume((J > -1024.) & (J < 1024.));
    return J;
}
HARNESS(chain)
{
    vp_opt("tol_exp", 36);
    const uint64_t N = vp_arg(0);
    const double J = hopping();
    const Chain bz(N), lattice(N, 1.);
    const auto d  = models::hubbard::make_dispersion(bz, lattice, J);
    const auto d1 = models::hubbard::make_dispersion(bz, lattice);
    const D e(bz, lattice, J), e1(bz, lattice);
    const uint64_t i = vp_conc(vp_below("i", N));
    // site i has momentum 2 pi i / N - pi
    const double band = -2 * std::cos(2. * pi * double(i) / double(N) - pi);
    vp_assert_eq_f64(d(i), J * band, "dispersion of a chain is -2 J cos(k)");
    vp_assert_eq_f64(e(i), J * band, "dispersion built directly");
    vp_assert_eq_f64(d1(i), band, "the default hopping is 1");
    vp_assert_eq_f64(e1(i), band, "the default hopping is 1, built directly");
    vp_observe_f64("e", d(i));
    vp_reach("end");
}
// arbitrary lattice spacing
HARNESS(chain_spacing)
{
    const uint64_t N = vp_arg(0);
    const double J = hopping(), dx = vp_f64("dx");
    vp_assume((dx > 0.001) & (dx < 1000.));
    const Chain bz(N), lattice(N, dx);
    const auto d = models::hubbard::make_dispersion(bz, lattice, J);
    const uint64_t i = vp_conc(vp_below("i", N));
    vp_assert_eq_f64(d(i), -2. * J * std::cos(bz[i] * dx), "dispersion of a chain is -2 J cos(k a)");
    vp_observe_u64("i", i);
    vp_reach("end");
}
// arbitrary momenta and lattice vectors in two dimensions
struct Zone2 {
    using Float     = double;
    using SiteIndex = uint64_t;
    std::vector<Vec2> k;
    uint64_t size() const { return k.size(); }
    const Vec2& operator[](uint64_t i) const { return k[i]; }
};
template <std::size_t V>
struct Lattice2 {
    std::array<Vec2, V> v;
    const std::array<Vec2, V>& lattice_vectors() const { return v; }
};
template <std::size_t V>
static void planar()
{
    const uint64_t N = vp_arg(0);
    const double J = hopping();
    const auto part = [](const char* what, uint64_t i) {
        const double x = vp_f64(vp_numbered(what, i));
        vp_assume((x > -4.) & (x < 4.));
        return x;
    };
    std::vector<double> kx, ky, ax, ay;
    Zone2 bz;
    Lattice2<V> l;
    for(uint64_t i = 0; i < N; ++i) {
        kx.push_back(part("kx", i));
        ky.push_back(part("ky", i));
        bz.k.push_back(Vec2{kx[i], ky[i]});
    }
    for(uint64_t i = 0; i < V; ++i) {
        ax.push_back(part("ax", i));
        ay.push_back(part("ay", i));
        l.v[i] = Vec2{ax[i], ay[i]};
    }
    const auto d = models::hubbard::make_dispersion(bz, l, J);
    for(uint64_t i = 0; i < N; ++i) {
        double sum = 0.;
        for(uint64_t v = 0; v < V; ++v) {
            sum += std::cos(kx[i] * ax[v] + ky[i] * ay[v]);
        }
        vp_assert_eq_f64(d(i), -2. * J * sum, "dispersion is -2 J times the sum of the cosines over the lattice vectors");
    }
    vp_reach("end");
}
HARNESS(planar1) { planar<1>(); }
HARNESS(planar2) { planar<2>(); }
HARNESS(planar3) { planar<3>(); }
HARNESS(fermi_momentum)
{
    const double f = vp_f64("f");
    vp_assume((f >= 0.) & (f <= 1.));
    vp_opt("tol_exp", 40);
    vp_assert_eq_f64(models::hubbard::calculate_fermi_momentum_1d(f), f * pi, "the Fermi momentum is pi times the filling factor");
    vp_observe_f64("k", models::hubbard::calculate_fermi_momentum_1d(f));
    vp_reach("end");
}

// --------------------------------------------------------------------------------------------------------- C18
template <typename L>
using EV1 = models::hubbard_real_space::ExpectationValue1DHalfFilled<double, L>;
template <typename L>
using EV2 = models::hubbard_real_space::ExpectationValue2DHalfFilled<double, L>;

static uint64_t ring(uint64_t N, uint64_t a, uint64_t b)
{
    const uint64_t d = a > b ? a - b : b - a;
    return d < N - d ? d : N - d;
}
static double spacing(uint64_t i)
{
    static const double s[4] = {1., 0.5, 1.3, 100.};
    return s[i];
}
HARNESS(expectation_1d)
{
    vp_opt("tol_exp", 36);
    const uint64_t N = vp_arg(0);
    const double dx = spacing(vp_arg(1));
    const double f = vp_f64("f"), kF = vp_f64("kF");
    vp_assume((f >= 0.) & (f <= 1.) & (kF > -10.) & (kF < 10.));
    const Chain lattice(N, dx);
    const EV1<Chain> ev(lattice, f, kF);
    const uint64_t a = vp_conc(vp_below("a", N)), b = vp_conc(vp_below("b", N));
    const uint64_t d = ring(N, a, b);
    const double v   = ev(a, b);
    if(d == 0) {
        vp_assert_eq_f64(v, f, "at zero separation: the filling");
        vp_reach("zero");
    } else {
        vp_assert_eq_f64(v, std::sin(kF * double(d) * dx) / (pi * double(d) * dx), "sin(kF d) / (pi d) at separation d");
    }
    vp_assert_eq_f64(ev(b, a), v, "symmetric in the sites");
    vp_assert(ev.lattice_distance(a, b) == d, "the separation is the periodic distance");
    vp_observe_u64("d", d);
    vp_reach("end");
}
HARNESS(translation_1d)
{
    const uint64_t N = vp_arg(0);
    const double f = vp_f64("f"), kF = vp_f64("kF");
    vp_assume((f >= 0.) & (f <= 1.) & (kF > -10.) & (kF < 10.));
    const Chain lattice(N, 1.);
    const EV1<Chain> ev(lattice, f, kF);
    const EV1<Chain> copy(ev);
    const uint64_t a = vp_conc(vp_below("a", N)), b = vp_conc(vp_below("b", N)), t = vp_conc(vp_below("t", N));
    vp_assert_eq_f64(ev((a + t) % N, (b + t) % N), ev(a, b), "depends on the periodic separation only");
    vp_assert_eq_f64(copy(a, b), ev(a, b), "copies agree");
    vp_reach("end");
}
// half filling: Fermi momentum pi/2
HARNESS(half_filled_1d)
{
    vp_opt("tol_exp", 36);
    const uint64_t N = vp_arg(0);
    const Chain lattice(N, 1.);
    const double kF = models::hubbard::calculate_fermi_momentum_1d(0.5);
    const EV1<Chain> ev(lattice, 0.5, kF), other(lattice, 0.25, kF / 2);
    const uint64_t a = vp_conc(vp_below("a", N)), b = vp_conc(vp_below("b", N));
    const uint64_t d = ring(N, a, b);
    const double odd = (d % 4 == 1 ? 1. : -1.) / (pi * double(d));
    vp_assert_eq_f64(ev(a, b), d == 0 ? 0.5 : d % 2 == 0 ? 0. : odd, "half-filled chain");
    vp_assert_eq_f64(other(a, b), d == 0 ? 0.25 : std::sin(pi / 4 * double(d)) / (pi * double(d)), "quarter-filled chain next to it");
    vp_observe_f64("v", ev(a, b));
    vp_reach("end");
}
// periodic rectangle of which only the interface is used
struct Rectangle {
    using SiteIndex = uint64_t;
    uint64_t nx, ny;
    uint64_t size_x() const { return nx; }
    uint64_t size_y() const { return ny; }
    uint64_t lattice_distance_x(uint64_t a, uint64_t b) const { return ring(nx, a / ny, b / ny); }
    uint64_t lattice_distance_y(uint64_t a, uint64_t b) const { return ring(ny, a % ny, b % ny); }
};
HARNESS(expectation_2d)
{
    vp_opt("tol_exp", 36);
    const Rectangle l{vp_arg(0), vp_arg(1)};
    const EV2<Rectangle> ev(l);
    const EV2<Rectangle> copy(ev);
    const uint64_t ax = vp_conc(vp_below("ax", l.nx)), ay = vp_conc(vp_below("ay", l.ny));
    const uint64_t bx = vp_conc(vp_below("bx", l.nx)), by = vp_conc(vp_below("by", l.ny));
    const uint64_t a = ax * l.ny + ay, b = bx * l.ny + by;
    const double dx = double(ring(l.nx, ax, bx)), dy = double(ring(l.ny, ay, by));
    const double v = ev(a, b);
    const double p = dx + dy, m = dx - dy;
    const double fp = p == 0. ? pi / 2 : std::sin(pi / 2 * p) / p, fm = m == 0. ? pi / 2 : std::sin(pi / 2 * m) / m;
    vp_assert_eq_f64(v, p == 0. ? 0.5 : 2. / (pi * pi) * fp * fm, "half-filled square lattice");
    vp_assert_eq_f64(ev(b, a), v, "symmetric in the sites");
    vp_assert_eq_f64(copy(a, b), v, "copies agree");
    vp_observe_f64("v", v);
    vp_reach("end");
}
