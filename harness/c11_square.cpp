// C11: the periodic square lattice.
#include "vp.h"
#include <initializer_list>
#include <string>

#include "ieompp/lattices/periodic_square_lattice.hpp"

using namespace ieompp;
using Square = lattices::PeriodicSquareLattice<double>;
using Vec    = Square::Vector;
static const double pi = 3.14159265358979323846;

static uint64_t ring(uint64_t N, uint64_t a, uint64_t b)
{
    const uint64_t d = vp_select_u64(a > b, a - b, b - a);
    return vp_select_u64(d <= N - d, d, N - d);
}
static uint64_t next(uint64_t N, uint64_t a) { return vp_select_u64(a + 1 == N, 0, a + 1); }
static uint64_t prev(uint64_t N, uint64_t a) { return vp_select_u64(a == 0, N - 1, a - 1); }

static void topology(const Square& l, uint64_t X, uint64_t Y)
{
    const uint64_t N = X * Y;
    vp_assert((l.size() == N) & (l.size_x() == X) & (l.size_y() == Y), "size");
    vp_assert((l.first() == 0) & (l.last() == N - 1), "first and last site");
    const uint64_t x = vp_below("x", X), y = vp_below("y", Y), z = vp_below("z", X), w = vp_below("w", Y);
    const uint64_t a = l.index(x, y), b = l.index(z, w);
    vp_assert(a < N, "the index of a pair of coordinates is a site");
    vp_assert((l.x_index(a) == x) & (l.y_index(a) == y), "coordinates of the index of a pair of coordinates");
    vp_assert((a == b) == ((x == z) & (y == w)), "different coordinates have different indices");
    const uint64_t s = vp_below("s", N);
    vp_assert((l.x_index(s) < X) & (l.y_index(s) < Y), "coordinates of a site are in range");
    vp_assert(l.index(l.x_index(s), l.y_index(s)) == s, "the index of the coordinates of a site");
    const uint64_t l1 = l.index(prev(X, x), y), r1 = l.index(next(X, x), y), d1 = l.index(x, prev(Y, y)), u1 = l.index(x, next(Y, y));
    const auto nb = l.neighbors(a);
    vp_assert((nb.size() == 4) & (Square::coordination_number == 4), "four neighbours");
    // as a multi-set: count each expected neighbour
    for(uint64_t e : {l1, r1, d1, u1}) {
        uint64_t got = 0, want = 0;
        for(uint64_t k = 0; k < 4; ++k) {
            got += vp_select_u64(nb[k] == e, 1, 0);
        }
        want += vp_select_u64(l1 == e, 1, 0);
        want += vp_select_u64(r1 == e, 1, 0);
        want += vp_select_u64(d1 == e, 1, 0);
        want += vp_select_u64(u1 == e, 1, 0);
        vp_assert(got == want, "the neighbours are the sites one step away in x and y");
    }
    const auto un = l.unique_neighbors(a);
    vp_assert(un.size() == 2, "two unique neighbours");
    vp_assert(((un[0] == r1) & (un[1] == u1)) | ((un[0] == u1) & (un[1] == r1)), "the unique neighbours are the next sites in x and y, so that every bond is listed once");
    const bool nbs = (b == l1) | (b == r1) | (b == d1) | (b == u1);
    vp_assert(l.neighboring(a, b) == nbs, "neighboring iff b is a neighbour of a");
    vp_assert(l.neighboring(b, a) == nbs, "neighboring symmetric");
    const uint64_t dx = l.lattice_distance_x(a, b), dy = l.lattice_distance_y(a, b);
    vp_assert(dx == ring(X, x, z), "distance in x is the shortest way around");
    vp_assert(dy == ring(Y, y, w), "distance in y is the shortest way around");
    vp_assert((dx == l.lattice_distance_x(b, a)) & (dy == l.lattice_distance_y(b, a)), "distances symmetric");
    vp_assert(((dx == 0) & (dy == 0)) == (a == b), "both distances zero iff the sites are equal");
    vp_assert((dx <= X / 2) & (dy <= Y / 2), "distances at most half way around");
    vp_assert((l.end() - l.begin() == N) & (l.cend() - l.cbegin() == N), "iteration covers all sites");
    vp_assert((*l.begin() == 0) & (*l.cbegin() == 0), "iteration starts at the first site");
    Square m(l);
    vp_assert((m.end() - m.begin() == N) & (*m.begin() == 0), "mutable iteration");
    vp_observe_u64("a", a);
    vp_observe_u64("dx", dx);
    vp_observe_u64("dy", dy);
    vp_reach("end");
}
HARNESS(real_space) { topology(Square(vp_arg(0), vp_arg(1), 1., 2.), vp_arg(0), vp_arg(1)); }
HARNESS(momentum_space) { topology(Square(vp_arg(0), vp_arg(1)), vp_arg(0), vp_arg(1)); }

// one symbolic extent (32 bits), the other one concrete
HARNESS(any_width)
{
    vp_opt("i2f_opaque", 1);
    const uint64_t Y = vp_arg(1), X = vp_u64("X");
    vp_assume((X >= 1) & (X <= (uint64_t(1) << vp_arg(0))));
    topology(Square(X, Y, 1., 1.), X, Y);
}
HARNESS(any_height)
{
    // the index only: divisions by a symbolic extent
    vp_opt("i2f_opaque", 1);
    const uint64_t X = vp_arg(1), Y = vp_u64("Y");
    vp_assume((Y >= 1) & (Y <= (uint64_t(1) << vp_arg(0))));
    const Square l(X, Y, 1., 1.);
    const uint64_t x = vp_below("x", X), y = vp_below("y", Y);
    const uint64_t a = l.index(x, y);
    vp_assert(a < X * Y, "in range");
    vp_assert((l.x_index(a) == x) & (l.y_index(a) == y), "coordinates of the index of a pair of coordinates");
    vp_observe_u64("a", a);
    vp_reach("end");
}
static void geometry(const Square& l, uint64_t X, uint64_t Y, double x0, double y0, double dx, double dy)
{
    vp_assert_eq_f64(l.x_min(), x0, "x_min");
    vp_assert_eq_f64(l.y_min(), y0, "y_min");
    vp_assert_eq_f64(l.dx(), dx, "dx");
    vp_assert_eq_f64(l.dy(), dy, "dy");
    vp_assert_eq_f64(l.x_length(), double(X) * dx, "x_length");
    vp_assert_eq_f64(l.y_length(), double(Y) * dy, "y_length");
    const auto& v = l.lattice_vectors();
    vp_assert_eq_f64(v[0][0], dx, "first lattice vector");
    vp_assert_eq_f64(v[0][1], 0., "first lattice vector");
    vp_assert_eq_f64(v[1][0], 0., "second lattice vector");
    vp_assert_eq_f64(v[1][1], dy, "second lattice vector");
    for(uint64_t x = 0; x < X; ++x) {
        for(uint64_t y = 0; y < Y; ++y) {
            const Vec p = l[l.index(x, y)];
            vp_assert_eq_f64(p[0], x0 + double(x) * dx, "x coordinate of a site");
            vp_assert_eq_f64(p[1], y0 + double(y) * dy, "y coordinate of a site");
        }
    }
}
HARNESS(positions)
{
    const uint64_t X = vp_arg(0), Y = vp_arg(1);
    const double dx = vp_f64("dx"), dy = vp_f64("dy");
    vp_assume((dx > 0.001) & (dx < 1000.) & (dy > 0.001) & (dy < 1000.));
    const Square l(X, Y, dx, dy);
    geometry(l, X, Y, 0., 0., dx, dy);
    const uint64_t i = vp_choose("i", 0, X - 1), j = vp_choose("j", 0, Y - 1);
    const uint64_t k = vp_choose("k", 0, 2);
    const double t = vp_f64("t"), s = vp_f64("s");
    vp_assume((t > -0.5) & (t < 0.5) & (s > -0.5) & (s < 0.5));
    const double vx = (double(i) + t + (double(k) - 1.) * double(X)) * dx, vy = (double(j) + s + (1. - double(k)) * double(Y)) * dy;
    const uint64_t r = l(Vec{vx, vy});
    vp_assert(r == l.index(i, j), "a position near a site maps to this site");
    vp_observe_u64("r", r);
    vp_reach("end");
}
HARNESS(momentum_positions)
{
    vp_opt("tol_exp", 40);
    const uint64_t X = vp_arg(0), Y = vp_arg(1);
    const Square l(X, Y);
    geometry(l, X, Y, -pi, -pi, 2. * pi / double(X), 2. * pi / double(Y));
    for(uint64_t i = 0; i < X * Y; ++i) {
        vp_assert(l(l[i]) == i, "the index at the position of a site");
        vp_assert(l(l[i] + Vec{l.x_length(), -l.y_length()}) == i, "shifted by a period");
        vp_assert(l.closest(l[i]) == i, "the closest site at the position of a site");
    }
    vp_reach("end");
}
// any coordinate, or the one given by an argument
static uint64_t coordinate(const char* name, uint64_t n, uint64_t arg)
{
    return vp_arg(arg) != 0 ? vp_arg(arg) - 1 : vp_choose(name, 0, n - 1);
}
// with rounding errors; args: X, Y, 0 momentum / 1 real space, and optionally the coordinates of the site counted from one
HARNESS(lookup)
{
    const uint64_t X = vp_arg(0), Y = vp_arg(1);
    const bool real  = vp_arg(2) != 0;
    const Square l   = real ? Square(X, Y, 0.1, 0.3) : Square(X, Y);
    const double x0 = real ? 0. : -pi, dx = real ? 0.1 : 2. * pi / double(X), dy = real ? 0.3 : 2. * pi / double(Y);
    const uint64_t i = coordinate("i", X, 3), j = coordinate("j", Y, 4), k = vp_choose("k", 0, 2), m = vp_choose("m", 0, 2);
    const double px = x0 + double(i) * dx + (double(k) - 1.) * double(X) * dx, py = x0 + double(j) * dy + (double(m) - 1.) * double(Y) * dy;
    const double vx = vp_f64("vx"), vy = vp_f64("vy");
    vp_assume((vx > px - 0.499 * dx) & (vx < px + 0.499 * dx) & (vy > py - 0.499 * dy) & (vy < py + 0.499 * dy));
    const uint64_t r = l(Vec{vx, vy});
    vp_assert(r < X * Y, "the index is a site");
    vp_assert(r == l.index(i, j), "a position near a site maps to this site");
    vp_observe_u64("r", r);
    vp_reach("end");
}
HARNESS(closest)
{
    const uint64_t X = vp_arg(0), Y = vp_arg(1);
    const bool real  = vp_arg(2) != 0;
    const Square l   = real ? Square(X, Y, 0.5, 2.) : Square(X, Y);
    const double x0 = real ? 0. : -pi, dx = real ? 0.5 : 2. * pi / double(X), dy = real ? 2. : 2. * pi / double(Y);
    const uint64_t i = coordinate("i", X, 3), j = coordinate("j", Y, 4), k = vp_choose("k", 0, 2);
    const double px = x0 + double(i) * dx + (double(k) - 1.) * double(X) * dx, py = x0 + double(j) * dy + (1. - double(k)) * double(Y) * dy;
    const double vx = vp_f64("vx"), vy = vp_f64("vy");
    vp_assume((vx > px - 0.4999 * dx) & (vx < px + 0.4999 * dx) & (vy > py - 0.4999 * dy) & (vy < py + 0.4999 * dy));
    const uint64_t r = l.closest(Vec{vx, vy});
    vp_assert(r == l.index(i, j), "the closest site modulo the periods");
    vp_observe_u64("r", r);
    vp_reach("end");
}
