// C09, C10: the periodic chain.
#include "vp.h"

#include "ieompp/lattices/periodic_chain.hpp"

using namespace ieompp;
using Chain = lattices::PeriodicChain<double>;

static uint64_t ring_distance(uint64_t N, uint64_t a, uint64_t b)
{
    const uint64_t d = vp_select_u64(a > b, a - b, b - a);
    return vp_select_u64(d <= N - d, d, N - d);
}
static uint64_t shift(uint64_t N, uint64_t a, uint64_t t)   // (a + t) mod N for a, t < N
{
    return vp_select_u64(a >= N - t, a - (N - t), a + t);
}

static void topology(const Chain& c, uint64_t N)
{
    vp_assert(c.size() == N, "size");
    vp_assert((c.first() == 0) & (c.last() == N - 1), "first and last site");
    const uint64_t a = vp_below("a", N), b = vp_below("b", N);
    const uint64_t succ = vp_select_u64(a + 1 == N, 0, a + 1), pred = vp_select_u64(a == 0, N - 1, a - 1);
    const auto nb = c.neighbors(a);
    vp_assert((nb.size() == 2) & (Chain::coordination_number == 2), "two neighbours");
    vp_assert(((nb[0] == pred) & (nb[1] == succ)) | ((nb[0] == succ) & (nb[1] == pred)), "neighbours are one step away modulo N");
    const auto un = c.unique_neighbors(a);
    vp_assert(un.size() == 1, "one unique neighbour per site");
    vp_assert(un[0] == succ, "the unique neighbour is the next site, so that every bond is listed once");
    const bool nbs = (b == succ) | (b == pred);
    vp_assert(c.neighboring(a, b) == nbs, "neighboring iff b is a neighbour of a");
    vp_assert(c.neighboring(b, a) == nbs, "neighboring symmetric");
    const uint64_t d = c.lattice_distance(a, b);
    vp_assert(d == ring_distance(N, a, b), "lattice distance is the shortest way around the ring");
    vp_assert(d == c.lattice_distance(b, a), "lattice distance symmetric");
    vp_assert((d == 0) == (a == b), "lattice distance zero iff equal");
    vp_assert(d <= N / 2, "lattice distance at most half way around");
    vp_assert(c.lattice_distance(a, nb[0]) == vp_select_u64(N > 1, 1, 0), "neighbours have distance one");
    vp_assert(c.end() - c.begin() == N, "end - begin is the size");
    vp_assert(c.cend() - c.cbegin() == N, "cend - cbegin is the size");
    vp_assert((*c.begin() == 0) & (*c.cbegin() == 0), "iteration starts at the first site");
    vp_assert(c.begin()[a] == a, "subscripting the iterator");
    Chain m(c);
    vp_assert((m.end() - m.begin() == N) & (*m.begin() == 0), "mutable iteration");
    vp_observe_u64("d", d);
    vp_observe_u64("succ", un[0]);
    vp_reach("end");
}
HARNESS(real_space)
{
    vp_opt("i2f_opaque", 1);
    const uint64_t N = vp_u64("N");
    vp_assume((N >= 1) & (N <= (uint64_t(1) << vp_arg(0))));
    topology(Chain(N, 1.), N);
}
HARNESS(momentum_space)
{
    vp_opt("i2f_opaque", 1);
    vp_opt("fdiv_nonzero", 1);
    const uint64_t N = vp_u64("N");
    vp_assume((N >= 1) & (N <= (uint64_t(1) << vp_arg(0))));
    topology(Chain(N), N);
}
// translation invariance and the triangle inequality, with case splits on the order of the sites
HARNESS(distance_laws)
{
    vp_opt("i2f_opaque", 1);
    const uint64_t N = vp_arg(0);
    const Chain c(N, 1.);
    const uint64_t a = vp_below("a", N), b = vp_below("b", N), t = vp_below("t", N);
    const uint64_t d = c.lattice_distance(a, b);
    vp_assert(c.lattice_distance(shift(N, a, t), shift(N, b, t)) == d, "lattice distance translation invariant");
    vp_assert(c.lattice_distance(a, t) <= d + c.lattice_distance(b, t), "triangle inequality");
    vp_observe_u64("d", d);
    vp_reach("end");
}
HARNESS(iteration)
{
    const uint64_t N = vp_arg(0);
    const double dx  = vp_f64("dx");
    vp_assume((dx > 0.001) & (dx < 1000.));
    const Chain c(N, dx), k(N);
    for(const Chain* l : {&c, &k}) {
        uint64_t n = 0;
        for(auto i : *l) {
            vp_assert(i == n, "iteration visits the sites in order");
            ++n;
        }
        vp_assert(n == N, "iteration visits every site");
        Chain m(*l);
        n = 0;
        for(auto i : m) {
            vp_assert(i == n, "mutable iteration visits the sites in order");
            ++n;
        }
        vp_assert(n == N, "mutable iteration visits every site");
    }
    vp_observe_u64("N", c.size());
    vp_reach("end");
}

// ------------------------------------------------------------------ C10
// geometry of a chain: x_min, spacing, period
static void geometry(const Chain& c, uint64_t N, double x_min, double dx)
{
    vp_assert_eq_f64(c.x_min(), x_min, "x_min");
    vp_assert_eq_f64(c.dx(), dx, "dx");
    vp_assert_eq_f64(c.x_length(), double(N) * dx, "x_length is N times the spacing");
    vp_assert_eq_f64(c.lattice_vectors()[0], dx, "the lattice vector is the spacing");
    for(uint64_t i = 0; i < N; ++i) {
        vp_assert_eq_f64(c[i], x_min + double(i) * dx, "position of a site");
    }
}
// every position closer to site i (modulo the period) than 0.499 spacings maps to i
static void lookup(const Chain& c, uint64_t N, double x_min, double dx, uint64_t i, uint64_t k)
{
    const double p = x_min + double(i) * dx + (double(k) - 2.) * double(N) * dx;
    const double v = vp_f64("v");
    vp_assume(v > p - 0.499 * dx);
    vp_assume(v < p + 0.499 * dx);
    const uint64_t r = c(v);
    vp_assert(r < N, "the index is a site");
    vp_assert(r == i, "a position near a site maps to this site");
    vp_observe_u64("r", r);
    vp_reach("end");
}
static double spacing(uint64_t which)
{
    static const double s[4] = {1., 0.1, 0.3, 1234.5};
    return s[which];
}
// args: N, spacing
HARNESS(lookup_real)
{
    const uint64_t N = vp_arg(0);
    const double dx  = spacing(vp_arg(1));
    const uint64_t i = vp_choose("i", 0, N - 1), k = vp_choose("k", 0, 4);
    lookup(Chain(N, dx), N, 0., dx, i, k);
}
HARNESS(lookup_momentum)
{
    const uint64_t N = vp_arg(0);
    const double pi  = 3.14159265358979323846;
    const uint64_t i = vp_choose("i", 0, N - 1), k = vp_choose("k", 0, 4);
    lookup(Chain(N), N, -pi, 2. * pi / double(N), i, k);
}
// long chains, one given site; args: N, site
HARNESS(lookup_long)
{
    const uint64_t N = vp_arg(0), i = vp_arg(1);
    const bool real  = vp_choose("real", 0, 1) != 0;
    const double pi  = 3.14159265358979323846;
    const uint64_t k = vp_choose("k", 0, 4);
    if(real) {
        lookup(Chain(N, 0.1), N, 0., 0.1, i, k);
    } else {
        lookup(Chain(N), N, -pi, 2. * pi / double(N), i, k);
    }
}
// any position whatsoever within two periods yields a valid site
HARNESS(in_range)
{
    const uint64_t N = vp_arg(0);
    const bool real  = vp_arg(1);
    const Chain c    = real ? Chain(N, 0.7) : Chain(N);
    const double v   = vp_f64("v");
    vp_assume((v > -2.6 * c.x_length()) & (v < 2.6 * c.x_length()));
    vp_assert(c(v) < N, "the index is a site");
    vp_reach("end");
}
// arbitrary spacing (real arithmetic)
HARNESS(lookup_spacing)
{
    const uint64_t N = vp_arg(0);
    const double dx  = vp_f64("dx");
    vp_assume((dx > 0.001) & (dx < 1000.));
    const Chain c(N, dx);
    geometry(c, N, 0., dx);
    const uint64_t i = vp_choose("i", 0, N - 1), k = vp_choose("k", 0, 4);
    const double t   = vp_f64("t");
    vp_assume((t > -0.5) & (t < 0.5));
    const double v = (double(i) + t + (double(k) - 2.) * double(N)) * dx;
    vp_assert(c(v) == i, "a position near a site maps to this site");
    vp_assert(c(c[i]) == i, "the index at the position of a site");
    vp_reach("end");
    vp_observe_u64("r", c(v));
}
HARNESS(momentum_geometry)
{
    const uint64_t N = vp_arg(0);
    const Chain c(N);
    const double pi = 3.14159265358979323846;
    geometry(c, N, -pi, 2. * pi / double(N));
    for(uint64_t i = 0; i < N; ++i) {
        vp_assert(c(c[i]) == i, "the index at the position of a site");
        vp_assert(c(c[i] + c.x_length()) == i, "shifted by a period");
        vp_assert(c(c[i] - c.x_length()) == i, "shifted by a period");
        vp_assert(c.closest(c[i]) == i, "the closest site at the position of a site");
    }
    vp_assert_eq_f64(c.x_max(), pi, "x_max");
    vp_observe_u64("N", N);
    vp_reach("end");
}
// closest site; args: N, 0 momentum / 1 real space
HARNESS(closest)
{
    const uint64_t N = vp_arg(0);
    const bool real  = vp_arg(1);
    const double pi = 3.14159265358979323846, x_min = real ? 0. : -pi, dx = real ? 0.5 : 2. * pi / double(N);
    const Chain c    = real ? Chain(N, 0.5) : Chain(N);
    const uint64_t i = vp_arg(2) != 0 ? vp_arg(2) - 1 : vp_choose("i", 0, N - 1), k = vp_choose("k", 0, 2);
    const double p = x_min + double(i) * dx + (double(k) - 1.) * double(N) * dx;
    const double v = vp_f64("v");
    vp_assume(v > p - 0.4999 * dx);
    vp_assume(v < p + 0.4999 * dx);
    const uint64_t r = c.closest(v);
    vp_assert(r == i, "the closest site modulo the period");
    vp_observe_u64("r", r);
    vp_reach("end");
}
