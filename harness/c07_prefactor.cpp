// C07: symbolic prefactors and Kronecker deltas.
#include <string>

#include "vp.h"

#include "ieompp/symbolic/prefactor.hpp"

using namespace ieompp;
using algebra::Kronecker;
using P = symbolic::Prefactor<double>;

// symbol number k of 0, 1, 2 arbitrary characters; longer ones have them in the middle and at the end
static std::string symbol(uint64_t k, uint64_t len)
{
    std::string s(len, 'x');
    if(len > 2) {
        s[len / 2] = char(vp_u8(vp_numbered("c", k)));
        s[len - 1] = char(vp_u8(vp_numbered("d", k)));
        return s;
    }
    if(len > 0) {
        s[0] = char(vp_u8(vp_numbered("c", k)));
    }
    if(len > 1) {
        s[1] = char(vp_u8(vp_numbered("d", k)));
    }
    return s;
}
static bool same_pair(const Kronecker& x, const Kronecker& y)
{
    return ((x.a == y.a) & (x.b == y.b)) | ((x.a == y.b) & (x.b == y.a));
}
static bool same_exact(const Kronecker& x, const Kronecker& y) { return (x.a == y.a) & (x.b == y.b); }

// args: lengths of six symbols
HARNESS(kronecker_equality)
{
    const Kronecker x{symbol(0, vp_arg(0)), symbol(1, vp_arg(1))}, y{symbol(2, vp_arg(2)), symbol(3, vp_arg(3))};
    const bool e = same_pair(x, y);
    vp_assert((x == y) == e, "deltas are equal iff they relate the same two indices");
    vp_assert((y == x) == e, "symmetric");
    vp_assert((x != y) == !e, "!= is the negation of ==");
    vp_assert(x == algebra::make_kronecker(x.b, x.a), "the order of the indices does not matter");
    vp_assert(x == x, "reflexive");
    const uint64_t i = vp_below("i", 4), j = vp_below("j", 4);
    const Kronecker d = algebra::make_kronecker(i, j), e2 = algebra::make_kronecker(int(i), -int(j) - 1);
    vp_assert((d.a.size() == 1) & (d.b.size() == 1) & (e2.a.size() == 1) & (e2.b.size() == 2), "numbers of one digit");
    vp_assert((uint8_t(d.a[0]) == '0' + i) & (uint8_t(d.b[0]) == '0' + j), "delta of two numbers");
    vp_assert((uint8_t(e2.a[0]) == '0' + i) & (e2.b[0] == '-') & (uint8_t(e2.b[1]) == '1' + j), "delta of two signed numbers");
    Kronecker z(x);
    z.order();
    vp_assert(z == x, "ordering keeps the delta");
    vp_assert(!(z.b < z.a), "ordering writes the smaller index first");
    vp_observe_u64("e", e);
    vp_reach("end");
}

// args: number of deltas in each factor
HARNESS(product)
{
    const uint64_t n = vp_arg(0), m = vp_arg(1);
    P a, b;
    a.value = vp_f64("x");
    b.value = vp_f64("y");
    const double x = a.value, y = b.value;
    for(uint64_t k = 0; k < n; ++k) {
        a.kroneckers.push_back(Kronecker{symbol(2 * k, 1), symbol(2 * k + 1, 1)});
    }
    for(uint64_t k = 0; k < m; ++k) {
        b.kroneckers.push_back(Kronecker{symbol(2 * (n + k), 1), symbol(2 * (n + k) + 1, 1)});
    }
    const P a0(a), b0(b);
    auto check = [&](const P& p, const P& l, const P& r, const char* what) {
        vp_assert(p.kroneckers.size() == l.kroneckers.size() + r.kroneckers.size(), what);
        for(uint64_t k = 0; k < l.kroneckers.size(); ++k) {
            vp_assert(same_pair(p.kroneckers[k], l.kroneckers[k]), what);
        }
        for(uint64_t k = 0; k < r.kroneckers.size(); ++k) {
            vp_assert(same_pair(p.kroneckers[l.kroneckers.size() + k], r.kroneckers[k]), what);
        }
    };
    P p = a * b;
    check(p, a0, b0, "operator* keeps all deltas");
    vp_assert_eq_f64(p.value, x * y, "operator* multiplies the values");
    P q(a);
    q *= b;
    check(q, a0, b0, "operator*= keeps all deltas");
    vp_assert_eq_f64(q.value, x * y, "operator*= multiplies the values");
    check(b, b0, P{}, "the right operand is left alone");
    vp_assert_eq_f64(b.value, y, "the right operand is left alone");
    P s(a);
    s *= s;
    check(s, a0, a0, "p *= p keeps all deltas twice");
    vp_assert_eq_f64(s.value, x * x, "p *= p squares the value");
    P l(a);
    l *= b.kroneckers;
    check(l, a0, b0, "multiplying with a list of deltas appends them");
    vp_assert_eq_f64(l.value, x, "multiplying with deltas keeps the value");
    P w(a);
    w *= w.kroneckers;
    check(w, a0, a0, "multiplying with its own deltas");
    P v(a);
    v *= y;
    check(v, a0, P{}, "multiplying with a number keeps the deltas");
    vp_assert_eq_f64(v.value, x * y, "multiplying with a number multiplies the value");
    if(m > 0) {
        P u(a);
        u *= b.kroneckers[0];
        vp_assert(u.kroneckers.size() == n + 1 && same_pair(u.kroneckers[n], b0.kroneckers[0]), "multiplying with a delta appends it");
        vp_assert_eq_f64(u.value, x, "multiplying with a delta keeps the value");
    }
    vp_observe_u64("n", p.kroneckers.size());
    vp_reach("end");
}

static Kronecker fixed_delta(uint64_t k)
{
    return Kronecker{std::string(1, char('a' + 7 * k % 13)), std::string(1, char('a' + 5 * k % 11)) + std::string(k % 3, 'q')};
}
static void order_of(const P& a)
{
    const uint64_t n = a.kroneckers.size();
    P b(a);
    b.order_kroneckers();
    vp_assert(b.kroneckers.size() == n, "ordering keeps the number of deltas");
    for(uint64_t k = 0; k < n; ++k) {
        vp_assert(!(b.kroneckers[k].b < b.kroneckers[k].a), "smaller index first");
        if(k + 1 < n) {
            const Kronecker &x = b.kroneckers[k], &y = b.kroneckers[k + 1];
            vp_assert((x.a < y.a) | ((x.a == y.a) & !(y.b < x.b)), "deltas ascend");
        }
        // multiplicity of delta k before and after
        uint64_t before = 0, after = 0;
        for(uint64_t l = 0; l < n; ++l) {
            before += vp_select_u64(same_pair(a.kroneckers[l], a.kroneckers[k]), 1, 0);
            after += vp_select_u64(same_pair(b.kroneckers[l], a.kroneckers[k]), 1, 0);
        }
        vp_assert(before == after, "every delta is kept as often as before");
    }
    vp_reach("end");
    vp_observe_u64("n", n);
}
// args: number of deltas, then the lengths of their symbols
HARNESS(canonical_order)
{
    const uint64_t n = vp_arg(0);
    P a;
    a.value = 1.;
    for(uint64_t k = 0; k < n; ++k) {
        a.kroneckers.push_back(Kronecker{symbol(2 * k, vp_arg(1 + 2 * k)), symbol(2 * k + 1, vp_arg(2 + 2 * k))});
    }
    order_of(a);
}
// many deltas, the symbols of one of them are arbitrary; args: number of deltas, position
HARNESS(large_order)
{
    const uint64_t n = vp_arg(0);
    P a, r;
    a.value = 1.;
    for(uint64_t k = 0; k < n; ++k) a.kroneckers.push_back(k == vp_arg(1) ? Kronecker{symbol(0, 1), symbol(1, 1)} : fixed_delta(k));
    order_of(a);
    for(uint64_t k = 0; k < n; ++k) {
        const Kronecker& d = a.kroneckers[(5 * n + 2 - k) % n];
        r.kroneckers.push_back(k % 3 == 1 ? Kronecker{d.b, d.a} : d);
    }
    a.order_kroneckers();
    r.order_kroneckers();
    for(uint64_t k = 0; k < n; ++k) vp_assert(same_exact(a.kroneckers[k], r.kroneckers[k]), "the same canonical form for another arrangement");
}
// the canonical form does not depend on the initial arrangement: rotated and flipped copies; args as above
HARNESS(canonical_unique)
{
    const uint64_t n = vp_arg(0);
    P a, r;
    for(uint64_t k = 0; k < n; ++k) {
        a.kroneckers.push_back(Kronecker{symbol(2 * k, vp_arg(1 + 2 * k)), symbol(2 * k + 1, vp_arg(2 + 2 * k))});
    }
    const uint64_t rot = n ? vp_choose("rot", 0, n - 1) : 0, rev = vp_choose("rev", 0, 1), flip = vp_choose("flip", 0, (1 << n) - 1);
    for(uint64_t k = 0; k < n; ++k) {
        const uint64_t p = ((rev ? n - 1 - k : k) + rot) % n;
        r.kroneckers.push_back((flip >> p) & 1 ? Kronecker{a.kroneckers[p].b, a.kroneckers[p].a} : a.kroneckers[p]);
    }
    a.order_kroneckers();
    r.order_kroneckers();
    for(uint64_t k = 0; k < n; ++k) {
        vp_assert(same_exact(a.kroneckers[k], r.kroneckers[k]), "the same canonical form for every arrangement");
    }
    vp_reach("end");
    vp_observe_u64("n", n);
}
