// C03: products and conjugation of monomials.
#include "vp.h"

#include "ieompp/algebra/monomial/monomial.hpp"
#include "ieompp/algebra/operator/operator.hpp"

using namespace ieompp::algebra;
using Op  = Operator<uint64_t, bool>;
using Mon = Monomial<Op>;

struct Raw {
    uint64_t n;
    bool c[16];
    uint64_t i[16];
    bool s[16];
};
static Raw read(const char* p, uint64_t n)
{
    Raw r;
    r.n = n;
    for(uint64_t k = 0; k < n; ++k) {
        r.c[k] = vp_bool(vp_numbered(p, k, "c"));
        r.i[k] = vp_u64(vp_numbered(p, k, "i"));
        r.s[k] = vp_bool(vp_numbered(p, k, "s"));
    }
    return r;
}
#define RAW(name, p, len) const Raw name = read(p, len);
static Mon build(const Raw& r)
{
    Mon m;
    for(uint64_t k = 0; k < r.n; ++k) {
        m.push_back(Op{r.c[k], r.i[k], r.s[k]});
    }
    return m;
}
static bool same(const Op& o, const Raw& r, uint64_t k, bool conj = false)
{
    return (o.creator == (r.c[k] != conj)) & (o.index1 == r.i[k]) & (o.index2 == r.s[k]);
}
static bool equals(const Mon& m, const Raw& r)
{
    if(m.size() != r.n) {
        return false;
    }
    bool e = true;
    for(uint64_t k = 0; k < r.n; ++k) {
        e &= same(m[k], r, k);
    }
    return e;
}
static void is_product(const Mon& p, const Raw& a, const Raw& b, const char* what)
{
    vp_assert(p.size() == a.n + b.n, what);
    for(uint64_t k = 0; k < a.n; ++k) {
        vp_assert(same(p[k], a, k), what);
    }
    for(uint64_t k = 0; k < b.n; ++k) {
        vp_assert(same(p[a.n + k], b, k), what);
    }
}

// args: lengths of both monomials
HARNESS(product)
{
    RAW(ra, "a", vp_arg(0));
    RAW(rb, "b", vp_arg(1));
    const Mon a = build(ra), b = build(rb);
    const Mon p = a * b;
    is_product(p, ra, rb, "operator* concatenates");
    vp_assert(equals(a, ra) & equals(b, rb), "operator* leaves the operands alone");
    Mon q(a);
    Mon& ret = (q *= b);
    is_product(q, ra, rb, "operator*= appends");
    vp_assert(&ret == &q, "operator*= returns the left operand");
    vp_assert(equals(b, rb), "operator*= leaves the right operand alone");
    // (ab)^+ = b^+ a^+
    vp_assert(p.get_conjugate() == b.get_conjugate() * a.get_conjugate(), "(ab)^+ = b^+ a^+");
    vp_assert(p.get_conjugate().is_conjugate(p), "is_conjugate of a product");
    vp_observe_u64("n", p.size());
    vp_reach("end");
}

HARNESS(associative)
{
    RAW(ra, "a", vp_arg(0));
    RAW(rb, "b", vp_arg(1));
    RAW(rc, "c", vp_arg(2));
    const Mon a = build(ra), b = build(rb), c = build(rc);
    vp_assert((a * b) * c == a * (b * c), "product associative");
    vp_reach("end");
}

HARNESS(self_product)
{
    RAW(ra, "a", vp_arg(0));
    Mon a = build(ra);
    is_product(a * a, ra, ra, "a * a");
    a *= a;
    is_product(a, ra, ra, "a *= a");
    Mon b = build(ra);
    b.reserve(16);
    b *= b;
    is_product(b, ra, ra, "b *= b with spare capacity");
    vp_reach("end");
}

HARNESS(conjugate)
{
    RAW(ra, "a", vp_arg(0));
    const Mon a = build(ra);
    const Mon d = a.get_conjugate();
    vp_assert(d.size() == ra.n, "conjugate keeps the length");
    for(uint64_t k = 0; k < ra.n; ++k) {
        vp_assert(same(d[k], ra, ra.n - 1 - k, true), "conjugate reverses and conjugates");
    }
    vp_assert(equals(a, ra), "get_conjugate leaves the original alone");
    Mon e(a);
    e.conjugate();
    vp_assert(e == d, "in-place conjugation");
    e.conjugate();
    vp_assert(equals(e, ra), "double conjugation in place");
    vp_assert(equals(d.get_conjugate(), ra), "double conjugation");
    vp_assert(d.is_conjugate(a) & a.is_conjugate(d), "is_conjugate");
    vp_observe_u64("n", d.size());
    vp_reach("end");
}

HARNESS(compare)
{
    RAW(ra, "a", vp_arg(0));
    RAW(rb, "b", vp_arg(1));
    const Mon a = build(ra), b = build(rb);
    bool eq = ra.n == rb.n, cj = eq;
    if(eq) {
        for(uint64_t k = 0; k < ra.n; ++k) {
            eq &= (ra.c[k] == rb.c[k]) & (ra.i[k] == rb.i[k]) & (ra.s[k] == rb.s[k]);
            const uint64_t l = ra.n - 1 - k;
            cj &= (ra.c[k] != rb.c[l]) & (ra.i[k] == rb.i[l]) & (ra.s[k] == rb.s[l]);
        }
    }
    vp_assert((a == b) == eq, "== iff same length and operators");
    vp_assert((a != b) == !eq, "!= iff not ==");
    vp_assert(a.is_conjugate(b) == cj, "is_conjugate exactly for the conjugate");
    vp_assert(b.is_conjugate(a) == cj, "is_conjugate symmetric");
    vp_assert((a.get_conjugate() == b) == cj, "get_conjugate agrees with is_conjugate");
    vp_observe_u64("eq", eq);
    vp_observe_u64("cj", cj);
    vp_reach("end");
}
