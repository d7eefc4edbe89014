// C02: the orderings of operators and terms.
#include "vp.h"

#include "ieompp/algebra/operator/order.hpp"
#include "ieompp/algebra/term/order.hpp"
#include "ieompp/algebra/term/term.hpp"

using namespace ieompp::algebra;

template <typename T, typename Less, typename Greater, typename Eq>
static void order_laws(const T& a, const T& b, const T& c, const Less& less, const Greater& greater, const Eq& eq)
{
    const bool ab = less(a, b), ba = less(b, a), bc = less(b, c), ac = less(a, c);
    const bool gab = greater(a, b), gba = greater(b, a), gbc = greater(b, c), gac = greater(a, c);
    const bool e = eq(a, b);
    vp_assert(!less(a, a), "smaller irreflexive");
    vp_assert(!greater(a, a), "greater irreflexive");
    vp_assert(!(ab & ba), "smaller antisymmetric");
    vp_assert(!(gab & gba), "greater antisymmetric");
    vp_assert(ab | ba | e, "smaller total up to equality");
    vp_assert(gab | gba | e, "greater total up to equality");
    vp_assert(!e | !(ab | ba | gab | gba), "equal objects are not ordered");
    vp_assert(!(ab & bc) | ac, "smaller transitive");
    vp_assert(!(gab & gbc) | gac, "greater transitive");
    vp_assert(ab == gba, "smaller(a,b) iff greater(b,a)");
    vp_assert(gab == ba, "greater(a,b) iff smaller(b,a)");
    vp_observe_u64("less", ab);
    vp_observe_u64("greater", gab);
    vp_reach("end");
}

template <typename Op>
static void op_laws(const Op& a, const Op& b, const Op& c)
{
    order_laws(a, b, c, OperatorSmaller<Op>(), OperatorGreater<Op>(), [](const Op& x, const Op& y) { return x == y; });
}

#define FLAGS const bool fa = vp_bool("fa"), fb = vp_bool("fb"), fc = vp_bool("fc")
#define IDX(T, n) const T n##a = T(vp_u64(#n "a")), n##b = T(vp_u64(#n "b")), n##c = T(vp_u64(#n "c"))
#define SPIN(n) const bool n##a = vp_bool(#n "a"), n##b = vp_bool(#n "b"), n##c = vp_bool(#n "c")

HARNESS(order1)
{
    FLAGS;
    IDX(uint64_t, i);
    using Op = Operator<uint64_t>;
    op_laws(Op{fa, ia}, Op{fb, ib}, Op{fc, ic});
}
HARNESS(order1_signed)
{
    FLAGS;
    IDX(int64_t, i);
    using Op = Operator<int64_t>;
    op_laws(Op{fa, ia}, Op{fb, ib}, Op{fc, ic});
}
HARNESS(order2)
{
    FLAGS;
    IDX(uint64_t, i);
    SPIN(s);
    using Op = Operator<uint64_t, bool>;
    op_laws(Op{fa, ia, sa}, Op{fb, ib, sb}, Op{fc, ic, sc});
}
HARNESS(order2_wide)
{
    FLAGS;
    IDX(uint64_t, i);
    IDX(int64_t, j);
    using Op = Operator<uint64_t, int64_t>;
    op_laws(Op{fa, ia, ja}, Op{fb, ib, jb}, Op{fc, ic, jc});
}
HARNESS(order3)
{
    FLAGS;
    IDX(uint64_t, i);
    IDX(uint64_t, j);
    SPIN(s);
    using Op = Operator<uint64_t, uint64_t, bool>;
    op_laws(Op{fa, std::make_tuple(ia, ja, sa)}, Op{fb, std::make_tuple(ib, jb, sb)}, Op{fc, std::make_tuple(ic, jc, sc)});
}
HARNESS(order4)
{
    FLAGS;
    IDX(uint64_t, i);
    IDX(uint64_t, j);
    IDX(int64_t, k);
    SPIN(s);
    using Op = Operator<uint64_t, uint64_t, int64_t, bool>;
    op_laws(Op{fa, std::make_tuple(ia, ja, ka, sa)}, Op{fb, std::make_tuple(ib, jb, kb, sb)}, Op{fc, std::make_tuple(ic, jc, kc, sc)});
}

// terms: args = lengths of the three operator strings
using TOp   = Operator<uint64_t, bool>;
using TTerm = Term<double, TOp>;
static TTerm make(const char* c0, const char* i0, const char* s0, const char* c1, const char* i1, const char* s1, const char* c2,
                  const char* i2, const char* s2, const char* p, uint64_t len)
{
    TTerm t;
    t.prefactor = vp_f64(p);
    if(len > 0) {
        t.operators.push_back(TOp{vp_bool(c0), vp_u64(i0), vp_bool(s0)});
    }
    if(len > 1) {
        t.operators.push_back(TOp{vp_bool(c1), vp_u64(i1), vp_bool(s1)});
    }
    if(len > 2) {
        t.operators.push_back(TOp{vp_bool(c2), vp_u64(i2), vp_bool(s2)});
    }
    return t;
}
#define TERM(x, n) make(x "0c", x "0i", x "0s", x "1c", x "1i", x "1s", x "2c", x "2i", x "2s", x "p", n)
HARNESS(term_order)
{
    const TTerm a = TERM("a", vp_arg(0)), b = TERM("b", vp_arg(1)), c = TERM("c", vp_arg(2));
    auto eq = [](const TTerm& x, const TTerm& y) {
        if(x.operators.size() != y.operators.size()) {
            return false;
        }
        bool r = true;
        for(std::size_t k = 0; k < x.operators.size(); ++k) {
            r = r & (x.operators[k] == y.operators[k]);
        }
        return r;
    };
    order_laws(a, b, c, TermSmaller<TTerm>(), TermGreater<TTerm>(), eq);
}
