// C01: equality, index access, conjugation and factories of operators with 1, 2 and 3 indices.
#include "vp.h"

#include <initializer_list>

#include "ieompp/algebra/operator/get_index.hpp"
#include "ieompp/algebra/operator/make.hpp"
#include "ieompp/algebra/operator/operator.hpp"

using namespace ieompp::algebra;

using Op1 = Operator<uint64_t>;
using Op2 = Operator<uint64_t, bool>;
using Op3 = Operator<uint64_t, uint64_t, bool>;
using Op4 = Operator<uint64_t, uint32_t, int64_t, bool>;

struct Ix {
    bool c;
    uint64_t i, j;
    bool s;
};
static Ix fresh(const char* c, const char* i, const char* j, const char* s)
{
    Ix r;
    r.c = vp_bool(c);
    r.i = vp_u64(i);
    r.j = vp_u64(j);
    r.s = vp_bool(s);
    return r;
}
#define FRESH(p) fresh(p "_c", p "_i", p "_j", p "_s")

template <typename Op>
static void laws(const Op& a, const Op& b, const Op& c, bool same_idx, bool same_flag)
{
    const bool eq = same_idx & same_flag;
    vp_assert((a == b) == eq, "== iff flag and all indices agree");
    vp_assert((b == a) == eq, "== symmetric");
    vp_assert((a != b) == !eq, "!= is the negation of ==");
    vp_assert(a.same_indices(b) == same_idx, "same_indices iff all indices agree");
    vp_assert(b.same_indices(a) == same_idx, "same_indices symmetric");
    vp_assert(a.is_conjugate(b) == (same_idx & !same_flag), "is_conjugate iff flipped flag and same indices");
    vp_assert(b.is_conjugate(a) == (same_idx & !same_flag), "is_conjugate symmetric");
    vp_assert(a == a, "== reflexive");
    vp_assert(!(a != a), "!= irreflexive");
    vp_assert(!((a == b) & (b == c)) | (a == c), "== transitive");

    const Op d = a.get_conjugate();
    vp_assert(d.creator == !a.creator, "conjugate flips the flag");
    vp_assert(d.same_indices(a), "conjugate keeps indices");
    vp_assert(d.index_tuple() == a.index_tuple(), "conjugate keeps the index tuple");
    vp_assert(d.is_conjugate(a), "is_conjugate of conjugate");
    vp_assert(d.get_conjugate() == a, "double conjugate is the identity");
    Op e(a);
    e.conjugate();
    vp_assert(e == d, "in-place conjugation agrees with get_conjugate");
    e.conjugate();
    vp_assert(e == a, "in-place double conjugate is the identity");
    vp_assert((d == b) == a.is_conjugate(b), "b is the conjugate iff equal to get_conjugate");
}

HARNESS(one_index)
{
    Ix x = FRESH("a"), y = FRESH("b"), z = FRESH("c");
    const Op1 a{x.c, x.i}, b{y.c, y.i}, c{z.c, z.i};
    laws(a, b, c, x.i == y.i, x.c == y.c);
    vp_assert(get_index<0>(a) == x.i, "get_index<0>");
    vp_assert(std::get<0>(get_indices(a)) == x.i, "get_indices");
    vp_assert(std::get<0>(a.index_tuple()) == x.i, "index_tuple");
    vp_assert(get_index<0>(Op1{x.c, x.i}) == x.i, "get_index<0> of a temporary");
    Op1 m(a);
    get_index<0>(m) = y.i;
    vp_assert((m.creator == x.c) & (m.index_tuple() == std::make_tuple(y.i)), "get_index<0> writes through");
    const uint64_t ci = x.i;
    const Op1 k1 = Op1::make_creator(ci), k2 = Op1::make_creator(uint64_t(ci)), k3 = make_creator(ci), k4 = make_creator(uint64_t(ci));
    const Op1 l1 = Op1::make_annihilator(ci), l2 = Op1::make_annihilator(uint64_t(ci)), l3 = make_annihilator(ci),
              l4 = make_annihilator(uint64_t(ci));
    for(const Op1* p : {&k1, &k2, &k3, &k4}) {
        vp_assert(p->creator & (get_index<0>(*p) == x.i), "make_creator");
    }
    for(const Op1* p : {&l1, &l2, &l3, &l4}) {
        vp_assert(!p->creator & (get_index<0>(*p) == x.i), "make_annihilator");
    }
    vp_reach("end");
    vp_observe_u64("eq", a == b);
    vp_observe_u64("i", get_index<0>(a));
}

HARNESS(two_indices)
{
    Ix x = FRESH("a"), y = FRESH("b"), z = FRESH("c");
    const Op2 a{x.c, x.i, x.s}, b{y.c, y.i, y.s}, c{z.c, z.i, z.s};
    laws(a, b, c, (x.i == y.i) & (x.s == y.s), x.c == y.c);
    vp_assert(get_index<0>(a) == x.i, "get_index<0>");
    vp_assert(get_index<1>(a) == x.s, "get_index<1>");
    vp_assert((std::get<0>(get_indices(a)) == x.i) & (std::get<1>(get_indices(a)) == x.s), "get_indices");
    vp_assert((std::get<0>(a.index_tuple()) == x.i) & (std::get<1>(a.index_tuple()) == x.s), "index_tuple");
    vp_assert(get_index<0>(Op2{x.c, x.i, x.s}) == x.i, "get_index<0> of a temporary");
    vp_assert(get_index<1>(Op2{x.c, x.i, x.s}) == x.s, "get_index<1> of a temporary");
    Op2 m(a);
    get_index<0>(m) = y.i;
    vp_assert((m.creator == x.c) & (get_index<0>(m) == y.i) & (get_index<1>(m) == x.s), "get_index<0> writes through");
    get_index<1>(m) = y.s;
    vp_assert((m.creator == x.c) & (get_index<0>(m) == y.i) & (get_index<1>(m) == y.s), "get_index<1> writes through");
    const uint64_t ci = x.i;
    const bool cs     = x.s;
    const Op2 k1 = Op2::make_creator(ci, cs), k2 = Op2::make_creator(uint64_t(ci), bool(cs)), k3 = make_creator(ci, cs),
              k4 = make_creator(uint64_t(ci), bool(cs));
    const Op2 l1 = Op2::make_annihilator(ci, cs), l2 = Op2::make_annihilator(uint64_t(ci), bool(cs)),
              l3 = make_annihilator(ci, cs), l4 = make_annihilator(uint64_t(ci), bool(cs));
    for(const Op2* p : {&k1, &k2, &k3, &k4}) {
        vp_assert(p->creator & (get_index<0>(*p) == x.i) & (get_index<1>(*p) == x.s), "make_creator");
    }
    for(const Op2* p : {&l1, &l2, &l3, &l4}) {
        vp_assert(!p->creator & (get_index<0>(*p) == x.i) & (get_index<1>(*p) == x.s), "make_annihilator");
    }
    // two 64-bit indices are kept apart
    using Opu   = Operator<uint64_t, uint64_t>;
    const Opu u = make_creator(x.i, x.j), v{y.c, y.i, y.j}, w{z.c, z.i, z.j};
    vp_assert((get_index<0>(u) == x.i) & (get_index<1>(u) == x.j) & u.creator, "two 64-bit indices");
    laws(u, v, w, (x.i == y.i) & (x.j == y.j), y.c);
    vp_reach("end");
    vp_observe_u64("eq", a == b);
    vp_observe_u64("i", get_index<0>(a));
}

HARNESS(three_indices)
{
    Ix x = FRESH("a"), y = FRESH("b"), z = FRESH("c");
    const Op3 a{x.c, std::make_tuple(x.i, x.j, x.s)}, b{y.c, std::make_tuple(y.i, y.j, y.s)}, c{z.c, std::make_tuple(z.i, z.j, z.s)};
    laws(a, b, c, (x.i == y.i) & (x.j == y.j) & (x.s == y.s), x.c == y.c);
    vp_assert((get_index<0>(a) == x.i) & (get_index<1>(a) == x.j) & (get_index<2>(a) == x.s), "get_index");
    vp_assert(get_indices(a) == std::make_tuple(x.i, x.j, x.s), "get_indices");
    vp_assert(a.index_tuple() == std::make_tuple(x.i, x.j, x.s), "index_tuple");
    vp_assert(get_index<0>(Op3{x.c, std::make_tuple(x.i, x.j, x.s)}) == x.i, "get_index<0> of a temporary");
    vp_assert(get_index<1>(Op3{x.c, std::make_tuple(x.i, x.j, x.s)}) == x.j, "get_index<1> of a temporary");
    vp_assert(get_index<2>(Op3{x.c, std::make_tuple(x.i, x.j, x.s)}) == x.s, "get_index<2> of a temporary");
    Op3 m(a);
    get_index<1>(m) = y.j;
    vp_assert((m.creator == x.c) & (m.index_tuple() == std::make_tuple(x.i, y.j, x.s)), "get_index<1> writes through");
    get_index<2>(m) = y.s;
    vp_assert((m.creator == x.c) & (m.index_tuple() == std::make_tuple(x.i, y.j, y.s)), "get_index<2> writes through");
    const uint64_t ci = x.i, cj = x.j;
    const bool cs = x.s;
    const Op3 k1 = Op3::make_creator(ci, cj, cs), k2 = Op3::make_creator(uint64_t(ci), uint64_t(cj), bool(cs)),
              k3 = make_creator(ci, cj, cs), k4 = make_creator(uint64_t(ci), uint64_t(cj), bool(cs));
    const Op3 l1 = Op3::make_annihilator(ci, cj, cs), l2 = Op3::make_annihilator(uint64_t(ci), uint64_t(cj), bool(cs)),
              l3 = make_annihilator(ci, cj, cs), l4 = make_annihilator(uint64_t(ci), uint64_t(cj), bool(cs));
    for(const Op3* p : {&k1, &k2, &k3, &k4}) {
        vp_assert(p->creator & (p->index_tuple() == std::make_tuple(x.i, x.j, x.s)), "make_creator");
    }
    for(const Op3* p : {&l1, &l2, &l3, &l4}) {
        vp_assert(!p->creator & (p->index_tuple() == std::make_tuple(x.i, x.j, x.s)), "make_annihilator");
    }
    vp_reach("end");
    vp_observe_u64("eq", a == b);
    vp_observe_u64("j", get_index<1>(a));
}

HARNESS(four_indices)
{
    Ix x = FRESH("a"), y = FRESH("b"), z = FRESH("c");
    using T = std::tuple<uint64_t, uint32_t, int64_t, bool>;
    const uint32_t h[3] = {uint32_t(x.j >> 7), uint32_t(y.j >> 7), uint32_t(z.j >> 7)};
    const Op4 a{x.c, T(x.i, h[0], int64_t(x.j), x.s)}, b{y.c, T(y.i, h[1], int64_t(y.j), y.s)}, c{z.c, T(z.i, h[2], int64_t(z.j), z.s)};
    laws(a, b, c, (x.i == y.i) & (x.j == y.j) & (x.s == y.s), x.c == y.c);
    vp_assert((get_index<0>(a) == x.i) & (get_index<1>(a) == h[0]) & (get_index<2>(a) == int64_t(x.j)) & (get_index<3>(a) == x.s), "get_index");
    vp_assert(get_indices(a) == T(x.i, h[0], int64_t(x.j), x.s), "get_indices");
    vp_assert((get_index<1>(Op4(a)) == h[0]) & (get_index<2>(Op4(a)) == int64_t(x.j)) & (get_index<3>(Op4(a)) == x.s), "get_index of a temporary");
    const Op4 k = make_creator(x.i, h[0], int64_t(x.j), x.s);
    const Op4 l = make_annihilator(x.i, h[0], int64_t(x.j), x.s);
    vp_assert(k.creator & k.same_indices(a) & !l.creator & l.same_indices(a), "factories");
    vp_reach("end");
    vp_observe_u64("eq", a == b);
}
