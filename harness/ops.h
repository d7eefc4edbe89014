// Arbitrary operators and strings for the algebra harnesses.
#ifndef VP_OPS_H_
#define VP_OPS_H_
#include "vp.h"
#include <complex>

struct RawOp {
    bool c;
    uint64_t i;
    bool s;
};
struct RawString {
    uint64_t n;
    RawOp o[16];
};
static const char* const vp_ops[5]  = {"a", "b", "c", "d", "e"};
static const char* const vp_pre[5]  = {"ap", "bp", "cp", "dp", "ep"};
static const char* const vp_imag[5] = {"aq", "bq", "cq", "dq", "eq"};

inline RawString raw_string(uint64_t which, uint64_t n)
{
    RawString r;
    r.n = n;
    for(uint64_t k = 0; k < n; ++k) {
        r.o[k].c = vp_bool(vp_numbered(vp_ops[which], k, "c"));
        r.o[k].i = vp_u64(vp_numbered(vp_ops[which], k, "i"));
        r.o[k].s = vp_bool(vp_numbered(vp_ops[which], k, "s"));
    }
    return r;
}
inline bool raw_same(const RawString& a, const RawString& b)
{
    if(a.n != b.n) {
        return false;
    }
    bool e = true;
    for(uint64_t k = 0; k < a.n; ++k) {
        e &= (a.o[k].c == b.o[k].c) & (a.o[k].i == b.o[k].i) & (a.o[k].s == b.o[k].s);
    }
    return e;
}
// operators given by flag, index and spin
template <typename Op>
inline bool op_is(const Op& o, const RawOp& r, bool conj = false)
{
    return (o.creator == (r.c != conj)) & (o.index1 == r.i) & (o.index2 == r.s);
}
template <typename Container>
inline bool string_is(const Container& ops, const RawString& r)
{
    if(ops.size() != r.n) {
        return false;
    }
    bool e     = true;
    uint64_t k = 0;
    for(const auto& o : ops) {
        e &= op_is(o, r.o[k++]);
    }
    return e;
}
template <typename Term, typename Prefactor>
inline Term build_term(const RawString& r, const Prefactor& p)
{
    Term t;
    t.prefactor = p;
    for(uint64_t k = 0; k < r.n; ++k) {
        t.operators.push_back(typename Term::Operator{r.o[k].c, r.o[k].i, r.o[k].s});
    }
    return t;
}
#endif
