// C08: integer iterators.
#include "vp.h"

#include <utility>

#include "ieompp/iterators/integer_iterator.hpp"

using namespace ieompp::iterators;

template <bool C>
static uint64_t val(IntegerIterator<uint64_t, C> i) { return *i; }
static uint64_t val(const uint64_t& i) { return i; }

template <bool C>
static void laws()
{
    using It = IntegerIterator<uint64_t, C>;
    const uint64_t x = vp_u64("x"), y = vp_u64("y"), d = vp_u64("d");
    const It i(x), j(y);
    vp_assert(val(i) == x, "dereferencing yields the value");
    It k(i);
    vp_assert(k[d] == x + d, "subscript");
    vp_assert(val(i + d) == x + d, "it + n");
    vp_assert(val(d + i) == x + d, "n + it");
    vp_assert(val(i - d) == x - d, "it - n");
    vp_assert((i + d) - i == d, "(it + n) - it == n");
    vp_assert(i + (j - i) == j, "i + (j - i) == j");
    vp_assert((i + d) - d == i, "(it + n) - n == it");
    vp_assert((i - d) + d == i, "(it - n) + n == it");
    It a(i);
    It& ra = (a += d);
    vp_assert((&ra == &a) & (a == i + d), "+= agrees with +");
    It& rb = (a -= d);
    vp_assert((&rb == &a) & (a == i), "-= undoes +=");
    a -= d;
    vp_assert(a == i - d, "-= agrees with -");
    a += d;
    vp_assert(a == i, "+= undoes -=");
    It b(i);
    vp_assert(val(++b) == x + 1, "prefix increment returns the new position");
    vp_assert(val(b) == x + 1, "prefix increment advances by one");
    vp_assert(val(--b) == x, "prefix decrement returns the new position");
    vp_assert(val(b) == x, "prefix decrement goes back by one");
    vp_assert(val(b++) == x, "postfix increment returns the old position");
    vp_assert(val(b) == x + 1, "postfix increment advances by one");
    vp_assert(val(b--) == x + 1, "postfix decrement returns the old position");
    vp_assert(val(b) == x, "postfix decrement goes back by one");
    vp_assert(((i == j) == (x == y)) & ((i != j) == (x != y)), "equality");
    vp_assert(((i < j) == (x < y)) & ((i > j) == (x > y)), "order");
    vp_assert(((i <= j) == (x <= y)) & ((i >= j) == (x >= y)), "weak order");
    It s(i), t(j);
    s.swap(t);
    vp_assert((val(s) == y) & (val(t) == x), "swap");
    t = s;
    vp_assert(val(t) == y, "assignment");
    vp_observe_u64("sum", val(i + d));
    vp_observe_u64("diff", j - i);
    vp_reach("end");
}
HARNESS(const_iterator) { laws<true>(); }
HARNESS(mutable_iterator) { laws<false>(); }

// advancing by n equals n steps
template <bool C>
static void steps()
{
    using It = IntegerIterator<uint64_t, C>;
    const uint64_t x = vp_u64("x"), n = vp_arg(0);
    It a(x), b(x);
    for(uint64_t k = 0; k < n; ++k) {
        ++a;
        b++;
    }
    vp_assert((a == It(x) + n) & (b == a), "n increments equal + n");
    uint64_t visited = 0;
    bool ascending   = true;
    for(It i(x); i != It(x) + n; ++i) {
        ascending &= *i == x + visited;
        ++visited;
    }
    vp_assert((visited == n) & ascending, "a loop visits the n values in order");
    for(uint64_t k = 0; k < n; ++k) {
        --a;
        b--;
    }
    vp_assert((a == It(x)) & (b == a), "n decrements undo n increments");
    vp_observe_u64("n", visited);
    vp_reach("end");
}
HARNESS(const_steps) { steps<true>(); }
HARNESS(mutable_steps) { steps<false>(); }
