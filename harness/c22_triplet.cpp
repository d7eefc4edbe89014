// C22: triplet lists.
#include "vp.h"
#include <algorithm>
#include <cmath>
#include <complex>
#include <initializer_list>
#include <limits>
#include <type_traits>
#include <utility>
#include <vector>

#include "ieompp/types/triplet.hpp"

using namespace ieompp;
using C = std::complex<double>;

static const char* const CN[5] = {"c0", "c1", "c2", "c3", "c4"};
static const char* const RN[5] = {"r0", "r1", "r2", "r3", "r4"};
static const char* const XN[5] = {"x0", "x1", "x2", "x3", "x4"};
static const char* const YN[5] = {"y0", "y1", "y2", "y3", "y4"};

template <typename S>
struct Make;
template <>
struct Make<double> {
    static double get(uint64_t i)
    {
        const double x = vp_f64(XN[i]);
        vp_assume((x > -100.) & (x < 100.));
        return x;
    }
    static double re(double x) { return x; }
    static double im(double) { return 0.; }
};
template <>
struct Make<C> {
    static C get(uint64_t i)
    {
        const double x = vp_f64(XN[i]), y = vp_f64(YN[i]);
        vp_assume((x > -100.) & (x < 100.) & (y > -100.) & (y < 100.));
        return C(x, y);
    }
    static double re(const C& x) { return x.real(); }
    static double im(const C& x) { return x.imag(); }
};
template <typename S>
using List = types::TripletList<S, uint64_t>;

static uint64_t large_columns; // not 0: long lists with few symbolic values
template <typename S>
static List<S> read(uint64_t n)
{
    List<S> l;
    if(large_columns) {
        for(uint64_t i = 0; i < n; ++i) {
            const S v = i == 0 ? Make<S>::get(0) : i + 1 == n ? Make<S>::get(1) : S(1. + 0.125 * double(i));
            if(vp_arg(3) == i + 1) { // any row and column
                const uint64_t r = vp_u64("r"), c = vp_u64("c");
                l.emplace_back(r, c, v);
                continue;
            }
            l.emplace_back(3 * i, vp_arg(1) == 0 ? i * large_columns / n : (7 * i + 3) % large_columns, v);
        }
        return l;
    }
    for(uint64_t i = 0; i < n; ++i) {
        const uint64_t r = vp_u64(RN[i]), c = vp_u64(CN[i]);
        const S v = Make<S>::get(i);
        l.emplace_back(r, c, v);
        const auto& t = l.back();
        vp_assert((t.row == r) & (t.column == c), "a triplet holds the row and the column it was made with");
        vp_assert((Make<S>::re(t.value) == Make<S>::re(v)) & (Make<S>::im(t.value) == Make<S>::im(v)), "a triplet holds the value it was made with");
    }
    return l;
}
// what the list says about column c
template <typename S>
static void column_sum(const List<S>& l, uint64_t c, double& re, double& im, uint64_t& count)
{
    re = im = 0.;
    count   = 0;
    for(const auto& t : l) {
        const bool here = t.column == c;
        re += vp_select_f64(here, Make<S>::re(t.value), 0.);
        im += vp_select_f64(here, Make<S>::im(t.value), 0.);
        count += vp_select_u64(here, 1, 0);
    }
}
template <typename S>
static void sorting()
{
    const uint64_t n = vp_arg(0);
    const List<S> l  = read<S>(n);
    List<S> s(l);
    s.sort();
    vp_assert(s.size() == n, "sorting keeps the number of triplets");
    for(uint64_t i = 1; i < n; ++i) {
        vp_assert(s[i - 1].column <= s[i].column, "sorted by column");
    }
    // a permutation: every triplet occurs as often as before
    for(uint64_t i = 0; i < n; ++i) {
        uint64_t before = 0, after = 0;
        for(uint64_t j = 0; j < n; ++j) {
            const bool b = (l[j].row == l[i].row) & (l[j].column == l[i].column) & (Make<S>::re(l[j].value) == Make<S>::re(l[i].value))
                           & (Make<S>::im(l[j].value) == Make<S>::im(l[i].value));
            const bool a = (s[j].row == l[i].row) & (s[j].column == l[i].column) & (Make<S>::re(s[j].value) == Make<S>::re(l[i].value))
                           & (Make<S>::im(s[j].value) == Make<S>::im(l[i].value));
            before += vp_select_u64(b, 1, 0);
            after += vp_select_u64(a, 1, 0);
        }
        vp_assert(before == after, "sorting keeps every triplet");
    }
    bool unique = true;
    for(uint64_t i = 0; i < n; ++i) {
        for(uint64_t j = 0; j < i; ++j) {
            unique = unique & (l[i].column != l[j].column);
        }
    }
    vp_assert(s.has_unique_columns() == unique, "a sorted list has unique columns iff no column occurs twice");
    vp_observe_u64("unique", unique);
    vp_reach("end");
}
template <typename S>
static void merging()
{
    const double eps = std::numeric_limits<double>::epsilon();
    const uint64_t n = vp_arg(0);
    const List<S> l  = read<S>(n);
    List<S> s(l);
    if(vp_arg(1) != 0) {
        // the builders sort first
        s.sort();
    } else {
        for(uint64_t i = 1; i < n; ++i) {
            vp_assume(s[i - 1].column <= s[i].column);
        }
    }
    const List<S> u = s.make_columns_unique();
    vp_assert(u.size() <= n, "merging does not add triplets");
    for(uint64_t i = 1; i < u.size(); ++i) {
        vp_assert(u[i - 1].column < u[i].column, "every column at most once, in ascending order");
    }
    vp_assert(u.has_unique_columns(), "the merged list has unique columns");
    for(uint64_t i = 0; i < n; ++i) {
        const uint64_t c = l[i].column;
        double re, im, mre, mim;
        uint64_t k, m;
        column_sum(l, c, re, im, k);
        column_sum(u, c, mre, mim, m);
        // entries that vanish may be dropped
        const bool zero = (re > -eps) & (re < eps) & (im > -eps) & (im < eps);
        vp_assert(((m == 1) & (mre == re) & (mim == im)) | ((m == 0) & zero), "the value of a column is the sum of all values listed for it");
    }
    for(uint64_t i = 0; i < u.size(); ++i) {
        uint64_t k = 0;
        for(uint64_t j = 0; j < n; ++j) {
            k += vp_select_u64(l[j].column == u[i].column, 1, 0);
        }
        vp_assert(k > 0, "no column appears from nowhere");
        bool row = false;
        for(uint64_t j = 0; j < n; ++j) {
            row = row | ((l[j].column == u[i].column) & (l[j].row == u[i].row));
        }
        vp_assert(row, "the row of a merged triplet is the row of one of its sources");
    }
    vp_observe_u64("size", u.size());
    vp_reach("end");
}
HARNESS(sort_real) { sorting<double>(); }
HARNESS(sort_complex) { sorting<C>(); }
HARNESS(merge_real) { merging<double>(); }
HARNESS(merge_complex) { merging<C>(); }
// number of triplets, 0 if they are in order already, number of columns
HARNESS(large_sort)
{
    large_columns = vp_arg(2);
    sorting<double>();
}
HARNESS(large_merge)
{
    large_columns = vp_arg(2);
    merging<double>();
}
HARNESS(large_merge_complex)
{
    large_columns = vp_arg(2);
    merging<C>();
}
