// C27: printed forms.
#include "vp.h"
#include <algorithm>
#include <initializer_list>
#include <iterator>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/monomial/io.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/algebra/operator/io.hpp"
#include "ieompp/algebra/term.hpp"
#include "ieompp/algebra/term/io.hpp"
#include "ieompp/symbolic/index.hpp"
#include "ieompp/symbolic/prefactor.hpp"
#include "ieompp/tuple.hpp"

using namespace ieompp;
using Op1 = algebra::Operator<uint64_t>;
using OpB = algebra::Operator<bool>;
using Op2 = algebra::Operator<uint64_t, bool>;
using OpW = algebra::Operator<bool, uint64_t>;
using Op3 = algebra::Operator<uint64_t, uint64_t, bool>;
using Op4 = algebra::Operator<uint64_t, bool, uint64_t, uint64_t>;
using OpS = algebra::Operator<std::string, bool>;

static const char* const UP   = "\xe2\x86\x91";
static const char* const DOWN = "\xe2\x86\x93";
static const char* const DOT  = " \xe2\x8b\x85 ";
static std::ostream& out() { return *vp_stream(0); }
static std::ostream& ref() { return *vp_stream(1); }
static void same(const char* what)
{
    vp_assert_same_output(0, 1, what);
    vp_reach("end");
}
static void head(bool creator) { ref() << 'c' << (creator ? "^\xe2\x80\xa0" : "") << "_{"; }
static void spin(bool up) { ref() << (up ? UP : DOWN); }

HARNESS(one_index)
{
    const bool c = vp_bool("c");
    const uint64_t i = vp_u64("i");
    out() << Op1{c, i};
    head(c);
    ref() << i << '}';
    same("operator with one index");
}
HARNESS(one_spin)
{
    const bool c = vp_bool("c"), s = vp_bool("s");
    out() << OpB{c, s};
    head(c);
    spin(s);
    ref() << '}';
    same("operator with a spin");
}
HARNESS(two_indices)
{
    const bool c = vp_bool("c"), s = vp_bool("s");
    const uint64_t i = vp_u64("i");
    out() << Op2{c, i, s};
    head(c);
    ref() << i << ',';
    spin(s);
    ref() << '}';
    same("operator with two indices");
}
HARNESS(two_indices_swapped)
{
    const bool c = vp_bool("c"), s = vp_bool("s");
    const uint64_t i = vp_u64("i");
    out() << OpW{c, s, i};
    head(c);
    spin(s);
    ref() << ',' << i << '}';
    same("operator with spin and index");
}
HARNESS(three_indices)
{
    const bool c = vp_bool("c"), s = vp_bool("s");
    const uint64_t i = vp_u64("i"), j = vp_u64("j");
    out() << Op3{c, {i, j, s}};
    head(c);
    ref() << i << ',' << j << ',';
    spin(s);
    ref() << '}';
    same("operator with three indices");
}
HARNESS(four_indices)
{
    const bool c = vp_bool("c"), s = vp_bool("s");
    const uint64_t i = vp_u64("i"), j = vp_u64("j"), k = vp_u64("k");
    out() << Op4{c, {i, s, j, k}};
    head(c);
    ref() << i << ',';
    spin(s);
    ref() << ',' << j << ',' << k << '}';
    same("operator with four indices");
}
static std::string symbol(uint64_t n, const char* p)
{
    std::string s;
    for(uint64_t i = 0; i < n; ++i) {
        s += char(vp_u8(p));
    }
    return s;
}
HARNESS(symbols)
{
    const bool c = vp_bool("c"), s = vp_bool("s");
    const std::string i = symbol(vp_arg(0), "i");
    out() << OpS{c, i, s};
    head(c);
    ref() << i << ',';
    spin(s);
    ref() << '}';
    same("operator with a symbol");
}
template <typename Op>
static Op make_symbol_operator(bool c, const std::tuple<std::string>& t) { return Op{c, std::get<0>(t)}; }
template <typename Op>
static Op make_symbol_operator(bool c, const std::tuple<std::string, std::string>& t) { return Op{c, std::get<0>(t), std::get<1>(t)}; }
template <typename Op, typename... Ts>
static Op make_symbol_operator(bool c, const std::tuple<Ts...>& t) { return Op{c, t}; }
// symbols in every position; args: their lengths
template <typename... Ts>
static void symbol_string(Ts... names)
{
    using Op           = algebra::Operator<typename std::conditional<true, std::string, Ts>::type...>;
    const bool c       = vp_bool("c");
    const char* list[] = {names...};
    std::string v[sizeof...(Ts)];
    for(uint64_t k = 0; k < sizeof...(Ts); ++k) {
        v[k] = symbol(vp_arg(k), list[k]);
    }
    uint64_t n = 0;
    // operands of a braced list are evaluated in order
    const auto t = std::tuple<typename std::conditional<true, std::string, Ts>::type...>{((void)names, v[n++])...};
    out() << make_symbol_operator<Op>(c, t);
    head(c);
    for(uint64_t k = 0; k < sizeof...(Ts); ++k) {
        ref() << (k == 0 ? "" : ",") << v[k];
    }
    ref() << '}';
    same("operator with symbols only");
}
HARNESS(symbol1) { symbol_string("i"); }
HARNESS(symbol2) { symbol_string("i", "j"); }
HARNESS(symbol3) { symbol_string("i", "j", "k"); }
HARNESS(symbol4) { symbol_string("i", "j", "k", "l"); }
struct Input {
    bool c, s;
    uint64_t i;
};
static std::vector<Input> read(uint64_t n)
{
    std::vector<Input> v;
    for(uint64_t k = 0; k < n; ++k) {
        // every flag and spin is arbitrary, or those of one operator
        const bool any = vp_arg(1) == 0 || vp_arg(1) == k + 1;
        const bool c = any ? vp_bool(vp_numbered("c", k)) : k % 3 == 0, s = any ? vp_bool(vp_numbered("s", k)) : k % 4 < 2;
        const uint64_t i = vp_u64(vp_numbered("i", k));
        v.push_back(Input{c, s, i});
    }
    return v;
}
static void expect(const std::vector<Input>& v)
{
    for(uint64_t k = 0; k < v.size(); ++k) {
        if(k > 0) {
            ref() << ' ';
        }
        head(v[k].c);
        ref() << v[k].i << ',';
        spin(v[k].s);
        ref() << '}';
    }
}
HARNESS(monomial)
{
    const auto v = read(vp_arg(0));
    algebra::Monomial<Op2> m;
    for(const auto& x : v) {
        m.push_back(Op2{x.c, x.i, x.s});
    }
    out() << m;
    expect(v);
    same("the operators of a monomial in their order");
}
HARNESS(term)
{
    const auto v = read(vp_arg(0));
    const double p = vp_f64("p");
    algebra::Term<double, Op2> t;
    t.prefactor = p;
    for(const auto& x : v) {
        t.operators.push_back(Op2{x.c, x.i, x.s});
    }
    out() << t;
    ref() << p;
    if(!v.empty()) {
        ref() << DOT;
    }
    expect(v);
    same("prefactor and operators of a term in their order");
}
HARNESS(kronecker)
{
    const std::string a = symbol(vp_arg(0), "a"), b = symbol(vp_arg(1), "b");
    out() << algebra::make_kronecker(a, b);
    ref() << "\xce\xb4_{" << a << ',' << b << '}';
    same("both indices of a delta");
}
HARNESS(kronecker_numbers)
{
    out() << algebra::make_kronecker(7, 12);
    ref() << "\xce\xb4_{7,12}";
    same("both indices of a delta of numbers");
}
template <typename T>
static void prefactor(T value, bool one, bool minus)
{
    const uint64_t n = vp_arg(0);
    symbolic::Prefactor<T> p;
    p.value = value;
    std::vector<std::string> s;
    for(uint64_t k = 0; k < n; ++k) {
        const std::string a = symbol(1, "a"), b = symbol(1 + k % 2, "b");
        p.kroneckers.push_back(algebra::Kronecker{a, b});
        s.push_back(a);
        s.push_back(b);
    }
    out() << p;
    if(n == 0) {
        ref() << value;
    } else {
        if(minus) {
            ref() << '-';
        } else if(!one) {
            ref() << value << DOT;
        }
        for(uint64_t k = 0; k < n; ++k) {
            ref() << (k > 0 ? " " : "") << "\xce\xb4_{" << s[2 * k] << ',' << s[2 * k + 1] << '}';
        }
    }
    same("value and all deltas of a prefactor in their order");
}
HARNESS(prefactor_integer)
{
    const int64_t v = int64_t(vp_u64("v"));
    prefactor<int64_t>(v, v == 1, v == -1);
}
HARNESS(prefactor_unsigned)
{
    const uint64_t v = vp_u64("v");
    prefactor<uint64_t>(v, v == 1, false);
}
HARNESS(prefactor_real)
{
    const double v = vp_f64("v");
    vp_assume((v > -100.) & (v < 100.));
    prefactor<double>(v, v == 1., v == -1.);
}
HARNESS(tuples)
{
    const uint64_t a = vp_u64("a"), c = vp_u64("c");
    const double b = vp_f64("b");
    const std::string d = symbol(2, "d");
    print_tuple(out(), std::make_tuple(a, b, c, d));
    ref() << '(' << a << ',' << b << ',' << c << ',' << d << ')';
    print_tuple(out(), std::make_tuple(d, a), "; ", "<", ">");
    ref() << '<' << d << "; " << a << '>';
    print_tuple(out(), std::make_tuple(c));
    ref() << '(' << c << ')';
    print_tuple(out(), std::make_tuple(c, a, c), d, d, d);
    ref() << d << c << d << a << d << c << d;
    same("all elements of a tuple in their order");
}
HARNESS(indices)
{
    const std::string s = symbol(2, "s");
    out() << symbolic::SpaceIndex(3) << symbolic::MomentumIndex(-2) << symbolic::SpinIndex(12) << symbolic::SpaceIndex() << symbolic::MomentumIndex()
          << symbolic::SpinIndex() << symbolic::SpaceIndex(s);
    ref() << "r_3k_-2\xcf\x83_12rk\xcf\x83" << s;
    same("symbolic indices");
}
HARNESS(index_equality)
{
    // two symbolic indices are equal exactly if they are printed alike
    const std::string s = symbol(2, "s"), t = symbol(2, "t");
    const symbolic::SpaceIndex a(s), b(t);
    vp_assert(((s[0] == t[0]) & (s[1] == t[1])) == (a == b), "equal indices are printed alike");
    vp_assert((a == b) != (a != b), "unequal is not equal");
    const symbolic::MomentumIndex k(s), l(std::string(1, s[0]));
    vp_assert(!(k == l) && k != l, "indices of different lengths differ");
    std::string u(20, 'x'), w(20, 'x');
    u[9]  = s[0];
    u[19] = s[1];
    w[9]  = t[0];
    w[19] = t[1];
    vp_assert((symbolic::SpinIndex(u) == symbolic::SpinIndex(w)) == ((s[0] == t[0]) & (s[1] == t[1])), "long texts");
    vp_assert((symbolic::SpaceIndex(u) != symbolic::SpaceIndex(w)) == !((s[0] == t[0]) & (s[1] == t[1])), "long texts");
    vp_assert(symbolic::SpinIndex(4) == symbolic::SpinIndex(4) && symbolic::SpinIndex(4) != symbolic::SpinIndex(5), "numbered indices");
    vp_assert(symbolic::SpaceIndex() == symbolic::SpaceIndex("r") && symbolic::SpaceIndex() != symbolic::SpaceIndex(0), "unnumbered indices");
    vp_reach("end");
}
