// C04, C30: terms: product, conjugation, collection of equal strings, conserved charges.
#include "ops.h"

#include "ieompp/algebra/operator/operator.hpp"
#include "ieompp/algebra/term/checks.hpp"
#include "ieompp/algebra/term/list.hpp"
#include "ieompp/algebra/term/term.hpp"

#include <vector>

using namespace ieompp::algebra;
using Op    = Operator<uint64_t, bool>;
using RTerm = Term<double, Op>;
using CTerm = Term<std::complex<double>, Op>;
using C     = std::complex<double>;

template <typename T>
static void is_product(const T& p, const RawString& a, const RawString& b, const char* what)
{
    vp_assert(p.operators.size() == a.n + b.n, what);
    for(uint64_t k = 0; k < a.n; ++k) {
        vp_assert(op_is(p.operators[k], a.o[k]), what);
    }
    for(uint64_t k = 0; k < b.n; ++k) {
        vp_assert(op_is(p.operators[a.n + k], b.o[k]), what);
    }
}

HARNESS(real_product)
{
    const RawString ra = raw_string(0, vp_arg(0)), rb = raw_string(1, vp_arg(1));
    const double x = vp_f64("ap"), y = vp_f64("bp");
    const RTerm a = build_term<RTerm>(ra, x), b = build_term<RTerm>(rb, y);
    const RTerm p = a * b;
    is_product(p, ra, rb, "operator* concatenates");
    vp_assert_eq_f64(p.prefactor, x * y, "operator* multiplies prefactors");
    vp_assert(string_is(a.operators, ra) & string_is(b.operators, rb), "operator* leaves the operands alone");
    vp_assert_eq_f64(a.prefactor, x, "operator* leaves the prefactor alone");
    RTerm q(a);
    RTerm& ret = (q *= b);
    vp_assert(&ret == &q, "operator*= returns the left operand");
    is_product(q, ra, rb, "operator*= concatenates");
    vp_assert_eq_f64(q.prefactor, x * y, "operator*= multiplies prefactors");
    vp_assert(string_is(b.operators, rb), "operator*= leaves the right operand alone");
    vp_assert(a.have_same_operators(b) == raw_same(ra, rb), "have_same_operators iff the strings are equal");
    vp_assert(b.have_same_operators(a) == raw_same(ra, rb), "have_same_operators symmetric");
    q = a;
    q *= q;
    is_product(q, ra, ra, "a *= a");
    vp_assert_eq_f64(q.prefactor, x * x, "a *= a squares the prefactor");
    vp_observe_u64("n", p.operators.size());
    vp_reach("end");
}

HARNESS(complex_product)
{
    const RawString ra = raw_string(0, vp_arg(0)), rb = raw_string(1, vp_arg(1));
    const double xr = vp_f64("ap"), xi = vp_f64("aq"), yr = vp_f64("bp"), yi = vp_f64("bq");
    const CTerm a = build_term<CTerm>(ra, C(xr, xi)), b = build_term<CTerm>(rb, C(yr, yi));
    const CTerm p = a * b;
    is_product(p, ra, rb, "operator* concatenates");
    vp_assert_eq_f64(p.prefactor.real(), xr * yr - xi * yi, "real part of the product");
    vp_assert_eq_f64(p.prefactor.imag(), xr * yi + xi * yr, "imaginary part of the product");
    CTerm q(a);
    q *= b;
    is_product(q, ra, rb, "operator*= concatenates");
    vp_assert_eq_f64(q.prefactor.real(), xr * yr - xi * yi, "real part of *=");
    vp_assert_eq_f64(q.prefactor.imag(), xr * yi + xi * yr, "imaginary part of *=");
    // (ab)^+ = b^+ a^+
    const CTerm l = p.get_conjugate(), r = b.get_conjugate() * a.get_conjugate();
    vp_assert(l.have_same_operators(r), "(ab)^+ = b^+ a^+");
    vp_assert_eq_f64(l.prefactor.real(), r.prefactor.real(), "(ab)^+ prefactor");
    vp_assert_eq_f64(l.prefactor.imag(), r.prefactor.imag(), "(ab)^+ prefactor");
    vp_observe_u64("n", p.operators.size());
    vp_reach("end");
}

template <typename T>
static void conjugation(const T& a, const RawString& ra)
{
    const T d = a.get_conjugate();
    T e(a);
    e.conjugate();
    for(const T* t : {&d, const_cast<const T*>(&e)}) {
        vp_assert(t->operators.size() == ra.n, "conjugate keeps the length");
        for(uint64_t k = 0; k < ra.n; ++k) {
            vp_assert(op_is(t->operators[k], ra.o[ra.n - 1 - k], true), "conjugate reverses and conjugates");
        }
    }
    e.conjugate();
    vp_assert(string_is(e.operators, ra), "double conjugation");
    vp_assert(string_is(d.get_conjugate().operators, ra), "double conjugation");
    vp_assert(string_is(a.operators, ra), "get_conjugate leaves the original alone");
    vp_reach("end");
}
HARNESS(real_conjugate)
{
    const RawString ra = raw_string(0, vp_arg(0));
    const double x     = vp_f64("ap");
    RTerm a            = build_term<RTerm>(ra, x);
    conjugation(a, ra);
    vp_assert_eq_f64(a.get_conjugate().prefactor, x, "conjugate of a real prefactor");
    a.conjugate();
    vp_assert_eq_f64(a.prefactor, x, "conjugate of a real prefactor in place");
    vp_observe_u64("n", a.operators.size());
}
HARNESS(complex_conjugate)
{
    const RawString ra = raw_string(0, vp_arg(0));
    const double x = vp_f64("ap"), y = vp_f64("aq");
    CTerm a = build_term<CTerm>(ra, C(x, y));
    conjugation(a, ra);
    const CTerm d = a.get_conjugate();
    vp_assert_eq_f64(d.prefactor.real(), x, "conjugate prefactor");
    vp_assert_eq_f64(d.prefactor.imag(), -y, "conjugate prefactor");
    a.conjugate();
    vp_assert_eq_f64(a.prefactor.real(), x, "conjugate prefactor in place");
    vp_assert_eq_f64(a.prefactor.imag(), -y, "conjugate prefactor in place");
    vp_observe_u64("n", a.operators.size());
}

// args: number of terms, then the length of each string
static void collection(const std::vector<RawString>& r)
{
    const uint64_t n = r.size();
    std::vector<double> p;
    std::vector<RTerm> list;
    list.reserve(8);
    for(uint64_t k = 0; k < n; ++k) {
        p.push_back(vp_f64(vp_numbered("p", k)));
        list.push_back(build_term<RTerm>(r[k], p[k]));
    }
    std::vector<RTerm> result;
    result.reserve(8);
    copy_as_unique_terms(list, result);
    vp_assert(result.size() <= n, "collection does not add terms");
    vp_assert((n == 0) == result.empty(), "collection is empty only for an empty list");
    for(uint64_t a = 0; a < result.size(); ++a) {
        for(uint64_t b = 0; b < a; ++b) {
            bool same = result[a].operators.size() == result[b].operators.size();
            if(same) {
                for(uint64_t k = 0; k < result[a].operators.size(); ++k) {
                    same &= result[a].operators[k] == result[b].operators[k];
                }
            }
            vp_assert(!same, "collected strings are pairwise distinct");
        }
        double sum = 0;
        bool known = false;
        for(uint64_t k = 0; k < n; ++k) {
            const bool m = string_is(result[a].operators, r[k]);
            known        = known | m;
            sum += vp_select_f64(m, p[k], 0.);
        }
        vp_assert(known, "every collected string occurs in the list");
        vp_assert_eq_f64(result[a].prefactor, sum, "prefactor is the sum over equal strings");
    }
    for(uint64_t k = 0; k < n; ++k) {
        bool found = false;
        for(uint64_t a = 0; a < result.size(); ++a) {
            found = found | string_is(result[a].operators, r[k]);
        }
        vp_assert(found, "every string of the list is collected");
        vp_assert(string_is(list[k].operators, r[k]), "the list is left alone");
        vp_assert_eq_f64(list[k].prefactor, p[k], "the list is left alone");
    }
    vp_observe_u64("n", result.size());
    vp_reach("end");
}

HARNESS(collect)
{
    const uint64_t n = vp_arg(0);
    std::vector<RawString> r;
    for(uint64_t k = 0; k < n; ++k) r.push_back(raw_string(k, vp_arg(k + 1)));
    collection(r);
}
// args: number of terms, number of different fixed strings, position of the term with an arbitrary string, its length
HARNESS(large_collect)
{
    const uint64_t n = vp_arg(0), kinds = vp_arg(1);
    std::vector<RawString> r;
    for(uint64_t k = 0; k < n; ++k) {
        if(k == vp_arg(2)) {
            r.push_back(raw_string(0, vp_arg(3)));
            continue;
        }
        const uint64_t kind = 7 * k % kinds;
        RawString s;
        s.n = kind % 4;
        for(uint64_t j = 0; j < s.n; ++j) s.o[j] = RawOp{(kind >> j & 1) != 0, kind / 4 + j, (kind + j) % 3 == 0};
        r.push_back(s);
    }
    collection(r);
}

// C30
HARNESS(charges)
{
    const RawString ra = raw_string(0, vp_arg(0)), rb = raw_string(1, vp_arg(1));
    const RTerm a = build_term<RTerm>(ra, 1.), b = build_term<RTerm>(rb, 1.);
    uint64_t created = 0, annihilated = 0, up = 0, down = 0;
    for(uint64_t k = 0; k < ra.n; ++k) {
        created += vp_select_u64(ra.o[k].c, 1, 0);
        annihilated += vp_select_u64(ra.o[k].c, 0, 1);
        up += vp_select_u64(ra.o[k].c == ra.o[k].s, 1, 0);
        down += vp_select_u64(ra.o[k].c == ra.o[k].s, 0, 1);
    }
    vp_assert(int64_t(total_creations(a)) == int64_t(created - annihilated), "total_creations counts creators minus annihilators");
    vp_assert(int64_t(total_spin<1>(a)) == int64_t(up - down), "total_spin adds created and subtracts annihilated spins");
    vp_assert(IsTerm<RTerm>::value & !IsTerm<double>::value & !IsTerm<RTerm::Operator>::value, "terms are recognised as such");
    vp_assert(total_creations(a * b) == total_creations(a) + total_creations(b), "total_creations is additive");
    vp_assert(total_spin<1>(a * b) == total_spin<1>(a) + total_spin<1>(b), "total_spin is additive");
    vp_assert(total_creations(a.get_conjugate()) == -total_creations(a), "conjugation reverses total_creations");
    vp_assert(total_spin<1>(a.get_conjugate()) == -total_spin<1>(a), "conjugation reverses total_spin");
    vp_observe_u64("c", uint64_t(int64_t(total_creations(a))));
    vp_observe_u64("s", uint64_t(int64_t(total_spin<1>(a))));
    vp_reach("end");
}
