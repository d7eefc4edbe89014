// C35: the programs hubbard_commutators_{real,momentum}_space print the commutators announced by their headings.
#include "vp.h"
#include <algorithm>
#include <array>
#include <cstdint>
#include <iostream>
#include <iterator>
#include <numeric>
#include <ostream>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include "ieompp/algebra/commutator.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/algebra/term.hpp"
#include "ieompp/symbolic/prefactor.hpp"
struct PrintedOp {
    bool creator;
    std::string index1;
    bool index2;
};
struct PrintedTerm {
    struct {
        double value;
        std::vector<std::pair<std::string, std::string>> kroneckers;
    } prefactor;
    std::vector<PrintedOp> operators;
};
// what is printed: text, and the terms as they are
struct Printed {
    std::string before; // all the text before it
    PrintedTerm term;
};
static std::vector<Printed> printed;
static std::string text;
namespace std
{
    struct vp_ostream {
        vp_ostream& operator<<(const char* s)
        {
            text += s;
            return *this;
        }
        vp_ostream& operator<<(const std::string& s)
        {
            text += s;
            return *this;
        }
        vp_ostream& operator<<(char c)
        {
            text.push_back(c);
            return *this;
        }
        template <typename P, typename O>
        vp_ostream& operator<<(const ieompp::algebra::Term<P, O>& t)
        {
            PrintedTerm c;
            c.prefactor.value = t.prefactor.value;
            for(const auto& d : t.prefactor.kroneckers) c.prefactor.kroneckers.push_back({std::string(d.a), std::string(d.b)});
            for(const auto& o : t.operators) c.operators.push_back({o.creator, std::string(o.index1), o.index2});
            printed.push_back(Printed{text, c});
            text += "TERM";
            return *this;
        }
        vp_ostream& operator<<(vp_ostream& (*f)(vp_ostream&)) { return f(*this); }
        vp_ostream& flush() { return *this; }
    };
    inline vp_ostream& vp_endl(vp_ostream& o) { return o << '\n'; }
    inline vp_ostream& vp_flush(vp_ostream& o) { return o; }
    static vp_ostream vp_cout;
}
#define IEOMPP_PLATFORM_HPP_
#define cout vp_cout
#define ostream vp_ostream
#define endl vp_endl
#define flush vp_flush
int main() __asm__("vp_program_main");
#if VP_PROGRAM == 1
#include "hubbard_commutators_real_space.cpp"
#else
#include "hubbard_commutators_momentum_space.cpp"
#endif
#undef cout
#undef ostream
#undef endl
#undef flush

// operators of the expected terms: creator?, symbol, spin
struct O {
    bool creator;
    const char* symbol;
    bool spin;
};
typedef std::vector<O> String;
static const bool up = true, down = false;
static std::vector<String> hopping, interaction;
static String one, three;
#if VP_PROGRAM == 1
static const char* const symbols[] = {"r_i", u8"r_i+δ_j", u8"ρ", u8"ρ_1", u8"ρ_2", u8"ρ_3"};
static const int n_symbols         = 6;
static void setup()
{
    const char *r = symbols[0], *d = symbols[1];
    hopping     = {{{true, r, up}, {false, d, up}}, {{true, d, up}, {false, r, up}}, {{true, r, down}, {false, d, down}}, {{true, d, down}, {false, r, down}}};
    interaction = {{{true, r, up}, {false, r, up}, {true, r, down}, {false, r, down}}};
    one         = {{true, symbols[2], up}};
    three       = {{true, symbols[3], up}, {true, symbols[4], down}, {false, symbols[5], down}};
}
#else
static const char* const symbols[] = {"k", "k_1", "k_2", "k_3", "k_4", "q", "q_1", "q_2", "q_3"};
static const int n_symbols         = 9;
static void setup()
{
    hopping     = {{{true, "k", up}, {false, "k", up}}, {{true, "k", down}, {false, "k", down}}};
    interaction = {{{true, "k_1", up}, {false, "k_2", up}, {true, "k_3", down}, {false, "k_4", down}}};
    one         = {{true, "q", up}};
    three       = {{true, "q_1", up}, {true, "q_2", down}, {false, "q_3", down}};
}
#endif
static uint64_t site[9];
static uint64_t site_of(const std::string& s)
{
    for(int k = 0; k < n_symbols; ++k)
        if(s == symbols[k]) return site[k];
    vp_assert(false, "only symbols of the Hamiltonian and of the operators occur");
    return 0;
}
struct Fock {
    uint64_t state;
    bool zero, minus;
};
static bool parity(uint64_t x)
{
    x ^= x >> 4;
    x ^= x >> 2;
    x ^= x >> 1;
    return x & 1;
}
static void apply(Fock& f, bool creator, uint64_t mode)
{
    const uint64_t bit = uint64_t(1) << mode;
    const bool occ     = ((f.state >> mode) & 1) != 0;
    f.zero             = f.zero | (occ == creator);
    f.minus            = f.minus ^ parity(f.state & (bit - 1));
    f.state ^= bit;
}
static uint64_t state, target;
static int64_t element(const Fock& f)
{
    return int64_t(vp_select_u64(f.zero | (f.state != target), 0, vp_select_u64(f.minus, uint64_t(-1), 1)));
}
static int64_t element(const String& a, const String& b)
{
    Fock f{state, false, false};
    for(size_t k = b.size(); k-- > 0;) apply(f, b[k].creator, 2 * site_of(b[k].symbol) + b[k].spin);
    for(size_t k = a.size(); k-- > 0;) apply(f, a[k].creator, 2 * site_of(a[k].symbol) + a[k].spin);
    return element(f);
}
static int64_t element(const PrintedTerm& t)
{
    Fock f{state, false, false};
    for(size_t k = t.operators.size(); k-- > 0;) apply(f, t.operators[k].creator, 2 * site_of(t.operators[k].index1) + uint64_t(t.operators[k].index2));
    for(const auto& d : t.prefactor.kroneckers) f.zero = f.zero | (site_of(d.first) != site_of(d.second));
    const int64_t factor = int64_t(t.prefactor.value);
    vp_assert(double(factor) == t.prefactor.value, "factors of the terms are integers");
    return factor * element(f);
}
static size_t last(const std::string& s, const char* what)
{
    const size_t p = s.rfind(what);
    return p == std::string::npos ? 0 : p + 1;
}
// the printed term is the expected one (announcements)
static bool announces(const PrintedTerm& t, const String& s)
{
    bool same = t.operators.size() == s.size() && t.prefactor.value == 1. && t.prefactor.kroneckers.empty();
    for(size_t k = 0; same && k < s.size(); ++k)
        same = t.operators[k].creator == s[k].creator && t.operators[k].index1 == s[k].symbol && t.operators[k].index2 == s[k].spin;
    return same;
}
HARNESS(program)
{
    static const char* const nm[] = {"s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8"};
    const uint64_t sites          = vp_arg(0);
    for(int k = 0; k < n_symbols; ++k) site[k] = vp_below(nm[k], sites);
    state  = vp_u64("state");
    target = vp_u64("target");
    vp_assume((state < (uint64_t(1) << (2 * sites))) & (target < (uint64_t(1) << (2 * sites))));
    setup();
    printed.clear();
    text.clear();
    vp_assert(main() == 0, "success");
    // [part of the Hamiltonian][operators]
    int64_t sum[2][2] = {{0, 0}, {0, 0}};
    size_t announced[2] = {0, 0}, announced_for[2][2] = {{0, 0}, {0, 0}};
    (void)announced_for;
#if VP_PROGRAM == 1
    for(const auto& p : printed) {
        const size_t h = last(p.before, "Hamiltonian"), o = last(p.before, "One operator"), t = last(p.before, "Three operators");
        const bool inter = last(p.before, "Interaction") > last(p.before, "Kinetic");
        if(h > o && h > t) {
            const auto& want = inter ? interaction : hopping;
            size_t found     = 0;
            for(const auto& s : want) found += announces(p.term, s);
            vp_assert(found == 1, "terms of the Hamiltonian");
            ++announced[inter];
        } else {
            vp_assert(o > 0 || t > 0, "terms are printed below a heading");
            sum[inter][t > o] += element(p.term);
        }
    }
    vp_assert(announced[0] == hopping.size() && announced[1] == interaction.size(), "all the terms of the Hamiltonian");
    for(const char* heading : {"One operator", "Three operators"}) vp_assert(last(text, heading) > 0, "headings");
#else
    int of = 0, inter = 0; // which commutator
    size_t sections = 0, start = 0;
    for(const auto& p : printed) {
        const size_t open = last(p.before, "["), close = last(p.before, "]");
        vp_assert(open > 0, "terms are printed behind an announcement");
        if(open > close) { // announcement
            if(open != start) ++sections, start = open;
            if(last(p.before, ",") > open) {
                of = announces(p.term, three);
                vp_assert(of || announces(p.term, one), "operators of the commutator");
                ++announced_for[inter][of];
                vp_assert(announced[inter] == (inter ? interaction : hopping).size(), "all the terms of the Hamiltonian");
                announced[inter] = 0;
            } else {
                inter        = p.term.operators.size() == 4;
                size_t found = 0;
                for(const auto& s : inter ? interaction : hopping) found += announces(p.term, s);
                vp_assert(found == 1, "terms of the Hamiltonian");
                ++announced[inter];
            }
        } else {
            sum[inter][of] += element(p.term);
        }
    }
    for(int i = 0; i < 2; ++i)
        for(int j = 0; j < 2; ++j) vp_assert(announced_for[i][j] == 1, "four commutators");
    vp_assert(sections == 4, "four announcements");
#endif
    for(int i = 0; i < 2; ++i) {
        for(int j = 0; j < 2; ++j) {
            const String& a = j ? three : one;
            int64_t want    = 0;
            for(const auto& h : i ? interaction : hopping) want += element(h, a) - element(a, h);
            vp_assert(sum[i][j] == want, i ? (j ? "[interaction, three operators]" : "[interaction, one operator]") : (j ? "[hopping, three operators]" : "[hopping, one operator]"));
        }
    }
    vp_observe_u64("terms", printed.size());
    vp_reach("end");
}
