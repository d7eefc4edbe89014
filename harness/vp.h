// Interface between the harnesses and (a) the symbolic executor, (b) the native replay runtime.
#ifndef VP_H_
#define VP_H_
// the standard headers that the code under test may rely on through others
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <deque>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iosfwd>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <ostream>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

extern "C" {
uint64_t vp_u64(const char* name);   // arbitrary 64-bit value
uint8_t vp_u8(const char* name);     // arbitrary byte
bool vp_bool(const char* name);      // arbitrary truth value
double vp_f64(const char* name);     // arbitrary real / double (see --fp)
// arbitrary integer in [lo, hi], case split immediately
uint64_t vp_choose(const char* name, uint64_t lo, uint64_t hi);
uint64_t vp_conc(uint64_t v);        // case split on the value of v
void vp_assume(bool c);
void vp_assert(bool c, const char* what);
void vp_assert_eq_f64(double a, double b, const char* what);
uint64_t vp_select_u64(bool c, uint64_t a, uint64_t b);  // c ? a : b without a case split
double vp_select_f64(bool c, double a, double b);
bool vp_select_bool(bool c, bool a, bool b);
uint64_t vp_arg(uint64_t i);         // parameter of this run of the harness
void vp_opt(const char* name, uint64_t v);
void vp_reach(const char* what);
void vp_observe_u64(const char* name, uint64_t v);
void vp_observe_f64(const char* name, double v);
void vp_stop();
std::ostream* vp_stream(uint64_t id);
void vp_assert_same_output(uint64_t a, uint64_t b, const char* what);
}

#define HARNESS(name) extern "C" __attribute__((used, noinline)) void name()

// the name of the k-th of several inputs (k below 100), valid until 16 others were made
inline const char* vp_numbered(const char* prefix, uint64_t k, const char* suffix = "")
{
    static char names[16][16];
    static unsigned next = 0;
    char* const s        = names[next];
    next                 = (next + 1) % 16;
    unsigned n           = 0;
    while(*prefix && n < 8) s[n++] = *prefix++;
    if(k > 9) s[n++] = char('0' + k / 10 % 10);
    s[n++] = char('0' + k % 10);
    while(*suffix && n < 14) s[n++] = *suffix++;
    s[n] = 0;
    return s;
}
inline uint64_t vp_below(const char* name, uint64_t n)
{
    uint64_t v = vp_u64(name);
    vp_assume(v < n);
    return v;
}
#define VP_NOINLINE __attribute__((noinline))
#endif
