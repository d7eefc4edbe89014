// Native runtime of the harness interface: replays one assignment against the really compiled code.
//   prog ENTRY [--args=a,b,...] [--in=FILE]
// exit: 0 all assertions hold, 10 an assertion failed, 20 an assumption failed, 21 missing input
#include "vp.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <sstream>
#include <string>
#include <vector>

static std::map<std::string, std::string> g_in;
static std::map<std::string, int> g_cnt;
static std::vector<uint64_t> g_args;
static std::map<uint64_t, std::ostringstream*> g_streams;
static unsigned g_asserts;
// history: another harness that runs first, on fixed values
static bool g_pre;
static unsigned g_precnt;
static std::vector<uint64_t> g_preargs;
struct PreEnd {
};
static uint64_t prenum(const char* n) { return n[0] == 'N' ? 3 : 1 - (g_precnt++ & 1); }

static std::string lookup(const char* name)
{
    int k         = g_cnt[name]++;
    std::string n = name;
    if(k) n += "#" + std::to_string(k);
    auto it = g_in.find(n);
    if(it == g_in.end()) {
        std::printf("MISSING %s\n", n.c_str());
        std::fflush(stdout);
        _Exit(21);
    }
    return it->second;
}
const char* vp_native_lookup(const char* name)
{
    auto it = g_in.find(name);
    return it == g_in.end() ? nullptr : it->second.c_str();
}

static bool g_throws = false; // an exception or exit() ends the run in good order
extern "C" {
uint64_t vp_u64(const char* n) { return g_pre ? prenum(n) : strtoull(lookup(n).c_str(), nullptr, 10); }
uint8_t vp_u8(const char* n) { return (uint8_t)vp_u64(n); }
bool vp_bool(const char* n) { return g_pre ? prenum(n) & 1 : vp_u64(n) != 0; }
double vp_f64(const char* n) { return g_pre ? 0.5 + 0.0625 * (g_precnt++ & 7) : strtod(lookup(n).c_str(), nullptr); }
uint64_t vp_choose(const char* n, uint64_t lo, uint64_t hi)
{
    if(g_pre) {
        if(lo > hi) throw PreEnd();
        return lo + g_precnt++ % (hi - lo + 1);
    }
    uint64_t v = vp_u64(n);
    vp_assume(v >= lo && v <= hi);
    return v;
}
uint64_t vp_conc(uint64_t v) { return v; }
void vp_assume(bool c)
{
    if(g_pre) {
        if(!c) throw PreEnd();
        return;
    }
    if(!c) {
        std::printf("ASSUMPTION FAILED\n");
        std::fflush(stdout);
        _Exit(20);
    }
}
void vp_assert(bool c, const char* what)
{
    if(g_pre) return;
    ++g_asserts;
    if(!c) {
        std::printf("ASSERTION FAILED: %s\n", what);
        std::fflush(stdout);
        _Exit(10);
    }
}
void vp_assert_eq_f64(double a, double b, const char* what)
{
    if(g_pre) return;
    ++g_asserts;
    double sc = std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b)));
    const char* t = std::getenv("VP_TOLERANCE");
    if(!(a == b || std::fabs(a - b) <= (t ? std::atof(t) : 1e-7) * sc)) {
        std::printf("ASSERTION FAILED: %s (%.17g vs %.17g)\n", what, a, b);
        std::fflush(stdout);
        _Exit(10);
    }
}
uint64_t vp_select_u64(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
double vp_select_f64(bool c, double a, double b) { return c ? a : b; }
bool vp_select_bool(bool c, bool a, bool b) { return c ? a : b; }
uint64_t vp_arg(uint64_t i)
{
    if(g_pre) return i < g_preargs.size() ? g_preargs[i] : 0;
    return i < g_args.size() ? g_args[i] : 0;
}
void vp_opt(const char* n, uint64_t v)
{
    if(std::string(n) == "throws" && v && !g_throws) {
        g_throws = true;
        std::atexit([] { vp_stop(); });
    }
}
void vp_reach(const char*) {}
void vp_observe_u64(const char* n, uint64_t v) { if(!g_pre) std::printf("OBS %s %llu\n", n, (unsigned long long)v); }
void vp_observe_f64(const char* n, double v) { if(!g_pre) std::printf("OBS %s %a\n", n, v); }
void vp_stop()
{
    if(g_pre) throw PreEnd();
    std::printf("DONE %u\n", g_asserts);
    std::fflush(stdout);
    _Exit(0);
}
std::ostream* vp_stream(uint64_t id)
{
    auto& s = g_streams[id];
    if(!s) s = new std::ostringstream();
    return s;
}
void vp_assert_same_output(uint64_t a, uint64_t b, const char* what)
{
    if(g_pre) return;
    std::string x = static_cast<std::ostringstream*>(vp_stream(a))->str(),
                y = static_cast<std::ostringstream*>(vp_stream(b))->str();
    if(g_pre) return;
    ++g_asserts;
    if(x != y) {
        std::printf("ASSERTION FAILED: %s ('%s' vs '%s')\n", what, x.c_str(), y.c_str());
        std::fflush(stdout);
        _Exit(10);
    }
}
}

int main(int argc, char** argv)
{
    std::string entry, in, pre;
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if(a.compare(0, 7, "--args=") == 0) {
            std::stringstream ss(a.substr(7));
            std::string t;
            while(std::getline(ss, t, ',')) g_args.push_back(strtoull(t.c_str(), nullptr, 10));
        } else if(a.compare(0, 6, "--pre=") == 0) {
            std::stringstream ss(a.substr(6));
            std::string t;
            std::getline(ss, pre, ':');
            while(std::getline(ss, t, ',')) g_preargs.push_back(strtoull(t.c_str(), nullptr, 10));
        } else if(a.compare(0, 5, "--in=") == 0)
            in = a.substr(5);
        else
            entry = a;
    }
    if(!in.empty()) {
        FILE* f = std::fopen(in.c_str(), "r");
        if(!f) return 22;
        char n[512], v[512];
        char line[1200];
        while(std::fgets(line, sizeof line, f)) {
            if(line[0] == '#') continue;
            if(std::sscanf(line, "%500s %500s", n, v) == 2) g_in[n] = v;
        }
        std::fclose(f);
    }
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str());
    if(!fn) {
        std::printf("no entry %s\n", entry.c_str());
        return 23;
    }
    if(!pre.empty()) {
        void (*pf)() = (void (*)())dlsym(RTLD_DEFAULT, pre.c_str());
        if(!pf) return 23;
        g_pre = true;
        try {
            pf();
        } catch(PreEnd&) {
        }
        g_pre = false;
        g_streams.clear();
    }
    try {
        fn();
    } catch(...) {
        if(!g_throws) throw;
        vp_stop();
    }
    std::printf("DONE %u\n", g_asserts);
    std::fflush(stdout);
    return 0;
}
