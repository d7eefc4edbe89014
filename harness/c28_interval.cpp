// C28: measurements are due once the number of steps since the last one reaches the interval.
#include "vp.h"
#include <algorithm>
#include <cassert>
#include <cmath>
#include <complex>
#include <fstream>
#include <initializer_list>
#include <limits>
#include <map>
#include <string>
#include <type_traits>
#include <vector>

// the headers of the application around the function under test (command line, logging and checkpoint files) are left out
#define SRC_HUBBARD_APPLICATION_HPP_
#define SRC_HUBBARD_CHECKOINT_HPP_
#define SRC_HUBBARD_LOGGING_HPP_
#define SRC_HUBBARD_CLI_HPP_
#define _GLIBCXX_REGEX 1
#include "ieompp/types/blaze.hpp"
namespace std
{
    struct smatch {
    };
    struct regex {
        regex(const std::string&) {}
    };
}
namespace blaze
{
    template <typename T>
    struct Archive {
        Archive(T&) {}
        template <typename M>
        void operator<<(const M&)
        {
        }
    };
}
struct Value {
    template <typename T>
    T as() const
    {
        return T();
    }
};
struct Application {
    std::map<std::string, Value> variables;
    std::string checkpoint_prefix, output_path;
};
struct Logger {
    template <typename... Ts>
    void info(Ts&&...)
    {
    }
};
struct Loggers {
    Logger *main, *io, *ode;
};
Loggers& get_loggers();
template <typename T, typename V>
void read_checkpoint_file(const T&, V&)
{
}
void clean_output_file(const std::string&, uint64_t);
#include "include/common.hpp"
Loggers& get_loggers()
{
    static Loggers l;
    return l;
}
void clean_output_file(const std::string&, uint64_t) {}

static const double DT[] = {1., 0.01, 0.1, 0.3, 1. / 3., 1e-3, 2.5};
// any time that is n steps after the last measurement, up to accumulated rounding errors
HARNESS(steps)
{
    const uint64_t n  = vp_arg(0);
    const double dt   = DT[vp_arg(1)];
    const double last = vp_f64("last"), off = vp_f64("off");
    vp_assume((last >= 0.) & (last <= 1000000.) & (off >= -0.375) & (off <= 0.375));
    const double t = last + (double(n) + off) * dt; // each operation with any rounding error
    const uint64_t interval = vp_u64("interval");
    const bool r            = has_time_interval_passed(t, last, dt, interval);
    vp_assert(r == ((t > last) & (n >= interval)), "due exactly if time has passed and at least as many steps as the interval");
    if(n != 0) vp_observe_u64("r", r); // for n = 0 a rounding error decides whether time has passed at all
    vp_reach("end");
}
HARNESS(any_step_size)
{
    const uint64_t n = vp_arg(0);
    const double last = vp_f64("last"), off = vp_f64("off"), dt = vp_f64("dt");
    vp_assume((last >= 0.) & (last <= 1000000.) & (dt > 0.0001) & (dt < 100.) & (off >= -0.4) & (off <= 0.4));
    const double t = last + (double(n) + off) * dt;
    const uint64_t interval = vp_u64("interval");
    vp_assert(has_time_interval_passed(t, last, dt, interval) == ((t > last) & (n >= interval)),
              "due exactly if time has passed and at least as many steps as the interval");
    vp_reach("end");
}
// time never runs backwards, so nothing is due at or before the last measurement
HARNESS(not_before)
{
    const double last = vp_f64("last"), t = vp_f64("t"), dt = vp_f64("dt");
    vp_assume((last >= 0.) & (last <= 1000000.) & (dt > 0.0001) & (dt < 100.) & (t >= 0.) & (t <= last));
    vp_assert(!has_time_interval_passed(t, last, dt, vp_u64("interval")), "nothing is due at the time of the last measurement");
    vp_reach("end");
}
// the loop of the applications: accumulated time, measured every k steps
HARNESS(loop)
{
    const uint64_t n = vp_arg(0), k = vp_arg(1);
    const double dt = DT[vp_arg(2)];
    double t = 0., last = 0.;
    uint64_t since = 0, fired = 0;
    const bool extra = vp_bool("extra");
    for(uint64_t s = 0; s < n; ++s) {
        t += dt;
        ++since;
        const bool due = has_time_interval_passed(t, last, dt, k);
        vp_assert(due == (since >= k), "measured every k-th step");
        if(due) {
            last  = t;
            since = 0;
            ++fired;
        }
    }
    vp_assert(fired == (k == 0 ? n : n / k), "as often as the interval fits");
    (void)extra;
    vp_observe_u64("fired", fired);
    vp_reach("end");
}
