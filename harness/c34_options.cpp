// C34: options reach the computation, are recorded, and are reproduced by response files.
#include "vp.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <string>
#include <utility>
#include <vector>
#include "mini_files.h"
#include "mini_regex.h"
#include "mini_options.h"
#include "ieompp/openmp.hpp"
#include "ieompp/string.hpp"
#include "ieompp/version.hpp"
#include <boost/predef.h>
#include <boost/version.hpp>
#include <unistd.h>
// environment
static bool has_logname;
static char* vp_getenv(const char*)
{
    static char name[] = "user";
    return has_logname ? name : nullptr;
}
static int vp_gethostname(char* s, size_t n)
{
    if(n > 4) std::strcpy(s, "host");
    return 0;
}
namespace std
{
static vp_ostream vp_cout;
inline char* vp_getenv(const char* n) { return ::vp_getenv(n); }
}
#define getenv vp_getenv
#define gethostname vp_gethostname
#define ostream vp_ostream
#define ifstream vp_ifstream
#define ofstream vp_ofstream
#define cout vp_cout
#define cerr vp_cout
#include "ieompp/platform.hpp"
// paths, logging and the timer
#define BOOST_FILESYSTEM_CONVENIENCE_HPP
#define BOOST_FILESYSTEM_OPERATIONS_HPP
#define BOOST_FILESYSTEM_PATH_HPP
namespace boost
{
    namespace filesystem
    {
        struct path {
            std::string s;
            path() {}
            path(const std::string& x) : s(x) {}
            path(const char* x) : s(x) {}
            const std::string& string() const { return s; }
            const std::string& native() const { return s; }
            const char* c_str() const { return s.c_str(); }
            path& replace_extension(const path& e)
            {
                size_t k = s.size();
                while(k > 0 && s[k - 1] != '.' && s[k - 1] != '/') --k;
                if(k > 1 && s[k - 1] == '.' && s[k - 2] != '/') s.resize(k - 1);
                if(!e.s.empty() && e.s[0] != '.') s += '.';
                s += e.s;
                return *this;
            }
            path filename() const
            {
                size_t k = s.size();
                while(k > 0 && s[k - 1] != '/') --k;
                return path(s.substr(k));
            }
            path parent_path() const
            {
                size_t k = s.size();
                while(k > 0 && s[k - 1] != '/') --k;
                return path(s.substr(0, k > 1 ? k - 1 : k));
            }
            path stem() const { return filename().replace_extension(path()); }
            path extension() const { return path(filename().s.substr(stem().s.size())); }
            bool has_extension() const { return !extension().s.empty(); }
            bool empty() const { return s.empty(); }
            path& operator+=(const std::string& x)
            {
                s += x;
                return *this;
            }
            path& operator/=(const path& x)
            {
                if(!s.empty() && s.back() != '/') s += '/';
                s += x.s;
                return *this;
            }
        };
        inline path operator/(path a, const path& b) { return a /= b; }
        inline path change_extension(path p, const path& e) { return p.replace_extension(e); }
        inline bool exists(const path& p) { return find_file(p.s) != nullptr; }
    }
    namespace program_options
    {
        inline std::vp_ostream& operator<<(std::vp_ostream& o, const options_description&) { return o; }
    }
}
namespace ieompp
{
    inline std::string blaze_version() { return "3.8"; }
}
#define SRC_HUBBARD_LOGGING_HPP_
#define SRC_HUBBARD_APPLICATION_TIMER_HPP_
struct ApplicationTimer {
};
struct Logger {
    template <typename... Ts>
    void info(Ts&&...)
    {
    }
    template <typename... Ts>
    void warn(Ts&&...)
    {
    }
    template <typename... Ts>
    void error(Ts&&...)
    {
    }
};
struct Loggers { // there are no loggers before the initialisation
    Logger *main = nullptr, *io = nullptr, *ode = nullptr;
    std::string path;
    void init(const std::string& p)
    {
        path = p;
        main = new Logger();
        io   = new Logger();
        ode  = new Logger();
    }
};
inline Loggers& get_loggers()
{
    static Loggers l;
    return l;
}
#include "include/application.hpp"
#undef getenv
#undef gethostname
#undef ostream
#undef ifstream
#undef ofstream
#undef cout
#undef cerr

static const char* const option_names[]    = {"N", "J", "dt", "Nx", "out"};
static const char* const option_defaults[] = {"16", "1", "0.01", "100", "program.txt"};
static const int OPTIONS                   = 5;
static void declare()
{
    has_logname              = vp_bool("LOGNAME");
    Application::name        = "program";
    Application::description = "description";
    Application::options_description = OptionsDescription();
    Application::add_default_options();
    Application::options_description.add_options()("N", make_value<uint64_t>(16), "number of lattice sites")("J", make_value<double>(1.), "hopping")(
        "dt", make_value<double>(0.01), "step width")("Nx", make_value<uint64_t>()->default_value(100), "sites in a direction, the name starts like another one");
    get_loggers() = Loggers();
    files().clear();
}
// a value: two arbitrary digits, or a name of two arbitrary characters
static std::string value_text(char from, int option)
{
    static char nm[2][OPTIONS][2][4];
    std::string r;
    for(int k = 0; k < 2; ++k) {
        char* n = nm[from == 'c'][option][k];
        n[0]    = from;
        n[1]    = char('0' + option);
        n[2]    = char('0' + k);
        n[3]    = 0;
        const uint8_t c = vp_u8(n);
        if(option < 4) {
            vp_assume((c >= '0') & (c <= '9'));
        } else {
            vp_assume((c > ' ') & (c != '=') & (c != ':') & (c != '/') & ((k > 0) | (c != '-')));
        }
        r.push_back(char(c));
    }
    return option < 4 ? r : r + ".txt";
}
static void same_text(const std::string& a, const std::string& b, const char* what)
{
    vp_assert(a.size() == b.size(), what);
    bool same = true;
    for(size_t i = 0; i < a.size(); ++i) same = same & (a[i] == b[i]);
    vp_assert(same, what);
}
static void check_variables(const VariablesMap& v, const std::string* want)
{
    uint64_t n, nx;
    double j, dt;
    boost::program_options::value_of(want[0], n);
    boost::program_options::value_of(want[1], j);
    boost::program_options::value_of(want[2], dt);
    boost::program_options::value_of(want[3], nx);
    for(int k = 0; k < OPTIONS; ++k) vp_assert(v.count(option_names[k]) == 1, "every option has a value");
    vp_assert(v["N"].as<uint64_t>() == n, "N");
    vp_assert_eq_f64(v["J"].as<double>(), j, "J");
    vp_assert_eq_f64(v["dt"].as<double>(), dt, "dt");
    vp_assert(v["Nx"].as<uint64_t>() == nx, "Nx");
    same_text(v["out"].as<std::string>(), want[4], "out");
}
// the options recorded in a text: lines that consist of mark, name, separators, value
static void check_record(const std::string& text, const std::string& mark, const std::string* want, const char* what)
{
    for(int k = 0; k < OPTIONS; ++k) {
        const std::string name = option_names[k];
        size_t found           = 0;
        for(size_t from = 0; from < text.size();) {
            size_t to = text.find('\n', from);
            if(to == std::string::npos) to = text.size();
            size_t i = from;
            for(const size_t m = mark.size(); i < to && i - from < m && text[i] == mark[i - from];) ++i;
            const bool marked = i - from == mark.size();
            while(i < to && (text[i] == ' ' || text[i] == '\t')) ++i;
            if(marked && to - i > name.size() && text.compare(i, name.size(), name) == 0) {
                i += name.size();
                if(text[i] == ' ' || text[i] == '\t' || text[i] == '=' || text[i] == ':') {
                    size_t separators = 0;
                    while(i < to && separators < 4 && (text[i] == ' ' || text[i] == '\t' || ((text[i] == '=' || text[i] == ':') && separators == 0))) {
                        if(text[i] == '=' || text[i] == ':') separators = text[i + 1] == ' ' ? 3 : 4;
                        else if(separators == 3) separators = 4;
                        ++i;
                    }
                    same_text(text.substr(i, to - i), want[k], what);
                    ++found;
                }
            }
            from = to + 1;
        }
        vp_assert(found == 1, what);
    }
}
static void check_files(const Application& app, const std::string* want)
{
    const std::string stem = want[4].substr(0, want[4].size() - 4);
    same_text(app.output_path, want[4], "output path");
    same_text(app.response_path, stem + ".rsp", "path of the response file");
    same_text(app.log_path, stem + ".log", "path of the log");
    same_text(get_loggers().path, app.log_path, "log");
    same_text(app.matrix_path, stem + "_matrix.blaze", "path of the matrix");
    same_text(app.checkpoint_prefix, stem + "_checkpoint_", "checkpoints");
    const File* out = find_file(app.output_path);
    vp_assert(out != nullptr, "the output file exists");
    if(!out) return;
    bool start = true;
    for(char c : out->text) {
        if(start) vp_assert(c == '#', "the header consists of comments");
        start = c == '\n';
    }
    vp_assert(start, "the header ends with its line");
    check_record(out->text, "#", want, "the header records the options");
}
struct CommandLine {
    std::vector<std::string> tokens;
    std::vector<char*> argv;
    void add(const std::string& s) { tokens.push_back(s); }
    int argc() const { return int(tokens.size()) + 1; }
    char** get()
    {
        static char program[] = "program";
        argv.clear();
        argv.push_back(program);
        for(auto& t : tokens) argv.push_back(&t[0]);
        argv.push_back(nullptr);
        return argv.data();
    }
    void option(const std::string& name, const std::string& value, uint64_t form)
    {
        if(form == 1) {
            add("--" + name + "=" + value);
        } else {
            add("--" + name);
            add(value);
        }
    }
};
// two options (arguments), each of them given in every way
HARNESS(options)
{
    vp_opt("i2f_opaque", 1);
    declare();
    static const char* const cn[] = {"command0", "command1"};
    static const char* const rn[] = {"response0", "response1"};
    std::string want[OPTIONS];
    for(int k = 0; k < OPTIONS; ++k) want[k] = option_defaults[k];
    const uint64_t which[2] = {vp_arg(0), vp_arg(1)};
    const bool response     = vp_choose("response", 0, 1) != 0;
    CommandLine line;
    std::string text;
    if(response && vp_choose("first", 0, 1)) line.option("response_file", "in.rsp", 1);
    for(int k = 0; k < 2; ++k) {
        const uint64_t o       = which[k];
        const uint64_t command = vp_choose(cn[k], 0, 2);
        if(response && vp_choose(rn[k], 0, 1)) {
            want[o] = value_text('r', int(o));
            text += "--" + std::string(option_names[o]) + "=" + want[o];
            text += "\n";
        }
        if(command) {
            want[o] = value_text('c', int(o));
            line.option(option_names[o], want[o], command);
        }
    }
    if(response) {
        if(line.tokens.empty() || line.tokens[0] != "--response_file=in.rsp") line.option("response_file", "in.rsp", 2);
        if(!text.empty() && vp_choose("last", 0, 1)) text.pop_back(); // no newline at the end
        files().push_back(File());
        files().back().name = "in.rsp";
        files().back().text = text;
    }
    vp_reach("end");
    Application app(line.argc(), line.get());
    check_variables(app.variables, want);
    check_files(app, want);
    if(!response) {
        const File* f = find_file(app.response_path);
        vp_assert(f != nullptr, "the response file exists");
        if(!f) return;
        check_record(f->text, "--", want, "the response file records the options");
        // a run with this file
        CommandLine again;
        again.option("response_file", app.response_path, 1);
        get_loggers() = Loggers();
        Application second(again.argc(), again.get());
        check_variables(second.variables, want);
        check_files(second, want);
    }
}
// a response file that does not exist: the run ends
HARNESS(missing)
{
    declare();
    CommandLine line;
    line.option("response_file", "missing.rsp", 1 + vp_arg(0));
    vp_opt("throws", 1);
    vp_reach("end");
    Application app(line.argc(), line.get());
    vp_assert(false, "no run without its response file");
}
// nothing is computed or written when help or the version are asked for
HARNESS(help)
{
    declare();
    CommandLine line;
    const uint64_t k = vp_choose("where", 0, 1);
    if(k) line.option("N", value_text('c', 0), 1);
    line.add(vp_arg(0) ? "--help" : "--version");
    vp_opt("throws", 1);
    vp_reach("end");
    Application app(line.argc(), line.get());
    vp_assert(false, "no run");
}
