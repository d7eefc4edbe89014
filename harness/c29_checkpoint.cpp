// C29: checkpoint and matrix files restore what was stored; cleaning an output file keeps its first rows.
#include "vp.h"
#include <algorithm>
#include <cassert>
#include <cmath>
#include <complex>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <map>
#include <string>
#include <type_traits>
#include <vector>
#include "mini_files.h"
#include "mini_regex.h"
#define SRC_HUBBARD_APPLICATION_HPP_
#define SRC_HUBBARD_LOGGING_HPP_
#define SRC_HUBBARD_CLI_HPP_
#define BOOST_FILESYSTEM_FILESYSTEM_HPP
#include "ieompp/types/blaze.hpp"
typedef std::complex<double> C;
static void rename_file(const std::string& a, const std::string& b)
{
    vp_assert(find_file(a) != nullptr, "the renamed file exists");
    if(a == b) return;
    remove_file(b);
    if(File* f = find_file(a)) f->name = b;
}
namespace boost
{
    namespace filesystem
    {
        struct path {
            std::string s;
            path() {}
            path(const std::string& x) : s(x) {}
            path(const char* x) : s(x) {}
            const std::string& string() const { return s; }
            const std::string& native() const { return s; }
            const char* c_str() const { return s.c_str(); }
            path& operator+=(const path& x)
            {
                s += x.s;
                return *this;
            }
        };
        inline void vp_rename(const path& a, const path& b) { rename_file(a.s, b.s); }
        inline bool exists(const path& a) { return find_file(a.s) != nullptr; }
        inline bool remove(const path& a)
        {
            remove_file(a.s);
            return true;
        }
    }
}
namespace std
{
    inline int vp_rename(const char* a, const char* b)
    {
        rename_file(a, b);
        return 0;
    }
}
using std::vp_rename;
// an archive stores dimensions and elements
namespace blaze
{
    template <typename S>
    struct Archive {
        S& strm;
        Archive(S& s) : strm(s) {}
        void put(double x)
        {
            if(File* f = find_file(strm.name)) f->numbers.push_back(x);
        }
        template <typename T, bool O>
        Archive& operator<<(const DynamicVector<T, O>& v)
        {
            put(double(v.size()));
            for(size_t i = 0; i < v.size(); ++i) {
                put(C(v[i]).real());
                put(C(v[i]).imag());
            }
            return *this;
        }
        template <typename T, bool O>
        Archive& operator<<(const CompressedMatrix<T, O>& m)
        {
            put(double(m.rows()));
            put(double(m.columns()));
            for(size_t i = 0; i < m.rows(); ++i) {
                for(size_t j = 0; j < m.columns(); ++j) {
                    put(C(m(i, j)).real());
                    put(C(m(i, j)).imag());
                }
            }
            return *this;
        }
        template <typename T, bool O>
        Archive& operator>>(DynamicVector<T, O>& v)
        {
            const File* f = find_file(strm.name);
            vp_assert(f != nullptr && !f->numbers.empty(), "the file read exists");
            if(!f || f->numbers.empty()) return *this;
            const size_t n = size_t(f->numbers[0]);
            v.resize(n);
            for(size_t i = 0; i < n; ++i) v[i] = T(f->numbers[1 + 2 * i], f->numbers[2 + 2 * i]);
            return *this;
        }
    };
}
struct Logger {
    template <typename... Ts>
    void info(Ts&&...)
    {
    }
    template <typename... Ts>
    void warn(Ts&&...)
    {
    }
} logger_;
struct Loggers {
    Logger *main = &logger_, *io = &logger_, *ode = &logger_;
};
inline Loggers& get_loggers()
{
    static Loggers l;
    return l;
}
struct Value {
    std::string text;
    template <typename T>
    T as() const
    {
        return T(text);
    }
};
struct Application {
    std::map<std::string, Value> variables;
    std::string checkpoint_prefix, output_path;
};
#define rename vp_rename
#define istream vp_istream
#define ostream vp_ostream
#define ifstream vp_ifstream
#define ofstream vp_ofstream
#include "include/common.hpp"
#undef rename
#undef istream
#undef ostream
#undef ifstream
#undef ofstream

static blaze::DynamicVector<C> vector_of(uint64_t n, uint64_t k)
{
    static char nm[2][4][4][4];
    blaze::DynamicVector<C> v(n);
    for(uint64_t i = 0; i < n; ++i) {
        for(int p = 0; p < 2; ++p) {
            nm[p][k][i][0] = p ? 'y' : 'x';
            nm[p][k][i][1] = char('0' + k);
            nm[p][k][i][2] = char('0' + i);
            nm[p][k][i][3] = 0;
        }
        const double x = vp_f64(nm[0][k][i]), y = vp_f64(nm[1][k][i]);
        v[i]           = C(x, y);
    }
    return v;
}
// every checkpoint is kept in files of its own and is read back unchanged, whatever the vector had before
static void store_and_restore(uint64_t count, const uint64_t* n, uint64_t before)
{
    static const char* const tn[] = {"t0", "t1", "t2"};
    files().clear();
    std::vector<blaze::DynamicVector<C>> v;
    std::vector<double> t;
    for(uint64_t k = 0; k < count; ++k) {
        if(k < 3) {
            v.push_back(vector_of(n[k], k));
            t.push_back(vp_f64(tn[k]));
            vp_assume((t[k] >= 0.) & (t[k] < 1e6));
        } else {
            v.push_back(blaze::DynamicVector<C>(1));
            v[k][0] = C(double(k), -double(k));
            t.push_back(double(k));
        }
        write_checkpoint_file(std::string("run_checkpoint_"), v[k], t[k]);
    }
    vp_assert(files().size() == 2 * count, "two files for every checkpoint");
    blaze::DynamicVector<C> w(before);
    for(uint64_t k = 0; k < count; ++k) {
        const std::string stem = "run_checkpoint_" + std::to_string(k);
        const File *data = find_file(stem + ".blaze"), *info = find_file(stem + ".info");
        vp_assert(data != nullptr && info != nullptr, "checkpoints are numbered from 0");
        read_checkpoint_file(stem + ".blaze", w);
        vp_assert(w.size() == v[k].size(), "size of the restored vector");
        for(uint64_t i = 0; i < w.size(); ++i) {
            vp_assert_eq_f64(w[i].real(), v[k][i].real(), "restored real part");
            vp_assert_eq_f64(w[i].imag(), v[k][i].imag(), "restored imaginary part");
        }
        vp_assert(info->numbers.size() == 1, "one time in the information file");
        vp_assert_eq_f64(info->numbers[0], t[k], "time of the checkpoint");
    }
    vp_reach("end");
}
HARNESS(checkpoints)
{
    const uint64_t n[] = {vp_arg(0), vp_arg(1), vp_arg(2)};
    store_and_restore(3, n, vp_arg(3));
}
HARNESS(many_checkpoints)
{
    const uint64_t n[] = {1, 2, 1};
    store_and_restore(vp_arg(0), n, 1);
}
// the vector that a run starts with is that of the checkpoint given by the option
HARNESS(start)
{
    files().clear();
    const uint64_t n[] = {vp_arg(0), vp_arg(1)};
    const double t     = vp_f64("t");
    vp_assume((t >= 0.) & (t < 1e6));
    blaze::DynamicVector<C> v[2] = {vector_of(n[0], 0), vector_of(n[1], 1)};
    write_checkpoint_file(std::string("run_checkpoint_"), v[0], t);
    write_checkpoint_file(std::string("run_checkpoint_"), v[1], t + 1.);
    {
        std::vp_ofstream out("run.txt");
        out << "# header\n" << "0\n";
    }
    Application app;
    app.checkpoint_prefix            = "run_checkpoint_";
    app.output_path                  = "run.txt";
    const uint64_t which             = vp_arg(2);
    app.variables["checkpoint"].text = which ? "run_checkpoint_1.blaze" : "run_checkpoint_0.blaze";
    const auto w                     = read_vector_from_checkpoint(app);
    vp_assert(w.size() == n[which], "size of the initial vector");
    for(uint64_t i = 0; i < w.size(); ++i) {
        vp_assert_eq_f64(w[i].real(), v[which][i].real(), "real part of the initial vector");
        vp_assert_eq_f64(w[i].imag(), v[which][i].imag(), "imaginary part of the initial vector");
    }
    const File* f = find_file("run.txt");
    vp_assert(f != nullptr && f->text == "# header\n0\n", "output of the steps before is kept");
    vp_reach("end");
}
HARNESS(matrix_file)
{
    files().clear();
    const uint64_t r = vp_arg(0), c = vp_arg(1);
    blaze::CompressedMatrix<C, blaze::rowMajor> m(r, c);
    double re[3][3] = {}, im[3][3] = {};
    static const char* const nm[2][9] = {{"a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "a8"}, {"b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7", "b8"}};
    m.reserve(r * c);
    for(uint64_t i = 0; i < r; ++i) {
        for(uint64_t j = 0; j < c; ++j) {
            if((i + 2 * j) % 3 != 1) {
                re[i][j] = vp_f64(nm[0][3 * i + j]);
                im[i][j] = vp_f64(nm[1][3 * i + j]);
                m.append(i, j, C(re[i][j], im[i][j]));
            }
        }
        m.finalize(i);
    }
    if(vp_arg(2)) { // an older file is replaced
        std::vp_ofstream old("m.blaze");
        old << "older" << 3.;
    }
    write_matrix_file("m.blaze", m);
    const File* f = find_file("m.blaze");
    vp_assert(f != nullptr && files().size() == 1 && f->numbers.size() == 2 + 2 * r * c, "the matrix is archived once, under its name");
    vp_assert((f->numbers[0] == double(r)) & (f->numbers[1] == double(c)), "dimensions");
    for(uint64_t i = 0; i < r; ++i) {
        for(uint64_t j = 0; j < c; ++j) {
            vp_assert_eq_f64(f->numbers[2 + 2 * (i * c + j)], re[i][j], "real part of an element");
            vp_assert_eq_f64(f->numbers[3 + 2 * (i * c + j)], im[i][j], "imaginary part of an element");
        }
    }
    vp_reach("end");
}
// lines of the given lengths (9: no further line); any number of rows to be kept
HARNESS(clean)
{
    static const char* const nm[] = {"a", "b", "c", "d", "e", "f"};
    files().clear();
    std::vector<std::string> lines;
    std::string all;
    // many lines before, given by the last argument
    static const char* const former[] = {"# header", "0.5\t1", "", "1\t-2.25", "  # comment", "2\t3e-05\t4", "\t", " 3\t7"};
    for(uint64_t k = 0; k < vp_arg(6); ++k) {
        lines.push_back(former[(k + k / 8) % 8]);
        all += lines.back() + '\n';
    }
    for(int k = 0; k < 6; ++k) {
        const uint64_t n = vp_arg(k);
        if(n == 9) break;
        std::string s;
        for(uint64_t i = 0; i < n; ++i) {
            const char c = char(vp_u8(nm[k]));
            vp_assume(c != '\n');
            s.push_back(c);
        }
        lines.push_back(s);
        all += s + '\n';
    }
    {
        std::vp_ofstream f("out.txt");
        f << all;
    }
    const uint64_t keep = vp_u64("keep");
    clean_output_file("out.txt", keep);
    // everything up to the last line kept
    std::string want;
    uint64_t rows = 0;
    for(const auto& l : lines) {
        if(rows >= keep) break;
        bool before = true, comment = false;
        for(char c : l) {
            comment |= before & (c == '#');
            before &= (c == ' ') | ((c >= 9) & (c <= 13));
        }
        if(!(before | comment)) ++rows;
        want += l + '\n';
    }
    auto check = [](const char* name, const std::string& text, const char* what) {
        const File* f = find_file(name);
        vp_assert(f != nullptr, what);
        if(!f) return;
        vp_assert(f->text.size() == text.size(), what);
        bool same = true;
        for(size_t i = 0; i < text.size() && i < f->text.size(); ++i) same &= text[i] == f->text[i];
        vp_assert(same, what);
    };
    check("out.txt", want, "the first rows are kept, line by line, with the comments before them");
    check("out.txt.bak", all, "the former file is kept under another name");
    vp_assert(files().size() == 2, "no other files");
    vp_reach("end");
}
