// C31: the simulation programs record the observable of the state integrated to each measured time.
// VP_PROGRAM selects which of the repository's main functions is executed.
#include "vp.h"
#include <algorithm>
#include <cassert>
#include <cmath>
#include <complex>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <map>
#include <string>
#include <type_traits>
#include <vector>

// command line, logging and checkpoint files are replaced: options come from a table, output goes to a record
#define SRC_HUBBARD_APPLICATION_HPP_
#define SRC_HUBBARD_CHECKOINT_HPP_
#define SRC_HUBBARD_LOGGING_HPP_
#define LOGGING_HPP_
#define SRC_HUBBARD_CLI_HPP_
#define _GLIBCXX_REGEX 1
#include "ieompp/types/blaze.hpp"
namespace std
{
    struct smatch {
    };
    struct regex {
        regex(const std::string&) {}
    };
}
// matrices the program stores
static std::vector<blaze::CompressedMatrix<std::complex<double>, blaze::rowMajor>> stored_matrices;
namespace blaze
{
    template <typename T>
    struct Archive {
        Archive(T&) {}
        template <typename M>
        Archive& operator<<(const M& m)
        {
            stored_matrices.push_back(m);
            return *this;
        }
    };
}

#include "program_record.h"
typedef std::vp_ostream Record;

static uint64_t opt_N, opt_Nx, opt_Ny, opt_interval;
static double opt_J, opt_U, opt_dt, opt_t_end, opt_filling, opt_kx, opt_ky;
static bool equal_name(const char* a, const char* b)
{
    for(; *a && *a == *b; ++a, ++b) {
    }
    return *a == *b;
}
enum Type { NONE, NUMBER, REAL, TEXT };
static void check_declared(const char* name, Type type);
struct Value {
    const char* name;
    template <typename T>
    T as() const;
};
template <>
inline uint64_t Value::as<uint64_t>() const
{
    check_declared(name, NUMBER);
    if(equal_name(name, "N")) return opt_N;
    if(equal_name(name, "Nx")) return opt_Nx;
    if(equal_name(name, "Ny")) return opt_Ny;
    vp_assert(equal_name(name, "measurement_interval"), "known option");
    return opt_interval;
}
template <>
inline double Value::as<double>() const
{
    check_declared(name, REAL);
    if(equal_name(name, "J")) return opt_J;
    if(equal_name(name, "U")) return opt_U;
    if(equal_name(name, "dt")) return opt_dt;
    if(equal_name(name, "t_end")) return opt_t_end;
    if(equal_name(name, "kx")) return opt_kx;
    if(equal_name(name, "ky")) return opt_ky;
    if(equal_name(name, "measurement_interval")) return double(opt_interval);
    vp_assert(equal_name(name, "filling_factor"), "known option");
    return opt_filling;
}
template <>
inline std::string Value::as<std::string>() const
{
    return std::string();
}
// what the program declares about its options
template <typename T>
struct Declared {
    static const Type type = std::is_same<T, uint64_t>::value ? NUMBER : std::is_same<T, double>::value ? REAL : TEXT;
    template <typename V>
    Declared* default_value(const V&)
    {
        return this;
    }
};
static std::vector<std::pair<const char*, Type>> declared_options;
struct Ignore {
    template <typename T>
    void operator=(const T&)
    {
    }
    template <typename... Ts>
    Ignore& operator()(const char*, Ts...)
    {
        return *this;
    }
    template <typename T, typename... Ts>
    Ignore& operator()(const char* name, Declared<T>*, Ts...)
    {
        declared_options.push_back(std::make_pair(name, Type(Declared<T>::type)));
        return *this;
    }
    Ignore& add_options() { return *this; }
};
template <typename T>
Declared<T>* make_value()
{
    static Declared<T> d;
    return &d;
}
template <typename T>
Declared<T>* make_value(const T&)
{
    return make_value<T>();
}
static void check_declared(const char* name, Type type)
{
    Type found = NONE;
    for(const auto& d : declared_options)
        if(equal_name(d.first, name)) found = d.second;
    vp_assert(found == type, "an option is read with the type it was declared with");
}
struct Application {
    static Ignore name, description, options_description;
    struct {
        Value operator[](const char* n) { return Value{n}; }
    } variables;
    std::string checkpoint_prefix, output_path, matrix_path;
    Record output_file;
    Application(int, char**) {}
    static void add_default_options() {}
};
Ignore Application::name, Application::description, Application::options_description;
template <typename T, typename V>
void read_checkpoint_file(const T&, V&)
{
}
template <typename T>
void clean_output_file(const T&, uint64_t)
{
}
namespace std
{
    static vp_ostream vp_cout;
}
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#define cout vp_cout
#define ofstream vp_ostream
#define ostream vp_ostream
// still a main function (its end returns 0), under another name
int main(int, char**) __asm__("vp_program_main");
struct Logger {
    template <typename... Ts>
    void info(Ts&&...)
    {
    }
} logger_;
struct Loggers {
    Logger *main = &logger_, *io = &logger_, *ode = &logger_;
};
inline Loggers& get_loggers()
{
    static Loggers l;
    return l;
}
#if VP_PROGRAM == 1
#include "hubbard_real_1d_rk4.cpp"
#elif VP_PROGRAM == 2
#include "hubbard_real_1d_rk4_jump.cpp"
#elif VP_PROGRAM == 3
#include "hubbard_real_2d_rk4_jump.cpp"
#elif VP_PROGRAM == 4
#include "hubbard_real_1d_kinetic_rk4.cpp"
#elif VP_PROGRAM == 5
#include "hubbard_real_1d_kinetic_rk4_coefficients.cpp"
#elif VP_PROGRAM == 6
#include "hubbard_real_1d_rk4_coefficients.cpp"
#elif VP_PROGRAM == 7
#include "hubbard_momentum_1d_rk4.cpp"
#endif
#undef cout
#undef ofstream
#undef ostream

using ieompp::lattices::PeriodicChain;
using ieompp::lattices::PeriodicSquareLattice;
typedef std::complex<double> C;
static const int STEPS = 32;
static double expected[STEPS + 1][COLS]; // what an observation after so many steps shows
static int expected_columns;
static double steps_dt[STEPS + 1];
static int last_step; // steps until t_end is reached
static const double DT[] = {0.25, 0.01, 0.1};

static void options()
{
    rows_written = 0;
    after_separator = malformed = false;
    for(int r = 0; r < ROWS; ++r) row_columns[r] = 0;
    opt_N        = vp_arg(0);
    opt_Nx       = vp_arg(0);
    opt_Ny       = vp_arg(1);
    opt_dt       = DT[vp_arg(2)];
    const uint64_t steps = vp_arg(3), symbolic = vp_arg(4); // bits: J, U, filling/momentum, other fixed filling/momentum
    opt_J                = symbolic & 1 ? vp_f64("J") : 1.25;
    opt_U                = symbolic & 2 ? vp_f64("U") : -0.75;
    opt_filling          = symbolic & 4 ? vp_f64("filling") : symbolic & 8 ? 0.3125 : symbolic & 16 ? 0.8125 : 0.5;
    opt_kx               = symbolic & 4 ? vp_f64("kx") : symbolic & 8 ? 0.75 : symbolic & 16 ? 2.5 : 0.;
    opt_ky               = symbolic & 4 ? vp_f64("ky") : symbolic & 8 ? 0.25 : symbolic & 16 ? -1.25 : 0.;
    opt_t_end    = vp_f64("t_end");
    opt_interval = vp_u64("interval");
    vp_assume((opt_J > 0.1) & (opt_J < 10.) & (opt_U > -10.) & (opt_U < 10.) & (opt_filling > 0.) & (opt_filling < 1.));
    vp_assume((opt_kx > -3.) & (opt_kx < 3.) & (opt_ky > -3.) & (opt_ky < 3.));
    vp_assume((opt_t_end > -1.) & (opt_t_end <= double(steps) * opt_dt - opt_dt / 2.));
    double t  = 0.;
    last_step = 0;
    for(int n = 0; n < int(steps) && t < opt_t_end; ++n) {
        steps_dt[n] = t;
        t += opt_dt;
        ++last_step;
    }
    steps_dt[last_step] = t;
}
template <typename Matrix, typename Basis, typename F>
void integrate(const Matrix& kinetic_or_full, const Basis& basis, F&& observe)
{
    blaze::DynamicVector<C> h(basis.size());
    h.reset();
    h[0] = 1.;
    ieompp::ode::RK4<double> rk4(basis.size(), opt_dt);
    observe(0, h);
    for(int n = 1; n <= last_step; ++n) {
        rk4.step(kinetic_or_full, h);
        observe(n, h);
    }
}
static void compare()
{
    vp_assert(main(0, nullptr) == 0, "success");
    vp_assert(!malformed & !after_separator, "tab separated columns");
    int row = 0;
    auto expect = [&](int n, int since) {
        (void)since;
        vp_assert(row < rows_written, "a row for every measurement");
        vp_assert(row_columns[row] == expected_columns + 1, "time and observables in a row");
        vp_assert_eq_f64(row_values[row][0], steps_dt[n], "time of the measurement");
        for(int c = 0; c < expected_columns; ++c)
            vp_assert_eq_f64(row_values[row][c + 1], expected[n][c], "observable of the state at that time");
        ++row;
    };
    expect(0, 0);
    int last = 0;
    for(int n = 1; n <= last_step; ++n) {
        if(uint64_t(n - last) >= opt_interval) {
            expect(n, n - last);
            last = n;
        }
    }
    vp_assert(row == rows_written, "no further rows");
    vp_observe_u64("rows", rows_written);
    vp_reach("end");
}

#if VP_PROGRAM <= 6
namespace rs = ieompp::models::hubbard_real_space;
using Monomial_ = ieompp::algebra::Monomial<ieompp::algebra::Operator<uint64_t, bool>>;
template <typename B, typename Lattice>
blaze::CompressedMatrix<C, blaze::rowMajor> full_matrix(const B& basis, const Lattice& lattice)
{
    blaze::CompressedMatrix<C, blaze::rowMajor> m(basis.size(), basis.size());
    rs::init_matrix(rs::make_liouvillian(opt_J, opt_U), m, basis, lattice);
    m *= C(0., 1.);
    return m;
}
template <typename B, typename Lattice>
blaze::CompressedMatrix<C, blaze::rowMajor> kinetic_matrix(const B& basis, const Lattice& lattice)
{
    blaze::CompressedMatrix<C, blaze::rowMajor> m(basis.size(), basis.size());
    rs::init_kinetic_matrix(rs::make_liouvillian(opt_J, 0.), m, basis, lattice);
    m *= C(0., 1.);
    return m;
}
#endif

#if VP_PROGRAM == 7
// prints the occupation of the middle momentum before and after eight steps
HARNESS(series)
{
    options();
    namespace ms = ieompp::models::hubbard_momentum_space;
    using Monomial_ = ieompp::algebra::Monomial<ieompp::algebra::Operator<uint64_t, bool>>;
    using Basis_    = ms::Basis3Operator<Monomial_>;
    const PeriodicChain<double, uint64_t> zone(opt_N), lattice(opt_N, 1.);
    const Basis_ basis(opt_N / 2, zone);
    const Basis_ conjugate = basis.get_conjugate();
    const auto l           = ms::make_liouvillian(zone, lattice, opt_J, opt_U);
    blaze::CompressedMatrix<C, blaze::rowMajor> matrix(basis.size(), basis.size());
    ms::init_matrix(l, matrix, basis, lattice);
    matrix *= C(0., 1.);
    const auto& m = matrix;
    ms::ParticleNumber<double, Basis_> n(basis, conjugate, l.dispersion, 0.);
    blaze::DynamicVector<C> h(basis.size());
    h.reset();
    h[0] = 1.;
    const double before = n(h);
    ieompp::ode::RK4<double> rk4(basis.size(), opt_dt);
    for(int s = 0; s < 8; ++s) rk4.step(m, h);
    const double after = n(h);
    vp_assert(main(0, nullptr) == 0, "success");
    vp_assert(!malformed & (rows_written == 2) & (row_columns[0] == 1) & (row_columns[1] == 1), "two lines with one number each");
    vp_assert_eq_f64(row_values[0][0], before, "occupation of the initial state");
    vp_assert_eq_f64(row_values[1][0], after, "occupation of the integrated state");
    vp_assert(stored_matrices.size() == 1, "one matrix is stored");
    const blaze::CompressedMatrix<C, blaze::rowMajor>& stored = stored_matrices[0];
    vp_assert((stored.rows() == m.rows()) & (stored.columns() == m.columns()), "size of the stored matrix");
    for(uint64_t i = 0; i < m.rows(); ++i) {
        for(uint64_t j = 0; j < m.columns(); ++j) {
            const C have = stored(i, j), want = m(i, j);
            vp_assert_eq_f64(have.real(), want.real(), "real part of a stored entry");
            vp_assert_eq_f64(have.imag(), want.imag(), "imaginary part of a stored entry");
        }
    }
    vp_reach("end");
}
#else
HARNESS(series)
{
    options();
#if VP_PROGRAM == 1 || VP_PROGRAM == 2 || VP_PROGRAM == 4
    const PeriodicChain<double> lattice(opt_N, 1.);
    const double fermi_momentum = ieompp::Pi<double>::value * opt_filling;
    const rs::ExpectationValue1DHalfFilled<double, PeriodicChain<double>> ev(lattice, opt_filling, fermi_momentum);
    auto pair = [&ev](const Monomial_::Operator& a, const Monomial_::Operator& b) { return ev(a.index1, b.index1); };
    expected_columns = 1;
#if VP_PROGRAM == 4
    const rs::Basis1Operator<Monomial_> basis(lattice);
    const auto conjugate = basis.get_conjugate();
    rs::SiteOccupation<double, rs::Basis1Operator<Monomial_>> n{pair, basis, conjugate};
    integrate(kinetic_matrix(basis, lattice), basis, [&](int s, const blaze::DynamicVector<C>& h) { expected[s][0] = n(h); });
#elif VP_PROGRAM == 1
    const rs::Basis3Operator<Monomial_> basis(lattice);
    const auto conjugate = basis.get_conjugate();
    rs::SiteOccupation<double, rs::Basis3Operator<Monomial_>> n{pair, basis, conjugate};
    integrate(full_matrix(basis, lattice), basis, [&](int s, const blaze::DynamicVector<C>& h) { expected[s][0] = n(h); });
#else
    const rs::Basis3Operator<Monomial_> basis(lattice);
    const rs::FermiJump1D<double, rs::Basis3Operator<Monomial_>> jump(basis, lattice, pair, fermi_momentum);
    integrate(full_matrix(basis, lattice), basis, [&](int s, const blaze::DynamicVector<C>& h) { expected[s][0] = jump(h); });
#endif
#elif VP_PROGRAM == 3
    const PeriodicSquareLattice<double> lattice(opt_Nx, opt_Ny, 1., 1.);
    const rs::ExpectationValue2DHalfFilled<double, PeriodicSquareLattice<double>> ev(lattice);
    auto pair = [&ev](const Monomial_::Operator& a, const Monomial_::Operator& b) { return ev(a.index1, b.index1); };
    const rs::Basis3Operator<Monomial_> basis(lattice);
    const rs::FermiJump2D<double, rs::Basis3Operator<Monomial_>> jump(basis, lattice, pair,
                                                                       PeriodicSquareLattice<double>::Vector{opt_kx, opt_ky});
    expected_columns = 1;
    integrate(full_matrix(basis, lattice), basis, [&](int s, const blaze::DynamicVector<C>& h) { expected[s][0] = jump(h); });
#elif VP_PROGRAM == 5 || VP_PROGRAM == 6
    const PeriodicChain<double> lattice(opt_N, 1.);
#if VP_PROGRAM == 5
    const rs::Basis1Operator<Monomial_> basis(lattice);
    const auto m = kinetic_matrix(basis, lattice);
#else
    const rs::Basis3Operator<Monomial_> basis(lattice);
    const auto m = full_matrix(basis, lattice);
#endif
    expected_columns = 2 * int(basis.size());
    integrate(m, basis, [&](int s, const blaze::DynamicVector<C>& h) {
        for(uint64_t i = 0; i < basis.size(); ++i) {
            expected[s][2 * i]     = h[i].real();
            expected[s][2 * i + 1] = h[i].imag();
        }
    });
#endif
    compare();
}
#endif
