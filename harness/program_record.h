// Where the repository's programs write to when a harness executes them: rows of numbers.
#ifndef PROGRAM_RECORD_H_
#define PROGRAM_RECORD_H_
#include "vp.h"
#include <complex>
#include <string>

// the recorded rows
static const int ROWS = 80, COLS = 1100;
static double row_values[ROWS][COLS];
static int row_columns[ROWS], rows_written;
static bool after_separator, malformed;
namespace std
{
struct vp_ostream { // files, standard output and whatever a helper writes to
    static const int binary = 0, trunc = 0;
    vp_ostream() {}
    template <typename T, typename... Ts>
    vp_ostream(const T&, Ts...)
    {
    }
    void add(double x)
    {
        vp_assert(rows_written < ROWS, "rows fit the record");
        if(!after_separator && row_columns[rows_written] != 0) malformed = true;
        row_values[rows_written][row_columns[rows_written]++] = x;
        after_separator = false;
    }
    vp_ostream& operator<<(int x) { add(x); return *this; }
    vp_ostream& operator<<(double x) { add(x); return *this; }
    vp_ostream& operator<<(char c)
    {
        if(c == '\n') {
            if(after_separator) malformed = true;
            ++rows_written;
            after_separator = false;
        } else {
            if(c != '\t' || after_separator) malformed = true;
            after_separator = true;
        }
        return *this;
    }
    vp_ostream& operator<<(const char* c)
    {
        for(; *c; ++c) *this << *c;
        return *this;
    }
    vp_ostream& operator<<(const std::string& c) { return *this << c.c_str(); }
    vp_ostream& operator<<(const std::complex<double>& z)
    {
        add(z.real());
        after_separator = true;
        add(z.imag());
        return *this;
    }
    vp_ostream& operator<<(vp_ostream& (*f)(vp_ostream&)) { return f(*this); }
    void flush() {}
    void close() {}
};
inline vp_ostream& endl(vp_ostream& o) { return o << '\n'; }
inline vp_ostream& flush(vp_ostream& o) { return o; }
}
#endif
