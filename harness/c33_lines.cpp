// C33: reading data lines: blank lines and comments are skipped, nothing else is.
#include "vp.h"
#include <cstdint>
#include <istream>
#include <string>
#include <vector>
#include "mini_files.h"
#include "mini_regex.h"
#define istream vp_istream
#include "ieompp/io/line.hpp"
#undef istream

static bool blank(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
// blank, or its first character that is not blank is '#'
static bool expected(const std::string& s)
{
    bool before = true, comment = false;
    for(char c : s) {
        comment |= before & (c == '#');
        before &= blank(c);
    }
    return before | comment;
}
static std::string symbols(uint64_t n, const char* nm)
{
    std::string s;
    for(uint64_t i = 0; i < n; ++i) {
        const char c = char(vp_u8(nm));
        vp_assume(c != '\n');
        s.push_back(c);
    }
    return s;
}
HARNESS(skippable)
{
    const std::string s = symbols(vp_arg(0), "s");
    const bool r        = ieompp::io::is_skippable_line(s);
    vp_assert(r == expected(s), "skipped are blank lines and comments");
    vp_observe_u64("r", r);
    vp_reach("end");
}
// several lines of the given lengths (9: no further line), the last one with or without line feed
HARNESS(next)
{
    static const char* const nm[] = {"a", "b", "c"};
    std::vector<std::string> lines;
    std::vector<size_t> ends;
    std::vp_istream in;
    // many lines to be skipped before, given by the last argument
    static const char* const former[] = {"# header", "", " \t", "  # comment 1 2", "#"};
    for(uint64_t k = 0; k < vp_arg(4); ++k) {
        in.text += former[k % 5];
        in.text += '\n';
    }
    for(int k = 0; k < 3; ++k) {
        const uint64_t n = vp_arg(k);
        if(n == 9) break;
        lines.push_back(symbols(n, nm[k]));
        in.text += lines.back();
        in.text += '\n';
        ends.push_back(in.text.size());
    }
    if(vp_arg(3) != 0 && !lines.empty() && !lines.back().empty()) {
        in.text.pop_back();
        --ends.back();
    }
    for(size_t k = 0; k < lines.size(); ++k) {
        if(expected(lines[k])) continue;
        const std::string l = ieompp::io::next_line(in);
        vp_assert(l.size() == lines[k].size(), "length of the next data line");
        bool same = true;
        for(size_t i = 0; i < l.size() && i < lines[k].size(); ++i) same &= l[i] == lines[k][i];
        vp_assert(same, "the next data line, unchanged");
        vp_assert(in.pos == ends[k], "nothing behind that line is read");
    }
    vp_assert(ieompp::io::next_line(in).empty(), "nothing after the last data line");
    vp_assert(in.eof(), "the end is reached");
    vp_reach("end");
}
