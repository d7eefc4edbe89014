// Stand-in for files and file streams: contents are kept in memory, characters may be symbolic.
#ifndef MINI_FILES_H_
#define MINI_FILES_H_
#include "vp.h"
#include <cstring>
#include <string>
#include <vector>
struct File {
    std::string name;
    std::string text;
    std::vector<double> numbers; // numbers printed (0 stands for each of them in the text) or archived
};
static std::vector<File>& files()
{
    static std::vector<File> f;
    return f;
}
static File* find_file(const std::string& name)
{
    for(size_t i = files().size(); i-- > 0;)
        if(files()[i].name.size() == name.size() && files()[i].name == name) return &files()[i];
    return nullptr;
}
static void remove_file(const std::string& name)
{
    for(size_t i = 0; i < files().size(); ++i) {
        if(files()[i].name == name) {
            files().erase(files().begin() + long(i));
            return;
        }
    }
}
namespace std
{
struct vp_stream_base {
    static const int binary = 1, trunc = 2, app = 4, in = 8, out = 16, ate = 32;
    bool at_end = false, failed = false;
    int idle    = 0; // reads after the end
    bool eof() const { return at_end; }
    bool fail() const { return failed; }
    bool bad() const { return false; }
    bool good() const { return !at_end && !failed; }
    bool operator!() const { return failed; }
    explicit operator bool() const { return !failed; }
    void clear() { at_end = failed = false; }
};
struct vp_istream : vp_stream_base {
    std::string name, text;
    size_t pos = 0;
    int peek()
    {
        if(!good()) return -1;
        if(pos == text.size()) {
            at_end = true;
            return -1;
        }
        return (unsigned char)text[pos];
    }
    int get()
    {
        const int c = peek();
        if(c < 0) {
            failed = true;
            vp_assert(++idle < 50, "reading ends at the end of the input");
            return c;
        }
        ++pos;
        return c;
    }
};
inline vp_istream& getline(vp_istream& s, std::string& l, char end = '\n')
{
    if(!s.good()) {
        s.failed = true;
        vp_assert(++s.idle < 50, "reading ends at the end of the input");
        return s;
    }
    l.clear();
    while(true) {
        if(s.pos == s.text.size()) {
            s.at_end = true;
            if(l.empty()) s.failed = true;
            return s;
        }
        const char c = s.text[s.pos++];
        if(c == end) return s;
        l.push_back(c);
    }
}
struct vp_ifstream : vp_istream {
    bool opened = false;
    vp_ifstream() {}
    template <typename... M>
    explicit vp_ifstream(const std::string& n, M...)
    {
        open(n);
    }
    template <typename... M>
    void open(const std::string& n, M...)
    {
        clear();
        name          = n;
        const File* f = find_file(n);
        opened        = f != nullptr;
        failed        = !opened;
        pos           = 0;
        text          = f ? f->text : std::string();
    }
    bool is_open() const { return opened; }
    void close() { opened = false; }
};
struct vp_ostream : vp_stream_base {
    std::string name; // of the file
    File* file() { return find_file(name); }
    vp_ostream& put(char c)
    {
        if(File* f = file()) f->text.push_back(c);
        return *this;
    }
    vp_ostream& write(const char* c, long n)
    {
        for(long i = 0; i < n; ++i) put(c[i]);
        return *this;
    }
    void number(double x)
    {
        if(File* f = file()) {
            f->text.push_back('0');
            f->numbers.push_back(x);
        }
    }
    vp_ostream& operator<<(const std::string& s) { return write(s.data(), long(s.size())); }
    vp_ostream& operator<<(const char* s) { return write(s, long(std::strlen(s))); }
    vp_ostream& operator<<(char c) { return put(c); }
    vp_ostream& operator<<(double x) { number(x); return *this; }
    vp_ostream& operator<<(uint64_t x) { number(double(x)); return *this; }
    vp_ostream& operator<<(int x) { number(x); return *this; }
    vp_ostream& operator<<(vp_ostream& (*f)(vp_ostream&)) { return f(*this); }
    vp_ostream& flush() { return *this; }
    long precision(long n) { return n; }
};
inline vp_ostream& endl(vp_ostream& o) { return o << '\n'; }
inline vp_ostream& flush(vp_ostream& o) { return o; }
struct vp_ofstream : vp_ostream {
    vp_ofstream() {}
    template <typename... M>
    explicit vp_ofstream(const std::string& n, M... m)
    {
        open(n, m...);
    }
    void open(const std::string& n, int mode = 0)
    {
        name    = n;
        File* f = find_file(n);
        if(!f) {
            files().push_back(File());
            files().back().name = n;
        } else if(!(mode & app)) {
            f->text.clear();
            f->numbers.clear();
        }
    }
    bool is_open() const { return !name.empty(); }
    void close() { name.clear(); }
};
}
#endif
