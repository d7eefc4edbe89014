// Stand-in for std::regex: the pattern of the code under test is turned into a nondeterministic automaton, which reads symbolic
// characters without branching.  Supports literals, . \s \d \w \S \D \W, classes, groups, | * + ? ^ $ (ECMAScript; one captured group, the parts in front of it and in it are greedy).
#ifndef MINI_REGEX_H_
#define MINI_REGEX_H_
#define _GLIBCXX_REGEX 1
#include "vp.h"
#include <string>
#include <vector>
namespace std
{
namespace regex_constants
{
    enum syntax_option_type { ECMAScript = 1, optimize = 2, nosubs = 4, icase = 8 };
    inline syntax_option_type operator|(syntax_option_type a, syntax_option_type b) { return syntax_option_type(int(a) | int(b)); }
}
struct sub_match {
    bool matched = false;
    std::string text;
    std::string str() const { return text; }
    operator std::string() const { return text; }
    size_t length() const { return text.size(); }
};
struct smatch {
    std::vector<sub_match> groups;
    bool empty() const { return groups.empty(); }
    size_t size() const { return groups.size(); }
    bool ready() const { return true; }
    sub_match operator[](size_t i) const { return i < groups.size() ? groups[i] : sub_match(); }
    std::string str(size_t i = 0) const { return (*this)[i].text; }
};
class regex
{
public:
    static const regex_constants::syntax_option_type ECMAScript = regex_constants::ECMAScript, optimize = regex_constants::optimize,
                                                     nosubs = regex_constants::nosubs;
    regex() : regex("") {}
    regex(const char* p, int = 0) : text_(p) { compile(); }
    regex(const std::string& p, int = 0) : text_(p) { compile(); }
    const std::string& pattern() const { return text_; }
    bool run(const std::string& s, bool whole) const
    {
        std::vector<unsigned char> on(states_, 0);
        unsigned char found = 0;
        on[start_]          = 1;
        for(size_t i = 0;; ++i) {
            close(on, i == 0, i == s.size());
            if(!whole) found |= on[end_];
            if(i == s.size()) break;
            const unsigned char c = static_cast<unsigned char>(s[i]);
            std::vector<unsigned char> next(states_, 0);
            for(const auto& e : edges_)
                if(e.kind == 1) next[e.to] |= (unsigned char)(on[e.from] & (unsigned char)in(e, c));
            if(!whole) next[start_] = 1;
            on = next;
        }
        return (whole ? on[end_] : found) != 0;
    }

private:
    struct Edge {
        int from, to, kind; // 0 empty, 1 a character, 2 start of the text, 3 end of the text
        std::vector<unsigned char> lo, hi;
        bool negated;
    };
    std::string text_;
    size_t at_  = 0;
    int states_ = 0, start_ = 0, end_ = 0;
    std::vector<Edge> edges_;

    static bool in(const Edge& e, unsigned char c)
    {
        bool r = false;
        for(size_t k = 0; k < e.lo.size(); ++k) r |= (c >= e.lo[k]) & (c <= e.hi[k]);
        return r != e.negated;
    }
    void close(std::vector<unsigned char>& on, bool first, bool last) const
    {
        for(int k = 0; k < states_; ++k)
            for(const auto& e : edges_)
                if(e.kind == 0 || (e.kind == 2 && first) || (e.kind == 3 && last)) on[e.to] |= on[e.from];
    }
    int state() { return states_++; }
    void empty(int a, int b) { edges_.push_back(Edge{a, b, 0, {}, {}, false}); }
    bool more() const { return at_ < text_.size(); }
    void compile()
    {
        start_ = state();
        end_   = state();
        alternatives(start_, end_);
        vp_assert(!more(), "supported pattern");
    }
    void alternatives(int a, int b)
    {
        sequence(a, b);
        while(more() && text_[at_] == '|') {
            ++at_;
            sequence(a, b);
        }
    }
    void sequence(int a, int b)
    {
        int now = a;
        while(more() && text_[at_] != '|' && text_[at_] != ')') {
            const int from = state(), to = state();
            empty(now, from);
            atom(from, to);
            now = to;
            if(more() && (text_[at_] == '*' || text_[at_] == '+' || text_[at_] == '?')) {
                const char c = text_[at_++];
                if(c != '+') empty(from, to); // nothing but this edge and the atom's own lead from one to the other
                if(c != '?') empty(to, from);
                if(more() && text_[at_] == '?') ++at_; // lazy: the same language
            }
        }
        empty(now, b);
    }
    void add(Edge& e, char kind)
    {
        switch(kind) {
            case 's': case 'S':
                e.lo.push_back(9); e.hi.push_back(13); e.lo.push_back(32); e.hi.push_back(32);
                break;
            case 'd': case 'D':
                e.lo.push_back('0'); e.hi.push_back('9');
                break;
            case 'w': case 'W':
                e.lo.push_back('0'); e.hi.push_back('9'); e.lo.push_back('a'); e.hi.push_back('z');
                e.lo.push_back('A'); e.hi.push_back('Z'); e.lo.push_back('_'); e.hi.push_back('_');
                break;
            case 't': one(e, '\t'); break;
            case 'n': one(e, '\n'); break;
            case 'r': one(e, '\r'); break;
            case 'v': one(e, '\v'); break;
            case 'f': one(e, '\f'); break;
            default: one(e, kind);
        }
    }
    void one(Edge& e, char c)
    {
        e.lo.push_back((unsigned char)c);
        e.hi.push_back((unsigned char)c);
    }
    void atom(int a, int b)
    {
        const char c = text_[at_++];
        Edge e{a, b, 1, {}, {}, false};
        if(c == '(') {
            if(more() && text_[at_] == '?') at_ += 2;
            alternatives(a, b);
            vp_assert(more() && text_[at_] == ')', "closed group");
            ++at_;
            return;
        }
        if(c == '^') {
            e.kind = 2;
        } else if(c == '$') {
            e.kind = 3;
        } else if(c == '.') {
            one(e, '\n');
            one(e, '\r');
            e.negated = true;
        } else if(c == '\\') {
            const char k = text_[at_++];
            e.negated    = k == 'S' || k == 'D' || k == 'W';
            add(e, k);
        } else if(c == '[') {
            if(more() && text_[at_] == '^') {
                e.negated = true;
                ++at_;
            }
            while(more() && text_[at_] != ']') {
                char l = text_[at_++];
                if(l == '[' && more() && text_[at_] == ':') {
                    const size_t q         = text_.find(":]", at_);
                    const std::string name = text_.substr(at_ + 1, q - at_ - 1);
                    at_                    = q + 2;
                    if(name == "blank") {
                        one(e, ' ');
                        one(e, '\t');
                    } else {
                        add(e, name == "space" ? 's' : name == "digit" ? 'd' : 'w');
                    }
                } else if(l == '\\') {
                    const char k = text_[at_++];
                    if(k == 'S' || k == 'D' || k == 'W') { // the gaps between the ranges of the class
                        Edge other{a, b, 1, {}, {}, false};
                        add(other, k);
                        for(int from = 0; from < 256;) {
                            int to = from;
                            bool in_class = false;
                            for(size_t i = 0; i < other.lo.size(); ++i) in_class |= from >= other.lo[i] && from <= other.hi[i];
                            if(in_class) {
                                ++from;
                                continue;
                            }
                            for(bool hit = false; !hit && to < 256; to += !hit)
                                for(size_t i = 0; i < other.lo.size(); ++i) hit |= to == other.lo[i];
                            if(to > 256) to = 256;
                            e.lo.push_back((unsigned char)from);
                            e.hi.push_back((unsigned char)(to - 1));
                            from = to;
                        }
                    } else {
                        add(e, k);
                    }
                } else if(at_ + 1 < text_.size() && text_[at_] == '-' && text_[at_ + 1] != ']') {
                    e.lo.push_back((unsigned char)l);
                    e.hi.push_back((unsigned char)text_[at_ + 1]);
                    at_ += 2;
                } else {
                    one(e, l);
                }
            }
            ++at_;
        } else {
            one(e, c);
        }
        edges_.push_back(e);
    }
};
inline bool regex_match(const std::string& s, const regex& r) { return r.run(s, true); }
inline bool regex_match(const std::string& s, smatch& m, const regex& r)
{
    m.groups.clear();
    if(!r.run(s, true)) return false;
    sub_match whole;
    whole.matched = true;
    whole.text    = s;
    m.groups.push_back(whole);
    const std::string& p = r.pattern();
    size_t open = p.size(), close = p.size();
    for(size_t i = 0; i < p.size(); ++i) {
        if(p[i] == '\\') {
            ++i;
        } else if(p[i] == '(') {
            vp_assert(open == p.size(), "supported pattern");
            open = i;
        } else if(p[i] == ')') {
            close = i;
        }
    }
    if(open == p.size()) return true;
    vp_assert(close + 1 == p.size() || (p[close + 1] != '*' && p[close + 1] != '+' && p[close + 1] != '?'), "supported pattern");
    const regex before(p.substr(0, open)), group(p.substr(open + 1, close - open - 1)), after(p.substr(close + 1));
    for(size_t i = s.size() + 1; i-- > 0;) {
        if(!before.run(s.substr(0, i), true)) continue;
        for(size_t j = s.size() + 1; j-- > i;) {
            if(group.run(s.substr(i, j - i), true) && after.run(s.substr(j), true)) {
                sub_match g;
                g.matched = true;
                g.text    = s.substr(i, j - i);
                m.groups.push_back(g);
                return true;
            }
        }
    }
    return true;
}
inline bool regex_search(const std::string& s, const regex& r) { return r.run(s, false); }
}
#endif
