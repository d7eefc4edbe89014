// Stand-in for the parts of Boost.Program_options that the programs use (its code is a binary library): values are kept as text.
#ifndef MINI_OPTIONS_H_
#define MINI_OPTIONS_H_
#include "vp.h"
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
namespace boost
{
namespace program_options
{
    struct error : std::logic_error {
        explicit error(const std::string& what) : std::logic_error(what) {}
    };
    struct reading_file : error {
        explicit reading_file(const char* name) : error(name) {}
    };
    struct unknown_option : error {
        explicit unknown_option(const std::string& name) : error(name) {}
    };
    // texts of values
    inline std::string text_of(const std::string& s) { return s; }
    inline std::string text_of(const char* s) { return s; }
    inline std::string text_of(bool x) { return x ? "1" : "0"; }
    inline std::string text_of(uint64_t x)
    {
        std::string r;
        do {
            r.insert(r.begin(), char('0' + x % 10));
        } while(x /= 10);
        return r;
    }
    inline std::string text_of(int x) { return x < 0 ? "-" + text_of(uint64_t(-x)) : text_of(uint64_t(x)); }
    inline std::string text_of(double x) // numbers with few digits
    {
        std::string sign;
        if(x < 0) {
            sign = "-";
            x    = -x;
        }
        uint64_t scale = 1;
        int digits     = 0;
        while(double(uint64_t(x * double(scale))) / double(scale) != x && digits < 9) {
            scale *= 10;
            ++digits;
        }
        const uint64_t n = uint64_t(x * double(scale));
        std::string r    = text_of(n / scale);
        if(digits) {
            std::string f = text_of(n % scale);
            while(int(f.size()) < digits) f.insert(f.begin(), '0');
            r += "." + f;
        }
        return sign + r;
    }
    inline void value_of(const std::string& s, std::string& x) { x = s; }
    inline void value_of(const std::string& s, uint64_t& x)
    {
        x = 0;
        for(char c : s) x = 10 * x + uint64_t((unsigned char)c - '0');
    }
    inline void value_of(const std::string& s, int& x)
    {
        uint64_t y;
        value_of(s, y);
        x = int(y);
    }
    inline void value_of(const std::string& s, double& x)
    {
        double digits = 0., scale = 1.;
        bool point = false, minus = false;
        for(size_t i = 0; i < s.size(); ++i) {
            if(i == 0 && s[i] == '-') {
                minus = true;
            } else if(s[i] == '.') {
                point = true;
            } else {
                digits = 10. * digits + double((unsigned char)s[i] - '0');
                if(point) scale *= 10.;
            }
        }
        x = digits / scale;
        if(minus) x = -x;
    }
    inline void value_of(const std::string& s, bool& x) { x = s == "1" || s == "true" || s == "on" || s == "yes"; }

    struct value_semantic {
        bool has_default = false, tokens = false;
        std::string default_text;
        std::string name() const { return !tokens ? std::string() : has_default ? "arg (=" + default_text + ")" : std::string("arg"); }
    };
    template <typename T>
    struct typed_value : value_semantic {
        typed_value() { tokens = true; }
        typed_value* default_value(const T& x) { return default_value(x, text_of(x)); }
        typed_value* default_value(const T&, const std::string& text)
        {
            has_default  = true;
            default_text = text;
            return this;
        }
    };
    template <typename T>
    typed_value<T>* value()
    {
        return new typed_value<T>();
    }
    struct option_description {
        std::string name_;
        const value_semantic* semantic_;
        const std::string& key(const std::string&) const { return name_; }
        const std::string& long_name() const { return name_; }
        const value_semantic* semantic() const { return semantic_; }
    };
    struct options_description;
    struct options_description_easy_init {
        options_description* d;
        options_description_easy_init& operator()(const char* name, const char* text);
        options_description_easy_init& operator()(const char* name, const value_semantic* s, const char* text = "");
    };
    struct options_description {
        std::vector<const option_description*> options_;
        options_description() {}
        explicit options_description(const std::string&) {}
        options_description_easy_init add_options() { return options_description_easy_init{this}; }
        const std::vector<const option_description*>& options() const { return options_; }
        const option_description* find_nothrow(const std::string& name, bool) const
        {
            for(const auto* o : options_)
                if(o->name_ == name) return o;
            return nullptr;
        }
    };
    inline options_description_easy_init& options_description_easy_init::operator()(const char* name, const value_semantic* s, const char*)
    {
        d->options_.push_back(new option_description{name, s});
        return *this;
    }
    inline options_description_easy_init& options_description_easy_init::operator()(const char* name, const char*) { return (*this)(name, new value_semantic()); }

    template <typename C>
    struct basic_option {
        std::string string_key;
        int position_key = -1;
        std::vector<std::basic_string<C>> value, original_tokens;
        bool unregistered = false, case_insensitive = false;
    };
    typedef basic_option<char> option;
    template <typename C>
    struct basic_parsed_options {
        std::vector<basic_option<C>> options;
        const options_description* description = nullptr;
    };
    typedef basic_parsed_options<char> parsed_options;
    struct command_line_parser {
        std::vector<std::string> args;
        const options_description* d = nullptr;
        bool unknown                 = false;
        explicit command_line_parser(const std::vector<std::string>& a) : args(a) {}
        command_line_parser(int argc, const char* const argv[])
        {
            for(int i = 1; i < argc; ++i) {
                args.push_back(std::string());
                for(const char* c = argv[i]; *c; ++c) args.back().push_back(*c);
            }
        }
        command_line_parser& options(const options_description& x)
        {
            d = &x;
            return *this;
        }
        command_line_parser& allow_unregistered()
        {
            unknown = true;
            return *this;
        }
        parsed_options run() const
        {
            parsed_options r;
            r.description = d;
            for(size_t i = 0; i < args.size(); ++i) {
                option o;
                o.original_tokens.push_back(args[i]);
                if(args[i].size() >= 3 && args[i][0] == '-' && args[i][1] == '-') {
                    size_t e = 2;
                    while(e < args[i].size() && args[i][e] != '=') ++e;
                    o.string_key                = args[i].substr(2, e - 2);
                    const option_description* p = d->find_nothrow(o.string_key, true);
                    if(p == nullptr) {
                        if(!unknown) throw unknown_option(o.string_key);
                        o.unregistered = true;
                    }
                    if(e < args[i].size()) {
                        if(e + 1 == args[i].size() || (p && !p->semantic_->tokens)) throw error("value");
                        o.value.push_back(args[i].substr(e + 1));
                    } else if(p && p->semantic_->tokens) {
                        if(i + 1 == args.size()) throw error("missing value");
                        o.value.push_back(args[++i]);
                        o.original_tokens.push_back(args[i]);
                    }
                } else { // positional
                    o.position_key = 0;
                    o.value.push_back(args[i]);
                }
                r.options.push_back(o);
            }
            return r;
        }
    };
    inline parsed_options parse_command_line(int argc, const char* const argv[], const options_description& d)
    {
        return command_line_parser(argc, argv).options(d).run();
    }
    struct variable_value {
        std::string text;
        bool present = false, is_default = false;
        bool empty() const { return !present; }
        bool defaulted() const { return is_default; }
        template <typename T>
        T as() const
        {
            vp_assert(present, "the option has a value");
            T x;
            value_of(text, x);
            return x;
        }
    };
    struct variables_map : std::map<std::string, variable_value> {
        std::vector<std::string> final_;
        bool is_final(const std::string& n) const { return std::find(final_.begin(), final_.end(), n) != final_.end(); }
        const variable_value& operator[](const std::string& n) const
        {
            static const variable_value none;
            const auto i = find(n);
            return i == end() ? none : i->second;
        }
    };
    // values stored before take precedence over the new ones, but for defaults
    inline void store(const parsed_options& o, variables_map& m)
    {
        std::vector<std::string> now;
        typedef std::map<std::string, variable_value> Map;
        for(const auto& x : o.options) {
            if(x.string_key.empty() || x.unregistered || m.is_final(x.string_key)) continue;
            if(std::find(now.begin(), now.end(), x.string_key) != now.end()) throw error("multiple occurrences");
            variable_value v;
            v.present = true;
            if(!x.value.empty()) v.text = x.value.front();
            static_cast<Map&>(m)[x.string_key] = v;
            now.push_back(x.string_key);
        }
        for(const auto& n : now) m.final_.push_back(n);
        for(const auto* d : o.description->options()) {
            if(d->semantic_->has_default && m.count(d->name_) == 0) {
                variable_value v;
                v.present = v.is_default = true;
                v.text                   = d->semantic_->default_text;
                static_cast<Map&>(m)[d->name_] = v;
            }
        }
    }
    inline void notify(variables_map&) {}
}
}
#endif
