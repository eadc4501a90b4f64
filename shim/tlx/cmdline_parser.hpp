// The part of tlx::CmdlineParser that VieCut's tools use: short and long
// options, positional parameters in the order they were added.
#pragma once
#include <cstdlib>
#include <functional>
#include <iostream>
#include <string>
#include <vector>
namespace tlx {
class CmdlineParser {
    struct Arg { char key; std::string name; bool takes; std::function<bool(const std::string&)> set; bool many; };
    std::vector<Arg> opts, params;
    template <class T> static bool number(const std::string& s, T& d, bool real, bool sign) {
        char* end = nullptr;
        if (s.empty() || (!sign && s[0] == '-')) return false;
        if (real) d = (T)strtod(s.c_str(), &end);
        else if (sign) d = (T)strtoll(s.c_str(), &end, 10);
        else d = (T)strtoull(s.c_str(), &end, 10);
        return *end == 0;
    }
    template <class F> void opt(char k, const std::string& n, bool takes, F f) { opts.push_back({k, n, takes, f, false}); }

 public:
    void set_description(const std::string&) { }
    void set_author(const std::string&) { }
    void add_bool(char k, const std::string& n, bool& d, const std::string&) { opt(k, n, false, [&d](const std::string&) { return d = true; }); }
    void add_flag(char k, const std::string& n, bool& d, const std::string& s) { add_bool(k, n, d, s); }
    void add_string(char k, const std::string& n, std::string& d, const std::string&) { opt(k, n, true, [&d](const std::string& s) { d = s; return true; }); }
    template <class T> void add_int(char k, const std::string& n, T& d, const std::string&) { opt(k, n, true, [&d](const std::string& s) { return number(s, d, false, true); }); }
    template <class T> void add_unsigned(char k, const std::string& n, T& d, const std::string&) { opt(k, n, true, [&d](const std::string& s) { return number(s, d, false, false); }); }
    template <class T> void add_uint(char k, const std::string& n, T& d, const std::string& s) { add_unsigned(k, n, d, s); }
    template <class T> void add_size_t(char k, const std::string& n, T& d, const std::string& s) { add_unsigned(k, n, d, s); }
    template <class T> void add_double(char k, const std::string& n, T& d, const std::string&) { opt(k, n, true, [&d](const std::string& s) { return number(s, d, true, true); }); }
    void add_stringlist(char k, const std::string& n, std::vector<std::string>& d, const std::string&) { opt(k, n, true, [&d](const std::string& s) { d.push_back(s); return true; }); }
    void add_param_string(const std::string& n, std::string& d, const std::string&) { params.push_back({0, n, true, [&d](const std::string& s) { d = s; return true; }, false}); }
    template <class T> void add_param_size_t(const std::string& n, T& d, const std::string&) { params.push_back({0, n, true, [&d](const std::string& s) { return number(s, d, false, false); }, false}); }
    bool process(int argc, const char* const* argv) {
        size_t pos = 0;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            if (a.size() > 1 && a[0] == '-') {
                const Arg* o = nullptr;
                for (auto& x : opts) if (a[1] == '-' ? a.substr(2) == x.name : a.size() == 2 && a[1] == x.key) o = &x;
                if (!o || (o->takes && i + 1 >= argc) || !o->set(o->takes ? argv[++i] : "")) { std::cerr << "bad option " << a << std::endl; return false; }
            } else if (pos >= params.size() || !params[pos++].set(a)) { std::cerr << "bad parameter " << a << std::endl; return false; }
        }
        return pos == params.size();
    }
    bool process(int argc, char** argv) { return process(argc, (const char* const*)argv); }
};
} // namespace tlx
