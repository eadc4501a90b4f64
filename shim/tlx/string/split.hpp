// Stand-in for tlx::split(separator, string): keeps empty fields.
#pragma once
#include <string>
#include <vector>
namespace tlx {
static inline std::vector<std::string> split(char sep, const std::string& s) {
    std::vector<std::string> out;
    std::string::size_type last = 0;
    for (std::string::size_type i = 0; i < s.size(); ++i) {
        if (s[i] == sep) {
            out.emplace_back(s, last, i - last);
            last = i + 1;
        }
    }
    out.emplace_back(s, last);
    return out;
}
static inline std::vector<std::string> split(const std::string& sep,
                                             const std::string& s) {
    std::vector<std::string> out;
    std::string::size_type last = 0, p;
    while (!sep.empty() && (p = s.find(sep, last)) != std::string::npos) {
        out.emplace_back(s, last, p - last);
        last = p + sep.size();
    }
    out.emplace_back(s, last);
    return out;
}
} // namespace tlx
