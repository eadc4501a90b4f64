// Minimal stand-in for tlx/logger.hpp (the submodule is not vendored here).
// Log lines go to std::clog so that they never mix with harness output.
#pragma once
#include <array>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
namespace tlx {
template <class T, class = void>
struct shim_printable : std::false_type { };
template <class T>
struct shim_printable<T, std::void_t<decltype(std::declval<std::ostream&>()
                                              << std::declval<const T&>())> >
    : std::true_type { };
struct ShimLine {
    bool spaces;
    std::ostringstream os;
    explicit ShimLine(bool s = false) : spaces(s) { }
    ~ShimLine() {
        os << '\n';
        std::clog << os.str();
    }
    template <class T>
    ShimLine& operator << (const T& t) {
        if constexpr (shim_printable<T>::value) os << t;
        else os << "<?>";
        if (spaces) os << ' ';
        return *this;
    }
};
} // namespace tlx
#define TLX_SHIM_LOGC(cond, sp) \
    !(cond) ? (void)0 : ::tlx::ShimVoid() & ::tlx::ShimLine(sp)
namespace tlx {
struct ShimVoid { void operator & (ShimLine&) { } void operator & (ShimLine&&) { } };
} // namespace tlx
#define LOGC(cond) TLX_SHIM_LOGC(cond, false)
#define LOG LOGC(debug)
#define LOG0 LOGC(false)
#define LOG1 LOGC(true)
#define sLOGC(cond) TLX_SHIM_LOGC(cond, true)
#define sLOG sLOGC(debug)
#define sLOG0 sLOGC(false)
#define sLOG1 sLOGC(true)
