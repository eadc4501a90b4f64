#pragma once
#include <cstddef>
#include <cstdint>
static inline uint64_t XXH64(const void* p, size_t n, uint64_t seed) {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    uint64_t h = 1469598103934665603ull ^ seed;
    for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
    return h;
}
