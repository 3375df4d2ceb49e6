#ifndef SHIM_HASHF_H
#define SHIM_HASHF_H
#include <cstdint>
#include <cstddef>
class Hashes {
    public:
        static uint64_t fnv(const char *s, size_t n) { uint64_t h = 1469598103934665603ULL; for (size_t i = 0; i < n; ++i) { h ^= (uint8_t) s[i]; h *= 1099511628211ULL; } return h; }
        static int hashCode(const char *s) { size_t n = 0; while (s[n]) n++; return (int) fnv(s, n); }
        static int hashArray(const char *s, const int n) { return (int) fnv(s, n); }
        static int64_t getCodeWithDefaultFunction(const char *s, const int n) { return (int64_t) (fnv(s, n) & 0x7fffffffffffffffLL); }
};
#endif
