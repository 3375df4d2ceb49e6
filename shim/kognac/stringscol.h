#ifndef SHIM_STRCOL_H
#define SHIM_STRCOL_H
#include <kognac/consts.h>
#include <vector>
#include <cstring>
class StringCollection {
    std::vector<char*> pools; size_t sz, used, cap; uint64_t total;
    char *alloc(size_t n) {
        if (pools.empty() || used + n > cap) { cap = n > sz ? n : sz; pools.push_back(new char[cap]); used = 0; }
        char *r = pools.back() + used; used += n; total += n; return r;
    }
    public:
        StringCollection(int size) : sz(size < (1 << 16) ? size : (1 << 16)), used(0), cap(0), total(0) {}
        const char *addNew(const char *t, int n) { char *r = alloc(n); memcpy(r, t, n); return r; }
        const char *addNew(const char *t) { int n = 2 + (((uint8_t) t[0] << 8) | (uint8_t) t[1]); return addNew(t, n); }
        void clear() { for (auto p : pools) delete[] p; pools.clear(); used = cap = total = 0; }
        uint64_t size() { return total; }
        ~StringCollection() { clear(); }
};
#endif
