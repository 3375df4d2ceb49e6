#ifndef SHIM_HASHMAP_H
#define SHIM_HASHMAP_H
#include <kognac/consts.h>
#include <kognac/hashfunctions.h>
#include <google/sparse_hash_map>
#include <google/dense_hash_map>
#include <cstring>
// keys: two-byte big-endian length followed by the bytes
static const char SHIM_EMPTY_KEY[2] = { 0, 0 };
#define EMPTY_KEY ((const char*) 0)
#define DELETED_KEY ((const char*) 1)
struct shim_bahash {
    size_t operator()(const char *s) const {
        if (s == EMPTY_KEY || s == DELETED_KEY) return (size_t) s;
        size_t n = ((uint8_t) s[0] << 8) + (uint8_t) s[1];
        return Hashes::fnv(s + 2, n);
    }
};
struct shim_baeq {
    bool operator()(const char *a, const char *b) const {
        if (a == b) return true;
        if (a == EMPTY_KEY || a == DELETED_KEY || b == EMPTY_KEY || b == DELETED_KEY) return false;
        size_t n = ((uint8_t) a[0] << 8) + (uint8_t) a[1];
        size_t m = ((uint8_t) b[0] << 8) + (uint8_t) b[1];
        return n == m && memcmp(a + 2, b + 2, n) == 0;
    }
};
typedef google::dense_hash_map<const char *, nTerm, shim_bahash, shim_baeq> ByteArrayToNumberMap;
#endif
