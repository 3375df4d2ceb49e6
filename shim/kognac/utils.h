#ifndef SHIM_UTILS_H
#define SHIM_UTILS_H
#include <kognac/consts.h>
#include <string>
#include <vector>
#include <cstdint>
#include <iostream>
#include <fstream>
#include <sstream>
#include <memory>
#include <cstring>
#include <algorithm>
#include <functional>
#include <unordered_map>
#include <map>
#include <set>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <iomanip>
#include <list>
#include <queue>
#include <cmath>
#include <assert.h>
using namespace std;
class TripleWriter;
class SimpleTripleWriter;

class Utils {
    public:
        static bool exists(std::string f);
        static bool isDirectory(std::string f);
        static bool isFile(std::string f);
        static bool isEmpty(std::string dir);
        static uint64_t fileSize(std::string f);
        static void create_directories(std::string d);
        static void remove(std::string f);
        static void remove_all(std::string f);
        static void rename(std::string a, std::string b);
        static void copy(std::string a, std::string b);
        static void resizeFile(std::string f, uint64_t n);
        static void linkdir(std::string a, std::string b);
        static void rmlink(std::string a);
        static std::string parentDir(std::string f);
        static std::string filename(std::string f);
        static std::string extension(std::string f);
        static std::string removeExtension(std::string f);
        static std::string removeLastExtension(std::string f);
        static bool hasExtension(const std::string &f);
        static std::vector<std::string> getFiles(std::string dir, bool ignoreExtension = false);
        static std::vector<std::string> getFilesWithPrefix(std::string dir, std::string prefix);
        static std::vector<std::string> getSubdirs(std::string dir);
        static bool starts_with(const std::string s, const std::string p);
        static bool ends_with(const std::string s, const std::string p);
        static bool contains(const std::string s, const std::string p) { return s.find(p) != std::string::npos; }

        static int64_t getSystemMemory();
        static int64_t getUsedMemory();
        static int64_t get_max_mem();
        static int64_t getIOReadBytes() { return 0; }
        static int64_t getIOReadChars() { return 0; }
        static int getNumberPhysicalCores();

        static int commonPrefix(tTerm *o1, int s1, int e1, tTerm *o2, int s2, int e2);
        static int compare(const char *a, int s1, int e1, const char *b, int s2, int e2);
        static int prefixEquals(char *o1, int len1, char *o2, int len2);

        static int numBytes(int64_t n);
        static int numBytes2(int64_t n);
        static int numBytesFixedLength(int64_t n);

        static int decode_int(const char *b) { return (int) be(b, 4); }
        static int decode_int(const char *b, int off) { return (int) be(b + off, 4); }
        static void encode_int(char *b, int n) { enc(b, 4, (uint32_t) n); }
        static void encode_int(char *b, int off, int n) { enc(b + off, 4, (uint32_t) n); }
        static int64_t decode_long(const char *b) { return (int64_t) be(b, 8); }
        static int64_t decode_long(const char *b, int off) { return (int64_t) be(b + off, 8); }
        static void encode_long(char *b, int64_t n) { enc(b, 8, (uint64_t) n); }
        static void encode_long(char *b, int off, int64_t n) { enc(b + off, 8, (uint64_t) n); }
        static int64_t decode_longFixedBytes(const char *b, const uint8_t nbytes) { return (int64_t) be(b, nbytes); }
        static void encode_longNBytes(char *b, const uint8_t nbytes, const uint64_t n) { enc(b, nbytes, n); }
        static short decode_short(const char *b) { return (short) be(b, 2); }
        static short decode_short(const char *b, int off) { return (short) be(b + off, 2); }
        static void encode_short(char *b, int n) { enc(b, 2, (uint64_t) (uint32_t) n); }
        static void encode_short(char *b, int off, int n) { enc(b + off, 2, (uint64_t) (uint32_t) n); }

        static int64_t decode_vlong(const char *b, int *off);
        static uint16_t encode_vlong(char *b, int64_t n) { return (uint16_t) encode_vlong(b, 0, n); }
        static int encode_vlong(char *b, int off, int64_t n);
        static int64_t decode_vlong2(const char *b, int *off);
        static uint16_t encode_vlong2(char *b, int64_t n) { return (uint16_t) encode_vlong2(b, 0, n); }
        static int encode_vlong2(char *b, int off, int64_t n);
        static void encode_vlong2_fixedLen(char *b, int64_t n, const uint8_t len);
        static int decode_vint2(const char *b, int *off) { return (int) decode_vlong2(b, off); }
        static int encode_vint2(char *b, int off, int n) { return encode_vlong2(b, off, (uint32_t) n); }

    private:
        static uint64_t be(const char *b, int n) {
            uint64_t v = 0;
            for (int i = 0; i < n; ++i) v = (v << 8) | (uint8_t) b[i];
            return v;
        }
        static void enc(char *b, int n, uint64_t v) {
            for (int i = n - 1; i >= 0; --i) { b[i] = (char) (v & 0xFF); v >>= 8; }
        }
};

#endif
