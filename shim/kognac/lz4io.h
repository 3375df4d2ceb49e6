#ifndef SHIM_LZ4IO_H
#define SHIM_LZ4IO_H
#include <kognac/consts.h>
#include <kognac/utils.h>
#include <string>
#include <vector>
#include <cstdio>
// Sequential binary files.  The on-disk format is private to KOGNAC; this stand-in does not compress.
class LZ4Writer {
    std::string path; FILE *f;
    public:
        LZ4Writer(std::string file);
        void writeByte(char b) { fputc((unsigned char) b, f); }
        void writeLong(int64_t n) { fwrite(&n, 8, 1, f); }
        void writeVLong(int64_t n);
        void writeRawArray(const char *b, int n) { if (n) fwrite(b, n, 1, f); }
        void writeString(const char *b, int n) { writeVLong(n); writeRawArray(b, n); }
        ~LZ4Writer();
};
class LZ4Reader {
    std::string path; FILE *f; std::vector<char> buf;
    void need(size_t n, size_t got);
    public:
        LZ4Reader(std::string file);
        bool isEof();
        int64_t parseLong();
        int64_t parseVLong();
        int parseInt() { return (int) parseVLong(); }
        char parseByte();
        const char *parseString(int &size);
        ~LZ4Reader();
};
#endif
