#ifndef SHIM_TW_H
#define SHIM_TW_H
#include <kognac/triple.h>
class TripleWriter {
    public:
        virtual void write(const int64_t t1, const int64_t t2, const int64_t t3) = 0;
        virtual void write(const int64_t t1, const int64_t t2, const int64_t t3, const int64_t count) = 0;
        virtual ~TripleWriter() {}
};
class SimpleTripleWriter : public TripleWriter {
    LZ4Writer w; bool quad;
    public:
        SimpleTripleWriter(std::string dir, std::string prefix, bool quad) : w(dir + "/" + prefix + "0"), quad(quad) { if (quad) w.writeByte(1); }
        void write(const int64_t a, const int64_t b, const int64_t c) { w.writeLong(a); w.writeLong(b); w.writeLong(c); if (quad) w.writeLong(0); }
        void write(const int64_t a, const int64_t b, const int64_t c, const int64_t n) { w.writeLong(a); w.writeLong(b); w.writeLong(c); if (quad) w.writeLong(n); }
};
#endif
