#ifndef SHIM_TRIPLE_H
#define SHIM_TRIPLE_H
#include <kognac/lz4io.h>
#include <kognac/multidisklz4reader.h>
#include <kognac/multidisklz4writer.h>
class Triple {
    // bit 62 of the first word tells that a fourth word (the count) follows
    static const int64_t TAG = 1LL << 62;
    public:
        int64_t s, p, o, count;
        Triple(int64_t s, int64_t p, int64_t o) : s(s), p(p), o(o), count(0) {}
        Triple() : s(0), p(0), o(0), count(0) {}
        bool less(const Triple &t) const { if (s != t.s) return s < t.s; if (p != t.p) return p < t.p; return o < t.o; }
        bool greater(const Triple &t) const { return t.less(*this); }
        static bool sLess(const Triple &a, const Triple &b) { return a.less(b); }
        void readFrom(LZ4Reader *r) { s = r->parseLong(); p = r->parseLong(); o = r->parseLong(); count = 0; if (s & TAG) { s &= ~TAG; count = r->parseLong(); } }
        void readFrom(int id, DiskLZ4Reader *r) { s = r->readLong(id); p = r->readLong(id); o = r->readLong(id); count = 0; if (s & TAG) { s &= ~TAG; count = r->readLong(id); } }
        void writeTo(LZ4Writer *w) const { w->writeLong(count ? s | TAG : s); w->writeLong(p); w->writeLong(o); if (count) w->writeLong(count); }
        void writeTo(int id, DiskLZ4Writer *w) const { w->writeLong(id, count ? s | TAG : s); w->writeLong(id, p); w->writeLong(id, o); if (count) w->writeLong(id, count); }
};
#include <kognac/triplewriters.h>
#endif
