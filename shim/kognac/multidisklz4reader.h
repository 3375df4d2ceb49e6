#ifndef SHIM_MDR_H
#define SHIM_MDR_H
#include <kognac/lz4io.h>
#include <memory>
class DiskLZ4Reader {
    protected:
        std::vector<std::vector<std::string>> inputs; std::vector<size_t> cur; std::vector<std::unique_ptr<LZ4Reader>> rd;
        LZ4Reader *at(int id);
    public:
        DiskLZ4Reader(int n) : inputs(n), cur(n, 0), rd(n) {}
        bool isEOF(int id) { return at(id) == NULL; }
        int64_t readLong(int id) { return at(id)->parseLong(); }
        int64_t readVLong(int id) { return at(id)->parseVLong(); }
        char readByte(int id) { return at(id)->parseByte(); }
        const char *readString(int id, int &n) { return at(id)->parseString(n); }
        virtual ~DiskLZ4Reader() {}
};
class MultiDiskLZ4Reader : public DiskLZ4Reader {
    public:
        MultiDiskLZ4Reader(int n, int, int) : DiskLZ4Reader(n) {}
        void start() {}
        void stop() {}
        void addInput(int id, std::vector<std::string> &files) { inputs[id] = files; cur[id] = 0; rd[id].reset(); }
};
#endif
