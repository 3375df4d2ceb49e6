#ifndef SHIM_MDW_H
#define SHIM_MDW_H
#include <kognac/lz4io.h>
#include <memory>
class DiskLZ4Writer {
    protected:
        std::vector<std::unique_ptr<LZ4Writer>> w;
    public:
        DiskLZ4Writer(std::vector<std::string> files) { for (auto &f : files) w.emplace_back(new LZ4Writer(f)); }
        void writeByte(int id, char b) { w[id]->writeByte(b); }
        void writeLong(int id, int64_t n) { w[id]->writeLong(n); }
        void writeVLong(int id, int64_t n) { w[id]->writeVLong(n); }
        void writeString(int id, const char *b, int n) { w[id]->writeString(b, n); }
        void setTerminated(int id) { w[id].reset(); }
        virtual ~DiskLZ4Writer() {}
};
class MultiDiskLZ4Writer : public DiskLZ4Writer {
    public:
        MultiDiskLZ4Writer(std::vector<std::string> files, int, int) : DiskLZ4Writer(files) {}
};
#endif
