#ifndef SHIM_DR_H
#define SHIM_DR_H
#include <kognac/filereader.h>
#include <list>
#include <mutex>
#include <condition_variable>
class DiskReader {
    public:
        struct Buffer { size_t size; size_t maxsize; bool gzipped; char *b; Buffer() : size(0), maxsize(0), gzipped(false), b(NULL) {} };
        DiskReader(int nbuffers, std::vector<FileInfo> *files) : files(files), done(false) {}
        bool tryRead() { return false; }
        Buffer getfile();
        void releasefile(Buffer b) { delete[] b.b; }
        void run();
    private:
        std::vector<FileInfo> *files; std::list<Buffer> q; bool done; std::mutex m; std::condition_variable cv;
};
#endif
