#ifndef SHIM_FR_H
#define SHIM_FR_H
#include <kognac/consts.h>
#include <string>
#include <vector>
#include <fstream>
#include <memory>
struct FileInfo { uint64_t size; uint64_t start; bool splittable; std::string path; FileInfo() : size(0), start(0), splittable(true) {} };
// N-Triples line reader
class FileReader {
    std::unique_ptr<std::istream> in; std::string line; bool valid; std::string s, p, o;
    public:
        FileReader(FileInfo f);
        bool parseTriple();
        bool isTripleValid() { return valid; }
        const char *getCurrentS(int &n) { n = (int) s.size(); return s.data(); }
        const char *getCurrentP(int &n) { n = (int) p.size(); return p.data(); }
        const char *getCurrentO(int &n) { n = (int) o.size(); return o.data(); }
};
#endif
