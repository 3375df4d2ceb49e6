#ifndef SHIM_SORTER_H
#define SHIM_SORTER_H
#include <kognac/filemerger.h>
class Sorter {
    public:
        template<class K> static std::vector<std::string> sortFiles(std::vector<std::string> inputs, std::string prefixOutput) {
            std::vector<K> v;
            for (auto &f : inputs) { LZ4Reader r(f); while (!r.isEof()) { K k; k.readFrom(&r); v.push_back(k); } }
            std::sort(v.begin(), v.end(), K::less);
            std::string out = prefixOutput + "0";
            LZ4Writer w(out); for (auto &k : v) k.writeTo(&w);
            std::vector<std::string> o; o.push_back(out); return o;
        }
};
#endif
