#ifndef SHIM_COMPRESSOR_H
#define SHIM_COMPRESSOR_H
#include <kognac/consts.h>
#include <kognac/hashmap.h>
#include <kognac/stringscol.h>
#include <kognac/factory.h>
#include <kognac/filereader.h>
#include <kognac/triple.h>
#include <kognac/lz4io.h>
#include <kognac/utils.h>
#include <string>
#include <vector>
class Compressor {
    public:
        Compressor(std::string, std::string) {}
        static void addPermutation(const int permutation, int &out) { out |= 1 << permutation; }
        static void parsePermutationSignature(int signature, int *output);
        static std::vector<std::string> getAllDictFiles(std::string prefixDict);
        static std::vector<FileInfo> *splitInputInChunks(const std::string &input, int nchunks, std::string prefix = "");
        // Text compression is KOGNAC's own job and is not modelled.
        template<typename... A> void parse(A...) { throw 99; }
        template<typename... A> void compress(A...) { throw 99; }
        uint64_t getTotalCount() { return 0; }
        uint64_t getEstimatedFrequency(const std::string &) { return 0; }
};
#endif
