#pragma once
#include <kognac/compressor.h>
class Kognac { public: static void sortCompressedGraph(std::string, std::string, int) { throw 99; } };
