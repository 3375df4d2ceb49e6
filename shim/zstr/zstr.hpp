// Plain-text stand-in for zstr streams (writes uncompressed; reading transparently handles uncompressed input only).
#ifndef SHIM_ZSTR
#define SHIM_ZSTR
#include <fstream>
#include <sstream>
namespace zstr {
    class ifstream : public std::ifstream { public: ifstream(const std::string f, std::ios_base::openmode m = std::ios_base::in) : std::ifstream(f, m | std::ios_base::in) {} };
    class ofstream : public std::ofstream { public: ofstream(const std::string f, std::ios_base::openmode m = std::ios_base::out) : std::ofstream(f, m | std::ios_base::out) {} };
    class istream : public std::istringstream { public: istream(std::istream &i) { std::stringstream s; s << i.rdbuf(); str(s.str()); } };
}
#endif
