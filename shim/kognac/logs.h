#ifndef SHIM_LOGS_H
#define SHIM_LOGS_H
#include <string>
#include <cstdlib>
#include <sstream>
#include <iostream>
#include <mutex>
#include <iomanip>
#include <memory>
#include <cstdint>
#define TRACEL 0
#define DEBUGL 1
#define INFOL 2
#define WARNL 3
#define ERRORL 4
class Logger {
    public:
        static int &level() { static int l = getenv("VERIF_LOG") ? atoi(getenv("VERIF_LOG")) : ERRORL + 1; return l; }
        static int getMinLevel() { return level(); }
        static void setMinLevel(int l) { level() = l; }
        static void logToFile(std::string) {}
        static std::mutex &mtx() { static std::mutex m; return m; }
        class Line {
            int l; std::ostringstream s;
            public:
            Line(int l) : l(l) {}
            ~Line() { if (l >= Logger::level()) { std::lock_guard<std::mutex> g(mtx()); std::cerr << "[" << l << "] " << s.str() << std::endl; } }
            template<typename T> Line &operator<<(const T &t) { s << t; return *this; }
            Line &operator<<(std::ostream& (*f)(std::ostream&)) { s << f; return *this; }
        };
};
#define LOG(X) if ((X) < Logger::level()) {} else Logger::Line(X)
#endif
