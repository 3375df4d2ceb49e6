// Shared by all drivers.  A driver reads a script (one command per line), runs every scenario
// ("scn <id>" up to the next one) in a child process, and writes one JSON event per line.  A scenario whose child does not
// end normally gets a closing {"op":"abort"} event, which no specification accepts.
#ifndef VERIF_HARNESS_H
#define VERIF_HARNESS_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <unistd.h>
#include <signal.h>
#include <ftw.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/time.h>

static FILE *h_out = NULL;
static std::string h_scratch;

struct Js {
    std::string s; bool first;
    Js(const char *op) : first(false) { s = std::string("{\"op\":\"") + op + "\""; }
    Js &k(const char *n) { s += ",\""; s += n; s += "\":"; return *this; }
    Js &i(const char *n, long long v) { k(n); s += std::to_string(v); return *this; }
    Js &b(const char *n, bool v) { k(n); s += v ? "true" : "false"; return *this; }
    static std::string q(const std::string &v) {
        std::string o = "\"";
        for (unsigned char c : v) {
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
            else o += c;
        }
        return o + "\"";
    }
    Js &str(const char *n, const std::string &v) { k(n); s += q(v); return *this; }
    Js &raw(const char *n, const std::string &v) { k(n); s += v; return *this; }
    template<class T> Js &arr(const char *n, const std::vector<T> &v) {
        k(n); s += "[";
        for (size_t j = 0; j < v.size(); ++j) { if (j) s += ","; s += std::to_string(v[j]); }
        s += "]"; return *this;
    }
    template<class T> Js &arr2(const char *n, const std::vector<std::vector<T>> &v) {
        k(n); s += "[";
        for (size_t j = 0; j < v.size(); ++j) {
            if (j) s += ","; s += "[";
            for (size_t m = 0; m < v[j].size(); ++m) { if (m) s += ","; s += std::to_string(v[j][m]); }
            s += "]";
        }
        s += "]"; return *this;
    }
    Js &strs(const char *n, const std::vector<std::string> &v) {
        k(n); s += "[";
        for (size_t j = 0; j < v.size(); ++j) { if (j) s += ","; s += q(v[j]); }
        s += "]"; return *this;
    }
    void log() { s += "}\n"; fputs(s.c_str(), h_out); fflush(h_out); }
};

static int h_rmone(const char *p, const struct stat *, int, struct FTW *) { return ::remove(p); }
static void h_rmtree(const std::string &d) { if (!d.empty() && d.find("/verif-scratch-") != std::string::npos) nftw(d.c_str(), h_rmone, 16, FTW_DEPTH | FTW_PHYS); }

typedef std::function<void(std::vector<std::string> &lines)> ScenarioFn;

// usage: driver SCRIPT OUT SCRATCHPARENT
static int h_main(int argc, char **argv, ScenarioFn fn, int cpuSecs = 60) {
    if (argc < 4) { fprintf(stderr, "usage: %s SCRIPT OUT SCRATCH\n", argv[0]); return 2; }
    std::ifstream in(argv[1]); if (!in) { perror(argv[1]); return 2; }
    std::string outp = argv[2];
    { FILE *f = fopen(outp.c_str(), "w"); if (!f) return 2; fclose(f); }
    std::vector<std::pair<std::string, std::vector<std::string>>> scn;
    std::string line;
    while (getline(in, line)) {
        if (line.compare(0, 4, "scn ") == 0) { scn.push_back(std::make_pair(line.substr(4), std::vector<std::string>())); }
        else if (!scn.empty() && !line.empty() && line[0] != '#') scn.back().second.push_back(line);
    }
    for (auto &s : scn) {
        char tmpl[4096]; snprintf(tmpl, sizeof tmpl, "%s/verif-scratch-XXXXXX", argv[3]);
        if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
        std::string sc = tmpl;
        fflush(NULL);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); return 2; }
        if (pid == 0) {
            setpgid(0, 0);
            struct rlimit rl; rl.rlim_cur = cpuSecs; rl.rlim_max = cpuSecs + 5; setrlimit(RLIMIT_CPU, &rl);
            rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
            h_scratch = sc; setenv("TRIDENT_SCRATCH", sc.c_str(), 1);
            if (chdir(sc.c_str())) _exit(3);
            h_out = fopen(outp.c_str(), "a"); if (!h_out) _exit(3);
            if (!getenv("VERIF_KEEP_STDERR")) { int n = open("/dev/null", O_WRONLY); if (n >= 0) { dup2(n, 1); dup2(n, 2); } }
            Js("scn").str("id", s.first).log();
            int rc = 0;
            try { fn(s.second); }
            catch (int e) { Js("abort").str("why", "uncaught exception int " + std::to_string(e)).log(); rc = 0; }
            catch (std::exception &e) { Js("abort").str("why", std::string("uncaught exception ") + e.what()).log(); }
            catch (...) { Js("abort").str("why", "uncaught exception").log(); }
            Js("end").log();
            fclose(h_out);
            _exit(rc ? rc : 77);   // 77: the scenario ran to its end
        }
        int st = 0, waited = 0; bool hung = false;
        while (true) {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) break;
            usleep(waited < 2000 ? 200 : 5000); waited++;
            if (waited > 2000 + 200 * (cpuSecs * 4)) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
        }
        kill(-pid, SIGKILL);
        if (hung || !WIFEXITED(st) || WEXITSTATUS(st) != 77) {
            h_out = fopen(outp.c_str(), "a"); 
            std::string why = hung ? "no progress" : WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
            fseek(h_out, 0, SEEK_END);
            // the child may have been cut inside a line
            { FILE *r = fopen(outp.c_str(), "r"); if (r) { if (fseek(r, -1, SEEK_END) == 0) { int c = fgetc(r); if (c != '\n') fputs("\n", h_out); } fclose(r); } }
            Js("abort").str("why", why).log();
            fclose(h_out);
        }
        h_rmtree(sc);
    }
    return 0;
}
#endif
