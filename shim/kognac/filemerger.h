#ifndef SHIM_FM_H
#define SHIM_FM_H
#include <kognac/lz4io.h>
#include <memory>
// K-way merge of sorted runs.  With extensions, run F is stored in F.0, F.1, ...
template<class K> class FileMerger {
    struct Run { std::string name; bool ext, del; int idx; std::unique_ptr<LZ4Reader> r; std::string cur; bool ok; K head; };
    std::vector<std::unique_ptr<Run>> runs;
    void advance(Run &x) {
        while (true) {
            if (x.r && !x.r->isEof()) { x.head.readFrom(x.r.get()); x.ok = true; return; }
            if (x.r) { x.r.reset(); if (x.del) Utils::remove(x.cur); }
            if (x.idx > 0 && !x.ext) { x.ok = false; return; }
            std::string n = x.ext ? x.name + "." + std::to_string(x.idx) : x.name;
            if (x.ext && x.idx == 0 && !Utils::exists(n) && Utils::exists(x.name)) { n = x.name; x.ext = false; }
            x.idx++;
            if (!Utils::exists(n)) { x.ok = false; return; }
            x.cur = n; x.r.reset(new LZ4Reader(n));
        }
    }
    public:
        FileMerger(std::vector<std::string> fn, bool ext = false, bool del = false) {
            for (auto &f : fn) { std::unique_ptr<Run> x(new Run()); x->name = f; x->ext = ext; x->del = del; x->idx = 0; x->ok = false; advance(*x); runs.push_back(std::move(x)); }
        }
        bool isEmpty() { for (auto &r : runs) if (r->ok) return false; return true; }
        K get() {
            Run *best = NULL;
            for (auto &r : runs) if (r->ok && (!best || best->head.greater(r->head))) best = r.get();
            K k = best->head; advance(*best); return k;
        }
};
template<int N, class K> class FastFileMerger : public FileMerger<K> {
    public: FastFileMerger(std::vector<std::string> fn, bool ext = false, bool del = false) : FileMerger<K>(fn, ext, del) {}
};
#endif
