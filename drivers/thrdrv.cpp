// Drives Mutex, Event, Thread and Scheduler under the stand-in for the thread library.
#include "coop.h"
#include "infra/osdep/Mutex.hpp"
#include "infra/osdep/Event.hpp"
#include "infra/osdep/Thread.hpp"
#include "rts/operator/Scheduler.hpp"
#include "rts/operator/Operator.hpp"
using namespace std;
typedef vector<string> W;
static W split(const string &l) { istringstream s(l); W w; string x; while (s >> x) w.push_back(x); return w; }
static vector<int64_t> nums(const string &x) { vector<int64_t> v; string c; for (char ch : x + ".") { if (ch == '.') { if (!c.empty()) v.push_back(atoll(c.c_str())); c.clear(); } else c += ch; } return v; }
static Mutex *mu[4]; static Event *ev[4];
struct Prog { W ops; int n; };
static int64_t clk() { return coop::now_us / 1000; }
static int tid() { return coop::me->id; }
static void call(const char *f, int64_t m, int64_t c, int64_t ms) { Js("call").i("t", tid()).str("f", f).i("m", m).i("c", c).i("ms", ms).i("clk", clk()).log(); }
static void ret(const char *f, int64_t r) { Js("ret").i("t", tid()).str("f", f).i("r", r).i("clk", clk()).log(); }
static size_t runOps(const W &o, size_t i, int stopAt) {
    while (i < o.size()) {
        char k = o[i][0]; vector<int64_t> a = nums(o[i].substr(1)); a.resize(3);
        int m = (int)a[0], c = (int)a[1];
        if (k == 'Z') { if (m == stopAt) return i; ++i; continue; }
        switch (k) {
            case 'L': call("lock", m, 0, 0); mu[m]->lock(); ret("lock", 1); break;
            case 'U': call("unlock", m, 0, 0); mu[m]->unlock(); ret("unlock", 1); break;
            case 'T': { call("try", m, 0, 0); bool r = mu[m]->tryLock(); ret("try", r);
                        if (!r) { string u = "U" + to_string(m); while (i < o.size() && o[i] != u) ++i; } break; }
            case 'A': { call("lock", m, 0, 0); size_t j; { auto_lock g(*mu[m]); ret("lock", 1); j = runOps(o, i + 1, m); call("unlock", m, 0, 0); } ret("unlock", 1); i = j; break; }
            case 'W': call("wait", m, c, 0); ev[c]->wait(*mu[m]); ret("wait", 1); break;
            case 'D': { call("twait", m, c, a[2]); bool r = ev[c]->timedWait(*mu[m], (unsigned)a[2]); ret("twait", r); break; }
            case 'N': call("notify", m, c, 0); ev[c]->notify(*mu[m]); ret("notify", 1); break;
            case 'B': call("all", m, c, 0); ev[c]->notifyAll(*mu[m]); ret("all", 1); break;
            case 'Y': call("yield", 0, 0, 0); Thread::yield(); ret("yield", 1); break;
            case 'S': call("sleep", 0, 0, a[0]); Thread::sleep((unsigned)a[0]); ret("sleep", 1); break;
            case 'G': call("ticks", 0, 0, 0); ret("ticks", (int64_t)(Thread::getTicks())); break;
            case 'I': { call("id", 0, 0, 0); int64_t x = Thread::threadID(); vector<int64_t> same;
                        static map<int64_t, int> ids; if (!ids.count(x)) { int z = (int)ids.size(); ids[x] = z; } ret("id", ids[x]); break; }
        }
        ++i;
    }
    return i;
}
static void body(void *p) { Prog *q = (Prog *)p; Js("begin").i("t", tid()).i("n", q->n).log(); runOps(q->ops, 0, -1); Js("fin").i("t", tid()).i("n", q->n).log(); }
struct Reg { int id, cls; double prio; int dep, y; };
struct Pt : public Scheduler::AsyncPoint {
    Reg g; Pt(const Reg &g) : g(g) {}
    void run() { Js("run").i("i", g.id).i("t", tid()).log(); for (int i = 0; i < g.y; ++i) coop::point(); Js("done").i("i", g.id).i("t", tid()).log(); }
};
struct Root : public Operator {
    vector<Pt *> pts; int n, k; Root() : Operator(0), n(0), k(0) {}
    uint64_t first() { k = 0; Js("first").i("t", tid()).log(); coop::point(); return k++ < n ? 1 : 0; }
    uint64_t next() { Js("next").i("t", tid()).log(); coop::point(); return k++ < n ? 1 : 0; }
    void print(PlanPrinter &) {}
    void addMergeHint(Register *, Register *) {}
    void getAsyncInputCandidates(Scheduler &s) {
        for (Pt *p : pts) { Js("reg").i("i", p->g.id).i("cls", p->g.cls).i("prio", (int64_t)(p->g.prio * 4)).i("dep", p->g.dep).i("had", s.getRegisteredPoints()).log();
            s.registerAsyncPoint(*p, p->g.cls, p->g.prio, p->g.dep); }
    }
};
static void scenario(vector<string> &lines) {
    vector<Prog *> P; Scheduler *S = NULL; Root root; vector<Pt *> all; bool started = false; unsigned seed = 1;
    auto go = [&]() { if (!started) { coop::start(seed); started = true; } };
    for (auto &line : lines) {
        W w = split(line); const string &o = w[0];
        auto A = [&](size_t i) { return i < w.size() ? atoll(w[i].c_str()) : 0; };
        if (o == "seed") { seed = A(1); coop::sticky = A(2); }
        else if (o == "plan") { for (size_t i = 1; i < w.size(); ++i) coop::plan.push_back(A(i)); }
        else if (o == "clock") coop::now_us = A(1);
        else if (o == "prog") { Prog *p = new Prog(); p->n = (int)P.size() + 1; p->ops.assign(w.begin() + 1, w.end()); P.push_back(p); }
        else if (o == "mon") {
            go(); Js("mon").i("n", P.size()).i("clk", clk()).log();
            for (int i = 0; i < 4; ++i) { mu[i] = new Mutex(); ev[i] = new Event(); }
            for (Prog *p : P) { int64_t r = Thread::start(body, p, p->n % 2); Js("started").i("n", p->n).i("r", r).log(); }
            coop::waitAll();
            for (int i = 0; i < 4; ++i) { delete mu[i]; delete ev[i]; }
            Js("quiet").i("clk", clk()).log();
        }
        else if (o == "max") { setenv("MAXTHREADS", w[1].c_str(), 1); }
        else if (o == "new") { go(); Js("new").i("max", atoll(getenv("MAXTHREADS") ? getenv("MAXTHREADS") : "0")).log(); S = new Scheduler(); Js("made").log(); }
        else if (o == "pt") { Reg g = {(int)A(1), (int)A(2), A(3) / 4.0, (int)A(4), (int)A(5)}; root.pts.push_back(new Pt(g)); }
        else if (o == "pause") { for (int i = 0; i < A(1); ++i) coop::point(); }
        else if (o == "exec") { root.n = (int)A(1); Js("exec").i("n", root.n).i("single", A(2)).log(); if (A(2)) S->executeSingleThreaded(&root); else S->execute(&root); Js("execd").log(); root.pts.clear(); }
        else if (o == "del") { Js("del").log(); delete S; S = NULL; Js("gone").log(); coop::waitAll(); Js("quiet").i("clk", clk()).log(); }
    }
    coop::on = false;
}
int main(int argc, char **argv) { return h_main(argc, argv, scenario, 20); }
