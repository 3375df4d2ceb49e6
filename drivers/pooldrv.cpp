// Drives StructPool, InitZeroStructPool, Pool, VarPool and the list sort behind them.
#include "harness.h"
#include <map>
#include "infra/util/Pool.hpp"
#include "infra/util/VarPool.hpp"
using namespace std;
typedef vector<string> W;
static W split(const string &l) { istringstream s(l); W w; string x; while (s >> x) w.push_back(x); return w; }
static long ctors = 0, dtors = 0; static bool boom = false; static map<void *, int> built;
template <int N> struct Raw { char b[N]; };
struct Al { double d; char c; };
template <int N> struct Obj {
    char b[N];
    Obj() { if (boom) throw 7; ++ctors; built[this]++; }
    Obj(const Obj &) { if (boom) throw 7; ++ctors; built[this]++; }
    ~Obj() { ++dtors; built[this]--; }
};
struct Iface { virtual ~Iface() {} virtual void *alloc(int how) = 0; virtual void free(void *) = 0; virtual void freeAll() = 0; virtual vector<void *> all() = 0; virtual size_t size() = 0; virtual size_t align() = 0; };
template <class T> struct Coll { vector<void *> v; void operator()(T *t) { v.push_back(t); } };
template <class P, class T> struct Impl : Iface {
    P p; Impl(int cs) : p(cs) {}
    void *alloc(int) { return p.alloc(); }
    void free(void *x) { p.free((T *)x); }
    void freeAll() { p.freeAll(); }
    vector<void *> all() { Coll<T> c; p.enumAll(c); return c.v; }
    size_t size() { return sizeof(T); } size_t align() { return alignof(T); }
};
template <class T> struct ImplP : Iface {
    Pool<T> p; ImplP(int cs) : p(cs) {}
    void *alloc(int how) { if (how == 1) { static T *t = NULL; if (!t) { bool b = boom; boom = false; t = new T(); --ctors; built.erase(t); boom = b; } return p.alloc(*t); } return p.alloc(); }
    void free(void *x) { p.free((T *)x); }
    void freeAll() { p.freeAll(); }
    vector<void *> all() { Coll<T> c; p.enumAll(c); return c.v; }
    size_t size() { return sizeof(T); } size_t align() { return alignof(T); }
};
struct VarT { unsigned h; char d[1]; };
struct ImplV : Iface {
    VarPool<VarT> p; size_t n; ImplV(int extra, int cs) : p(extra, cs), n(VarPool<VarT>::basicSize + extra) {}
    void *alloc(int) { return p.alloc(); }
    void free(void *x) { p.free((VarT *)x); }
    void freeAll() { p.freeAll(); }
    vector<void *> all() { Coll<VarT> c; p.enumAll(c); return c.v; }
    size_t size() { return n; } size_t align() { return alignof(VarT); }
};
static Iface *make(const string &k, int a, int cs) {
    if (k == "S") switch (a) { case 1: return new Impl<StructPool<Raw<1> >, Raw<1> >(cs); case 8: return new Impl<StructPool<Raw<8> >, Raw<8> >(cs); case 12: return new Impl<StructPool<Raw<12> >, Raw<12> >(cs);
        case 100: return new Impl<StructPool<Raw<100> >, Raw<100> >(cs); default: return new Impl<StructPool<Al>, Al>(cs); }
    if (k == "Z") switch (a) { case 1: return new Impl<InitZeroStructPool<Raw<1> >, Raw<1> >(cs); case 12: return new Impl<InitZeroStructPool<Raw<12> >, Raw<12> >(cs); default: return new Impl<InitZeroStructPool<Al>, Al>(cs); }
    if (k == "P") switch (a) { case 1: return new ImplP<Obj<1> >(cs); case 12: return new ImplP<Obj<12> >(cs); default: return new ImplP<Obj<40> >(cs); }
    return new ImplV(a, cs);
}
static void scenario(vector<string> &lines) {
    Iface *p = NULL; map<void *, int> ids; map<void *, int> stamp; vector<void *> live; int next = 1;
    auto id = [&](void *x) { auto i = ids.find(x); if (i != ids.end()) return i->second; int n = (int)ids.size() + 1; return ids[x] = n; };
    auto fill = [&](void *x) { stamp[x] = next++; memset(x, stamp[x] & 127 | 128, p->size()); };
    for (auto &line : lines) {
        W w = split(line); const string &o = w[0]; auto A = [&](size_t i) { return i < w.size() ? atol(w[i].c_str()) : 0; };
        if (o == "new") { p = make(w[1], A(2), A(3)); Js("pool").str("k", w[1]).log(); }
        else if (o == "alloc") {
            boom = A(2); void *x = NULL; bool thrown = false;
            try { x = p->alloc(A(1)); } catch (int) { thrown = true; }
            boom = false;
            if (thrown) { Js("boom").i("ctors", ctors).i("dtors", dtors).log(); continue; }
            bool zero = true; for (size_t i = 0; i < p->size(); ++i) if (((char *)x)[i]) zero = false;
            Js("alloc").i("id", id(x)).b("al", ((size_t)x) % p->align() == 0).b("zero", zero).i("ctors", ctors).i("dtors", dtors).log();
            fill(x); live.push_back(x);
        }
        else if (o == "free") { if (live.empty()) { continue; } size_t i = A(1) % live.size(); void *x = live[i]; live.erase(live.begin() + i); p->free(x); Js("free").i("id", id(x)).i("ctors", ctors).i("dtors", dtors).log(); }
        else if (o == "null") { if (dynamic_cast<ImplV *>(p)) continue; p->free(NULL); Js("null").i("ctors", ctors).i("dtors", dtors).log(); }
        else if (o == "enum") { vector<int> v; for (void *x : p->all()) v.push_back(id(x)); Js("enum").arr("v", v).log(); }
        else if (o == "check") {
            vector<vector<int> > v; for (void *x : live) { int bad = 0; for (size_t i = 0; i < p->size(); ++i) if (((unsigned char *)x)[i] != (stamp[x] & 127 | 128)) ++bad; int b = built.count(x) ? built[x] : 0; v.push_back({id(x), bad, b}); }
            Js("check").arr2("v", v).log();
        }
        else if (o == "freeall" || o == "del") { if (o == "del") { delete p; p = NULL; } else p->freeAll(); live.clear(); ids.clear(); stamp.clear(); 
            int left = 0; for (auto &b : built) if (b.second) ++left; built.clear(); Js(o.c_str()).i("ctors", ctors).i("dtors", dtors).i("left", left).log(); }
        else if (o == "sort") {
            vector<void *> c(w.size() - 1, nullptr); vector<long> idx; for (size_t i = 1; i < w.size(); ++i) idx.push_back(A(i));
            for (size_t i = 0; i + 1 < idx.size(); ++i) c[idx[i]] = &c[idx[i + 1]];
            void *h = idx.empty() ? NULL : &c[idx[0]]; vector<int> r; size_t n = 0;
            for (void *x = PoolHelper::sort(h); x && n < 2 * c.size() + 4; x = *(void **)x, ++n) r.push_back((int)((void **)x - c.data()));
            Js("sort").arr("a", idx).arr("r", r).log();
        }
    }
}
int main(int argc, char **argv) { return h_main(argc, argv, scenario, 20); }
