#ifndef SHIM_FACTORY_H
#define SHIM_FACTORY_H
#include <vector>
#include <cstddef>
#include <mutex>
// Object pools.  KOGNAC's keep released objects for reuse without re-running constructors; so do these.
template<class K> class Factory {
    std::vector<K*> all, avail;
    public:
        Factory() {}
        Factory(int) {}
        K *get() { if (!avail.empty()) { K *k = avail.back(); avail.pop_back(); return k; } K *k = new K(); all.push_back(k); return k; }
        void release(K *k) { avail.push_back(k); }
        ~Factory() { for (auto k : all) delete k; }
    private:
        Factory(const Factory &); void operator=(const Factory &);
};
template<class K> class PreallocatedFactory {
    std::vector<K*> all, avail;
    public:
        PreallocatedFactory(int = 0, int = 0) {}
        K *get() { if (!avail.empty()) { K *k = avail.back(); avail.pop_back(); return k; } K *k = new K(); all.push_back(k); return k; }
        void release(K *k) { avail.push_back(k); }
        ~PreallocatedFactory() { for (auto k : all) delete k; }
};
template<class K> class PreallocatedArraysFactory {
    int sz; std::vector<K*> all, avail;
    public:
        PreallocatedArraysFactory(int size, int = 0, int = 0) : sz(size) {}
        K *get() { if (!avail.empty()) { K *k = avail.back(); avail.pop_back(); return k; } K *k = new K[sz](); all.push_back(k); return k; }
        void release(K *k) { avail.push_back(k); }
        ~PreallocatedArraysFactory() { for (auto k : all) delete[] k; }
};
template<class K> class PreallocatedStratArraysFactory {
    int sz; std::vector<K*> all, avail; std::mutex m;
    public:
        PreallocatedStratArraysFactory(int size, int = 0, int = 0) : sz(size) {}
        K *get() { std::lock_guard<std::mutex> g(m); if (!avail.empty()) { K *k = avail.back(); avail.pop_back(); return k; } K *k = new K[sz](); all.push_back(k); return k; }
        void release(K *k) { std::lock_guard<std::mutex> g(m); avail.push_back(k); }
        ~PreallocatedStratArraysFactory() { for (auto k : all) delete[] k; }
};
#endif
