// Drives the range cache on its own.
#include "harness.h"
#include <algorithm>
#include <trident/kb/cacheidx.h>
using namespace std;
typedef vector<long long> R_;
static void run(vector<string> &lines) {
    CacheIdx c;
    for (auto &ln : lines) {
        istringstream is(ln); string op; long long key; is >> op >> key;
        if (op == "store") {      // store key nblocks (s e sa ea)* npairs (a b)*
            auto *bl = new vector<CacheBlock>(); auto *ps = new vector<pair<uint64_t, uint64_t>>(); vector<R_> lb, lp; int n; is >> n;
            for (int i = 0; i < n; ++i) { CacheBlock b; is >> b.startKey >> b.endKey >> b.startArray >> b.endArray; bl->push_back(b); lb.push_back(R_{(long long) b.startKey, (long long) b.endKey, (long long) b.startArray, (long long) b.endArray}); }
            is >> n; for (int i = 0; i < n; ++i) { uint64_t a, b; is >> a >> b; ps->push_back(make_pair(a, b)); lp.push_back(R_{(long long) a, (long long) b}); }
            c.storeIdx(key, bl, ps); Js("store").i("key", key).arr2("blocks", lb).arr2("pairs", lp).log();
        } else {
            auto p = c.getIndex(key); vector<R_> bl, ps;
            if (p.second) for (auto &b : *p.second) bl.push_back(R_{(long long) b.startKey, (long long) b.endKey, (long long) b.startArray, (long long) b.endArray});
            if (p.first) for (auto &x : *p.first) ps.push_back(R_{(long long) x.first, (long long) x.second});
            Js("get").i("key", key).b("found", p.first != NULL && p.second != NULL).b("half", (p.first == NULL) != (p.second == NULL)).arr2("blocks", bl).arr2("pairs", ps).log();
        }
    }
}
int main(int argc, char **argv) { return h_main(argc, argv, run, 10); }
