// Drives ArrayItr and RmItr through the PairItr interface (no access to internals).
#include "harness.h"
#include <trident/iterators/arrayitr.h>
#include <trident/iterators/rmitr.h>
#include <map>
#include <memory>
using namespace std;
// abstract value -> concrete identifier, order preserving
static const uint64_t TAB[] = {0, 1, 255, 256, 65535, 65536, 16777216ULL, 4294967295ULL, 4294967296ULL, 1099511627775ULL, 1152921504606846976ULL, 1152921504606846977ULL};
static int shift = 0;
static int64_t conc(long a) { return a < 0 ? -1 : (shift ? TAB[a] : a); }
static long long abst(int64_t v) { if (v == -1) return -1; if (!shift) return v; for (int i = 0; i < 12; ++i) if ((int64_t)TAB[i] == v) return i; return -99; }

static void run(vector<string> &lines) {
    unique_ptr<PairItr> keep[8]; int nk = 0; PairItr *it = NULL; bool ign = false;
    auto arr = [&](vector<pair<long,long>> rows, long c1, long c2, int64_t key) -> PairItr* {
        shared_ptr<Pairs> p(new Pairs());
        for (auto &r : rows) p->push_back(make_pair((uint64_t)conc(r.first), (uint64_t)conc(r.second)));
        ArrayItr *a = new ArrayItr(); a->init(p, conc(c1), conc(c2)); a->setKey(key); keep[nk++].reset(a); return a;
    };
    for (auto &ln : lines) {
        istringstream is(ln); string op; is >> op;
        if (op == "open") {      // open kind shift ign c1 c2 nrows rows.. nrm rm..
            string kind; int ig; long c1, c2; is >> kind >> shift >> ig >> c1 >> c2; ign = ig;
            vector<pair<long,long>> rows, rm; int n; long a, b;
            is >> n; for (int i = 0; i < n; ++i) { is >> a >> b; rows.push_back({a, b}); }
            is >> n; for (int i = 0; i < n; ++i) { is >> a >> b; rm.push_back({a, b}); }
            int64_t key = 7;
            if (kind == "array") { it = arr(rows, c1, c2, key); if (c1 != -1) it->setConstraint1(conc(c1)); if (c2 != -1) it->setConstraint2(conc(c2)); }
            else {
                PairItr *m = arr(rows, c1, c2, key), *d = arr(rm, c1, c2, key); if (c1 != -1) { m->setConstraint1(conc(c1)); d->setConstraint1(conc(c1)); }
                if (c2 != -1) { m->setConstraint2(conc(c2)); d->setConstraint2(conc(c2)); }
                long nf = 0;   // first components whose pairs are all removed
                for (size_t i = 0; i < rows.size(); ++i) {
                    if (i && rows[i].first == rows[i - 1].first) continue;
                    bool all = true; for (auto &r : rows) if (r.first == rows[i].first) { bool f = false; for (auto &x : rm) f |= x == r; all &= f; }
                    nf += all;
                }
                RmItr *r = new RmItr(); r->init(m, d, nf); r->setKey(key); keep[nk++].reset(r); it = r;
            }
            if (ign) it->ignoreSecondColumn();
            vector<vector<long>> R, M; for (auto &r : rows) R.push_back({r.first, r.second}); for (auto &r : rm) M.push_back({r.first, r.second});
            Js("open").str("kind", kind).arr2("rows", R).arr2("rm", M).i("c1", c1).i("c2", c2).b("ign", ign).log();
        } else if (op == "hasnext") Js("hasnext").b("r", it->hasNext()).log();
        else if (op == "next") {
            it->next();
            Js("next").i("a", abst(it->getValue1())).i("b", ign ? -1 : abst(it->getValue2())).log();
            if (it->getKey() != 7) Js("key").i("r", it->getKey()).i("want", 7).log();
        } else if (op == "count") Js("count").i("r", it->getCount()).log();
        else if (op == "card") { Js("card").i("r", it->getCardinality()).log(); }
        else if (op == "moveto") { long a, b; is >> a >> b; it->moveto(conc(a), conc(b)); Js("moveto").i("a", a).i("b", b).log(); }
        else if (op == "mark") { it->mark(); Js("mark").log(); }
        else if (op == "reset") { it->reset(0); Js("reset").log(); }
    }
}
int main(int argc, char **argv) { return h_main(argc, argv, run, 20); }
