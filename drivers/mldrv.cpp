// Drives batch sources, embeddings and subgraph stores.
#include "harness.h"
#include <trident/loader.h>
#include <trident/kb/kb.h>
#include <trident/kb/querier.h>
#include <trident/kb/kbconfig.h>
#include <trident/ml/batch.h>
#include <trident/ml/feedback.h>
#include <trident/ml/embeddings.h>
#include <trident/ml/subgraphs.h>
#include <map>
#include <set>
#include <memory>
#include <cmath>
using namespace std;
typedef vector<long long> R_;
static const int64_t BIG[] = {0, 1, 2, 254, 255, 256, 257, 65535, 65536, 65537, 16777215, 16777216, 16777217, 4294967294LL, 4294967295LL, 4294967296LL, 4294967297LL,
    1099511627775LL >> 1, (1099511627775LL >> 1) + 1, 1099511627774LL};
static vector<int64_t> ids;
static int64_t conc(long a) { if (a < 0) return a; if (a < (long) ids.size()) return ids[a]; return (ids.empty() ? 0 : ids.back()) + 1 + (a - (long) ids.size()); }
static long long abst(int64_t c) { auto it = lower_bound(ids.begin(), ids.end(), c); if (it != ids.end() && *it == c) return it - ids.begin(); return -1000 - (c & 0xffff); }
static string kbdir() { return h_scratch + "/kb"; }
// a value of an embedding; averages and variances of up to 16 whole numbers are exact
static long long fix(double d) { double x = d * 720720; if (!(fabs(x) < 2e9)) return -7; return llround(x); }
struct SubP : public VarSubgraphs<double> { SubP() {} SubP(uint16_t d, uint64_t m) : VarSubgraphs<double>(d, m) {} const vector<double> &p() const { return params; } uint64_t mc() const { return mincard; } uint16_t dm() const { return dim; } };
struct AvgP : public AvgSubgraphs<double> { AvgP() {} AvgP(uint16_t d, uint64_t m) : AvgSubgraphs<double>(d, m) {} const vector<double> &p() const { return params; } uint64_t mc() const { return mincard; } uint16_t dm() const { return dim; } };
template<class S> static void dumpSub(const char *op, S &s, const vector<double> &zero, bool var) {
    vector<R_> meta, par, dist; uint16_t dim = s.dm();
    for (uint64_t i = 0; i < s.getNSubgraphs(); ++i) {
        auto &m = s.getMeta(i); meta.push_back(R_{m.t == Subgraphs<double>::SP ? 1 : 0, abst(m.ent), abst(m.rel), (long long) m.size, (long long) m.id});
        R_ r; for (int k = 0; k < dim; ++k) r.push_back(s.p().size() > i * dim + k ? fix(s.p()[i * dim + k]) : -8); par.push_back(r);
        vector<double> e(zero); R_ d; 
        if (!var) d.push_back(fix(s.l1(NULL, i, e.data(), dim)));
        else { VarSubgraphs<double> *v = (VarSubgraphs<double> *) (void *) &s; // sum of the variances: the distance from the averages themselves
            for (int k = 0; k < dim; ++k) e[k] = s.p()[i * dim + k]; d.push_back(fix(v->l3NoSquare(NULL, i, e.data(), dim))); }
        dist.push_back(d);
    }
    Js(op).arr2("meta", meta).arr2("par", par).arr2("dist", dist).i("left", (long long) s.p().size() - (long long) (s.getNSubgraphs() * dim)).i("dim", dim).i("mincard", s.mc()).log();
}
static void dumpEmb(const char *op, shared_ptr<Embeddings<double>> e) {
    vector<R_> rows; vector<long long> cf, up;
    for (uint32_t i = 0; i < e->getN(); ++i) { R_ r; for (int k = 0; k < e->getDim(); ++k) r.push_back(fix(e->get(i)[k])); rows.push_back(r); cf.push_back(e->getNConflicts(i)); up.push_back(e->getNUpdates(i)); }
    Js(op).i("n", e->getN()).i("dim", e->getDim()).arr2("rows", rows).arr("conf", cf).arr("upd", up).log();
}
static void run(vector<string> &lines) {
    vector<R_> buf; unique_ptr<BatchCreator> bc; map<int64_t, int> relno; vector<int64_t> rels; bool ranks = true; long bs = 1;
    shared_ptr<Embeddings<double>> E; unique_ptr<AvgP> A; unique_ptr<SubP> V; int nst = 0;
    auto P = [&](uint64_t p) -> long long { if (!ranks) return abst(p); return p < rels.size() ? abst(rels[p]) : -1; };
    auto trs = [&](const vector<uint64_t> &v) { vector<R_> o; for (size_t i = 0; i + 2 < v.size(); i += 3) o.push_back(R_{abst(v[i]), P(v[i + 1]), abst(v[i + 2])}); return o; };
    for (auto &ln : lines) {
        istringstream is(ln); string op; is >> op;
        if (op == "T") { long long s, p, o; while (is >> s >> p >> o) buf.push_back(R_{s, p, o}); }
        else if (op == "load") {
            map<string, long> o; string kv; while (is >> kv) { size_t e = kv.find('='); o[kv.substr(0, e)] = atol(kv.c_str() + e + 1); }
            auto g = [&](const char *k, long d) { return o.count(k) ? o[k] : d; };
            long nt = g("nt", 0), big = g("big", 0); ids.clear(); for (long i = 0; i < nt; ++i) ids.push_back(big ? BIG[i] : i);
            string tf = h_scratch + "/tr"; { ofstream f(tf); for (auto &r : buf) f << conc(r[0]) << " " << conc(r[1]) << " " << conc(r[2]) << "\n"; }
            ParamsLoad p; p.inputCompressed = true; p.triplesInputDir = tf; p.dictDir = ""; p.kbDir = kbdir(); p.tmpDir = kbdir(); p.sample = false;
            p.nindices = g("nind", 6); p.aggrIndices = g("aggr", 0); p.canSkipTables = g("skip", 0); p.thresholdSkipTable = g("thr", 20);
            long fx = g("lay", 0) == 1 ? (long) FIXEDSTRAT5 : g("lay", 0) == 2 ? (long) FIXEDSTRAT6 : -1L; p.enableFixedStrat = fx >= 0; if (fx >= 0) p.fixedStrat = fx;
            p.parallelThreads = g("threads", 1); p.maxReadingThreads = 1; p.flatTree = 0; p.relsOwnIDs = false; p.storePlainList = 0;
            Loader l; l.load(p);
            set<int64_t> R; for (auto &r : buf) R.insert(conc(r[1])); rels.assign(R.begin(), R.end()); relno.clear(); for (size_t i = 0; i < rels.size(); ++i) relno[rels[i]] = i;
            Js("load").arr2("triples", buf).log(); buf.clear();
        }
        else if (op == "source") {   // source batchsize valid% test% file filter
            long v, t, file, fl; is >> bs >> v >> t >> file >> fl; ranks = file;
            bc.reset(new BatchCreator(kbdir(), bs, 1, v / 100.0f, t / 100.0f, fl, file, shared_ptr<Feedback>(new Feedback(0, 1))));
            Js("source").i("bs", bs).i("v", v).i("t", t).log();
        }
        else if (op == "start") {    // start s p o
            long s, p, o; is >> s >> p >> o;
            int64_t cp = p < 0 ? -1 : relno.count(conc(p)) ? relno[conc(p)] : (int64_t) rels.size() + p;
            bc->start(conc(s), cp, conc(o));
            vector<uint64_t> held[2];
            for (int w = 0; w < 2; ++w) { string f = w ? bc->getTestPath() : bc->getValidPath(); if (Utils::exists(f) && Utils::fileSize(f) > 0) BatchCreator::loadTriples(f, held[w]); }
            Js("start").arr("c", vector<long>{s, p, o}).i("batches", bc->getNBatches()).arr2("valid", trs(held[0])).arr2("test", trs(held[1])).log();
        }
        else if (op == "batch") {    // batch kind
            int k; is >> k; vector<uint64_t> a, b, c; bool r;
            if (k) { r = bc->getBatch(a, b, c); vector<uint64_t> x; for (size_t i = 0; i < a.size() && i < b.size() && i < c.size(); ++i) { x.push_back(a[i]); x.push_back(b[i]); x.push_back(c[i]); } a = x; }
            else r = bc->getBatch(a);
            Js("batch").b("r", r).arr2("rows", trs(a)).log();
        }
        else if (op == "batchnr") { long n; is >> n; vector<uint64_t> a, b, c, x; bool r = bc->getBatchNr(n, a, b, c); for (size_t i = 0; i < a.size() && i < b.size() && i < c.size(); ++i) { x.push_back(a[i]); x.push_back(b[i]); x.push_back(c[i]); } Js("batchnr").i("n", n).b("r", r).arr2("rows", trs(x)).log(); }
        else if (op == "shuffle") { bc->shuffle(); Js("shuffle").log(); }
        else if (op == "emb") {      // emb n dim mem seed
            long n, d, mem, sd; is >> n >> d >> mem >> sd; if (chdir(h_scratch.c_str())) exit(1); E.reset(new Embeddings<double>(n, d, mem)); unsigned x = sd * 7919 + 13;
            for (long i = 0; i < n * d; ++i) { x = x * 1103515245u + 12345u; E->getRaw()[i] = (double) ((int) (x >> 16) % 17 - 8); }
            dumpEmb("emb", E);
        }
        else if (op == "einit") {    // einit threads normalise
            long th, nz; is >> th >> nz; E->init(th, nz); double lim = 6.0 / sqrt(E->getN() + E->getDim()); bool ok = true;
            for (uint32_t i = 0; i < E->getN(); ++i) { double s = 0; bool z = true; for (int k = 0; k < E->getDim(); ++k) { double v = E->get(i)[k]; s += v * v; if (v != 0) z = false; if (nz && !(v >= -1.0000001 && v <= 1.0000001)) ok = false; if (!nz && !(v >= -lim && v <= lim)) ok = false; }
                if (z) ok = false; if (nz && !(fabs(s - 1) < 1e-9)) ok = false; }
            Js("einit").b("ok", ok).log(); dumpEmb("filled", E);
        }
        else if (op == "eset") { long i, k, v; is >> i >> k >> v; E->get(i)[k] = v; Js("eset").i("i", i).i("k", k).i("v", fix(v)).log(); }
        else if (op == "econf") { long i; is >> i; E->incrConflict(i); Js("econf").i("i", i).log(); }
        else if (op == "eupd") { long i; is >> i; E->incrUpdates(i); Js("eupd").i("i", i).log(); }
        else if (op == "epost") { E->postprocessUpdates(); Js("epost").log(); }
        else if (op == "estore") { long c, t; is >> c >> t; E->store(h_scratch + "/emb" + to_string(++nst), c, t); Js("estore").log(); }
        else if (op == "eload") { E = Embeddings<double>::load(h_scratch + "/emb" + to_string(nst)); dumpEmb("eload", E); }
        else if (op == "sub") {      // sub avg|var mincard : subgraphs of the store with the current embeddings
            string k; long mc; is >> k >> mc; KBConfig c; KB kb(kbdir().c_str(), true, false, false, c); unique_ptr<Querier> q(kb.query()); vector<double> z(E->getDim(), 0.0);
            if (k == "avg") { A.reset(new AvgP(E->getDim(), mc)); V.reset(); A->calculateEmbeddings(q.get(), E, E); dumpSub("avg", *A, z, false); }
            else { V.reset(new SubP(E->getDim(), mc)); A.reset(); V->calculateEmbeddings(q.get(), E, E); dumpSub("var", *V, z, true); }
        }
        else if (op == "sstore") { if (A) { A->storeToFile(h_scratch + "/sub"); A.reset(new AvgP()); A->loadFromFile(h_scratch + "/sub"); vector<double> z(A->dm(), 0.0); dumpSub("again", *A, z, false); }
            else { V->storeToFile(h_scratch + "/sub"); V.reset(new SubP()); V->loadFromFile(h_scratch + "/sub"); vector<double> z(V->dm(), 0.0); dumpSub("again", *V, z, true); } }
        else { fprintf(stderr, "unknown op %s\n", op.c_str()); exit(9); }
    }
}
int main(int argc, char **argv) { return h_main(argc, argv, run, 10); }
