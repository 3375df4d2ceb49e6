// Drives the KB: loader, querier, updater, merge, dictionary.  Identifiers are logged as ranks (abstract ids).
#include "harness.h"
#include <trident/loader.h>
#include <trident/kb/kb.h>
#include <trident/kb/querier.h>
#include <trident/kb/kbconfig.h>
#include <trident/kb/updater.h>
#include <trident/kb/dictmgmt.h>
#include <trident/iterators/pairitr.h>
#include <trident/iterators/cacheitr.h>
#include <trident/kb/cacheidx.h>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
using namespace std;
typedef vector<long long> R_;
static const int64_t BIG[] = {0, 1, 2, 254, 255, 256, 257, 65535, 65536, 65537, 16777215, 16777216, 16777217, 4294967294LL, 4294967295LL, 4294967296LL, 4294967297LL,
    1099511627775LL >> 1, (1099511627775LL >> 1) + 1, 1099511627774LL};
static vector<int64_t> ids;      // concrete ids known, in order; the abstract id is the index
static int64_t conc(long a) { if (a < 0) return a; if (a < (long)ids.size()) return ids[a]; return (ids.empty() ? 0 : ids.back()) + 1 + (a - (long)ids.size()); }
static long long abst(int64_t c) { auto it = lower_bound(ids.begin(), ids.end(), c); if (it != ids.end() && *it == c) return it - ids.begin(); return -1000 - (c & 0xffff); }
static map<int, string> vocab;       // terms given by the script
static string unhex(const string &h) { string o; for (size_t i = 0; i + 1 < h.size(); i += 2) o += (char) strtol(h.substr(i, 2).c_str(), NULL, 16); return o; }
static string term(int t) {
    { auto it = vocab.find(t); if (it != vocab.end()) return it->second; }
    switch (t % 5) {   // t % 5 == 4: literals, which are only valid as objects
        case 0: return "<t" + to_string(t) + ">";
        case 1: return "<http://example.org/a/very/long/prefix/that/repeats#t" + to_string(t) + ">";
        case 2: return "<http://example.org/a/very/long/prefix/that/repeats#t" + to_string(t) + "x>";
        case 3: return "<t" + to_string(t / 5) + "x>";
        default: return t % 2 ? "\"lit " + to_string(t) + " with spaces\"" : "\"v" + to_string(t) + "\"^^<http://www.w3.org/2001/XMLSchema#string>";
    }
}
static unique_ptr<KB> kb; static Querier *q = NULL; static KBConfig cfg;
static string kbdir() { return h_scratch + "/kb"; }
static int nterms = 0; static bool withdict = false, own = false;
static void closeKB(bool log = true) { if (kb && log) Js("close").log(); if (q) { delete q; q = NULL; } kb.reset(); }
static R_ perm3(PairItr *it) { return R_{abst(it->getKey()), abst(it->getValue1()), abst(it->getValue2())}; }

static void logDict() {
    // the dictionary: term -> id for every term the script ever used, and back
    DictMgmt *d = kb->getDictMgmt();
    vector<pair<int, int64_t>> found; ids.clear(); map<string, int> known; long ghost = 0;
    auto number = [&](const string &s, nTerm *id) { vector<char> b(s.begin(), s.end()); b.push_back(0); return d->getNumber(b.data(), (int) s.size(), id); };
    for (int t = 0; t < nterms; ++t) {
        string s = term(t); nTerm id; known[s] = t;
        if (number(s, &id)) { found.push_back(make_pair(t, (int64_t) id)); ids.push_back((int64_t) id); }
    }
    sort(ids.begin(), ids.end()); ids.erase(unique(ids.begin(), ids.end()), ids.end());
    vector<R_> rows; for (auto &f : found) rows.push_back(R_{f.first, abst(f.second)});
    // terms and identifiers that were never stored
    for (int t = 0; t < nterms; ++t) { string s = term(t); nTerm id;
        for (string g : {s + "x", s + string(1, '\0'), s.substr(0, s.size() - 1), s.substr(0, s.size() / 2), s.substr(1)}) if (!known.count(g) && !g.empty() && number(g, &id)) ghost++; }
    for (size_t i = 0; i < ids.size(); ++i) for (int64_t x : {ids[i] - 1, ids[i] + 1, ids[i] + 1000}) if (x >= 0 && !binary_search(ids.begin(), ids.end(), x)) { string s2; int n = 0; vector<char> b(MAX_TERM_SIZE + 10); if (d->getText(x, s2) || d->getText(x, b.data()) || d->getText(x, b.data(), n)) ghost++; }
    vector<R_> back;
    for (size_t i = 0; i < ids.size(); ++i) {
        vector<char> buf(MAX_TERM_SIZE + 10), buf2(MAX_TERM_SIZE + 10); int len = 0; long long t = -1;
        if (d->getText(ids[i], buf.data(), len)) { auto it = known.find(string(buf.data(), len)); t = it == known.end() ? -2 : it->second; }
        back.push_back(R_{(long long) i, t});
        string s2; if (!d->getText(ids[i], s2) || (t >= 0 && s2 != term(t))) back.push_back(R_{(long long) i, -3});
        if (!d->getText(ids[i], buf2.data()) || (t >= 0 && strcmp(buf2.data(), term(t).c_str()) != 0)) back.push_back(R_{(long long) i, -4});
    }
    Js("dict").arr2("num", rows).arr2("text", back).i("ghost", ghost).log();
}
// what CacheItr leaves open
struct CItr : public CacheItr { int64_t getCount() { throw 10; } uint64_t estCardinality() { throw 10; } void moveto(const int64_t, const int64_t) { throw 10; } };
static KeyCardItr *grp(const string &w, int64_t s, int64_t r, int64_t d) {
    if (w == "s") return q->grp_s(s, r, d); if (w == "r") return q->grp_r(s, r, d); if (w == "d") return q->grp_d(s, r, d);
    if (w == "sr") return q->grp_sr(s, r, d); if (w == "sd") return q->grp_sd(s, r, d); if (w == "rs") return q->grp_rs(s, r, d);
    if (w == "rd") return q->grp_rd(s, r, d); if (w == "ds") return q->grp_ds(s, r, d); return q->grp_dr(s, r, d);
}
static uint64_t cntgrp(const string &w, int64_t s, int64_t r, int64_t d) {
    if (w == "s") return q->cnt_grp_s(s, r, d); if (w == "r") return q->cnt_grp_r(s, r, d); if (w == "d") return q->cnt_grp_d(s, r, d);
    if (w == "sr") return q->cnt_grp_sr(s, r, d); if (w == "sd") return q->cnt_grp_sd(s, r, d); if (w == "rs") return q->cnt_grp_rs(s, r, d);
    if (w == "rd") return q->cnt_grp_rd(s, r, d); if (w == "ds") return q->cnt_grp_ds(s, r, d); return q->cnt_grp_dr(s, r, d);
}
static EdgeItr *edge(const string &w, int64_t s, int64_t r, int64_t d) {
    if (w == "srd") return q->edg_srd(s, r, d); if (w == "sdr") return q->edg_sdr(s, r, d); if (w == "drs") return q->edg_drs(s, r, d);
    if (w == "dsr") return q->edg_dsr(s, r, d); if (w == "rsd") return q->edg_rsd(s, r, d); return q->edg_rds(s, r, d);
}
static void run(vector<string> &lines) {
    vector<R_> buf; int nupd = 0; PairItr *cur = NULL; bool curIgn = false; unique_ptr<CacheIdx> cache; unique_ptr<CacheItr> ci[4];
    for (auto &ln : lines) {
        istringstream is(ln); string op; is >> op;
        if (op == "V") { int t; string pre, suf; long pad, n; is >> t >> pre >> pad >> n >> suf; string x = unhex(pre.substr(1)); for (long i = 0; i < n; ++i) x += (char) (pad + (pad > 200 ? 0 : i % 3)); vocab[t] = x + unhex(suf.substr(1)); }
        else if (op == "T") { long long s, p, o; while (is >> s >> p >> o) buf.push_back(R_{s, p, o}); }
        else if (op == "load") {
            map<string, long> o; string kv; while (is >> kv) { size_t e = kv.find('='); o[kv.substr(0, e)] = atol(kv.c_str() + e + 1); }
            auto g = [&](const char *k, long d) { return o.count(k) ? o[k] : d; };
            withdict = g("dict", 0); own = g("own", 0); long nt = g("nt", 0), big = g("big", 0); nterms = withdict ? g("terms", nt) : 0;
            ids.clear(); for (long i = 0; i < nt; ++i) ids.push_back(big ? BIG[i] : i);
            string tf = h_scratch + "/tr"; { ofstream f(tf); for (auto &r : buf) f << conc(r[0]) << " " << conc(r[1]) << " " << conc(r[2]) << "\n"; }
            string df = ""; if (withdict) { df = h_scratch + "/dict.txt"; ofstream f(df); for (long i = 0; i < nt; ++i) { string t = term(i); f << conc(i) << " " << t.size() << " " << t << "\n"; } }
            ParamsLoad p; p.inputCompressed = true; p.triplesInputDir = tf; p.dictDir = df; p.kbDir = kbdir(); p.tmpDir = kbdir(); p.sample = false;
            p.nindices = g("nind", 6); p.aggrIndices = g("aggr", 0); p.canSkipTables = g("skip", 0); p.thresholdSkipTable = g("thr", 20);
            long fx = g("fixed", -1); p.enableFixedStrat = fx >= 0; if (fx >= 0) p.fixedStrat = fx;
            p.parallelThreads = g("threads", 1); p.maxReadingThreads = g("rthreads", 1); p.flatTree = g("flat", 0); p.relsOwnIDs = own; p.storePlainList = g("plain", 0);
            Loader l; l.load(p);
            Js("load").arr2("triples", buf).b("dict", withdict).i("nt", nt).raw("opt", Js::q(ln)).log(); buf.clear();
        }
        else if (op == "open") { closeKB(); cfg = KBConfig(); kb.reset(new KB(kbdir().c_str(), true, false, withdict, cfg)); q = kb->query();
            Js("open").log(); if (withdict) logDict(); 
            Js("size").i("size", (long long) q->getInputSize()).log(); }
        else if (op == "close") closeKB();
        else if (op == "newq") { if (q) delete q; q = kb->query(); Js("newq").log(); }
        else if (op == "upd") {
            string ty; is >> ty; closeKB();
            string uf = h_scratch + "/upd" + to_string(nupd++); { ofstream f(uf); for (auto &r : buf) f << term(r[0]) << " " << term(r[1]) << " " << term(r[2]) << " .\n"; }
            Updater u; u.creatediffupdate(ty == "add" ? DiffIndex::TypeUpdate::ADDITION_df : DiffIndex::TypeUpdate::DELETE_df, kbdir(), uf);
            Js("upd").str("type", ty).arr2("triples", buf).log(); buf.clear();
        }
        else if (op == "merge") { closeKB(); { KBConfig c; KB k(kbdir().c_str(), true, false, true, c); k.mergeUpdates(); } Js("merge").log(); }
        else if (op == "scan") {   // scan idx s p o ign
            int idx; long s, p, o; int ign = 0; is >> idx >> s >> p >> o >> ign;
            PairItr *it = q->getIterator(idx, conc(s), conc(p), conc(o)); vector<R_> rows;
            if (ign) it->ignoreSecondColumn();
            while (it->hasNext()) { it->next(); R_ r = perm3(it); if (ign) r[2] = it->getCount(); rows.push_back(r); if (rows.size() > 5000) break; }
            q->releaseItr(it);
            Js(ign ? "scanign" : "scan").i("idx", idx).arr("c", R_{s, p, o}).arr2("rows", rows).log();
        }
        else if (op == "best") {   // the index the engine picks
            long s, p, o; is >> s >> p >> o; int idx = q->getIndex(conc(s), conc(p), conc(o));
            PairItr *it = q->getIterator(idx, conc(s), conc(p), conc(o)); vector<R_> rows;
            while (it->hasNext()) { it->next(); rows.push_back(perm3(it)); if (rows.size() > 5000) break; }
            q->releaseItr(it); Js("scan").i("idx", idx).arr("c", R_{s, p, o}).arr2("rows", rows).log();
        }
        else if (op == "perm") {   // getPermuted: constants in index order
            int idx; long a, b, c; is >> idx >> a >> b >> c; PairItr *it = q->getPermuted(idx, conc(a), conc(b), conc(c)); vector<R_> rows;
            while (it->hasNext()) { it->next(); rows.push_back(perm3(it)); if (rows.size() > 5000) break; }
            q->releaseItr(it); Js("perm").i("idx", idx).arr("c", R_{a, b, c}).arr2("rows", rows).log();
        }
        else if (op == "terms") {
            int idx; is >> idx; PairItr *it = q->getTermList(idx); vector<R_> rows;
            while (it->hasNext()) { it->next(); R_ r{abst(it->getKey())}; r.push_back(it->getCount()); rows.push_back(r); if (rows.size() > 5000) break; }
            q->releaseItr(it); Js("terms").i("idx", idx).arr2("rows", rows).log();
        }
        else if (op == "edge") {
            string w; long s, r, d; is >> w >> s >> r >> d; EdgeItr *it = edge(w, conc(s), conc(r), conc(d)); vector<R_> rows;
            while (it->hasNext()) { it->next(); uint64_t v[3]; it->getTriple(v); rows.push_back(R_{abst(v[0]), abst(v[1]), abst(v[2])}); if (rows.size() > 5000) break; }
            delete it; Js("edge").str("w", w).arr("c", R_{s, r, d}).arr2("rows", rows).log();
        }
        else if (op == "pos") {
            string w; long s, r, d; int n; is >> w >> s >> r >> d >> n; uint64_t v[3]; bool thr = false;
            try {
                if (w == "srd") q->pos_srd(conc(s), conc(r), conc(d), n, v); else if (w == "sdr") q->pos_sdr(conc(s), conc(r), conc(d), n, v);
                else if (w == "rsd") q->pos_rsd(conc(s), conc(r), conc(d), n, v); else if (w == "rds") q->pos_rds(conc(s), conc(r), conc(d), n, v);
                else if (w == "dsr") q->pos_dsr(conc(s), conc(r), conc(d), n, v); else q->pos_drs(conc(s), conc(r), conc(d), n, v);
            } catch (int) { thr = true; }
            Js e("pos"); e.str("w", w).arr("c", R_{s, r, d}).i("n", n).b("thr", thr); e.arr("row", thr ? R_() : R_{abst(v[0]), abst(v[1]), abst(v[2])}); e.log();
        }
        else if (op == "grp") {
            string w; long s, r, d; is >> w >> s >> r >> d; KeyCardItr *it = grp(w, conc(s), conc(r), conc(d)); vector<R_> rows;
            while (it->hasNext()) { it->next(); R_ x{abst(it->getKey1())}; if (w.size() == 2) x.push_back(abst(it->getKey2())); x.push_back(it->getCard()); rows.push_back(x); if (rows.size() > 5000) break; }
            delete it; Js("grp").str("w", w).arr("c", R_{s, r, d}).arr2("rows", rows).log();
        }
        else if (op == "cntgrp") { string w; long s, r, d; is >> w >> s >> r >> d; Js("cntgrp").str("w", w).arr("c", R_{s, r, d}).i("r", cntgrp(w, conc(s), conc(r), conc(d))).log(); }
        else if (op == "count") { long s, r, d; is >> s >> r >> d; Js("count").arr("c", R_{s, r, d}).i("r", q->countEdges(conc(s), conc(r), conc(d))).log(); }
        else if (op == "card") { long s, r, d; is >> s >> r >> d; Js("card").arr("c", R_{s, r, d}).i("r", q->getCard(conc(s), conc(r), conc(d))).log(); }
        else if (op == "cardidx") { int idx, sk; long s, r, d; is >> idx >> s >> r >> d >> sk; Js("cardidx").i("idx", idx).arr("c", R_{s, r, d}).b("skip", sk).i("r", q->getCardOnIndex(idx, conc(s), conc(r), conc(d), sk)).log(); }
        else if (op == "estcard") { long s, r, d; is >> s >> r >> d; Js("estcard").arr("c", R_{s, r, d}).i("r", q->estCard(conc(s), conc(r), conc(d))).log(); }
        else if (op == "exists") { long s, r, d; is >> s >> r >> d; Js("exists").arr("c", R_{s, r, d}).b("r", q->exists(conc(s), conc(r), conc(d))).log(); }
        else if (op == "empty") { long s, r, d; is >> s >> r >> d; Js("empty").arr("c", R_{s, r, d}).b("r", q->isEmpty(conc(s), conc(r), conc(d))).log(); }
        else if (op == "existkey") { int idx; long k; is >> idx >> k; Js("existkey").i("idx", idx).i("k", k).b("r", q->existKey(idx, conc(k))).log(); }
        else if (op == "kbsize") { Js("kbsize").i("r", (long long) kb->getSize()).log(); }
        // a cursor over one key of one permutation
        else if (op == "copen") { int idx; long a, b, c; is >> idx >> a >> b >> c; int ig; is >> ig; curIgn = ig; if (cur) q->releaseItr(cur); cur = q->getPermuted(idx, conc(a), conc(b), conc(c)); if (ig) cur->ignoreSecondColumn();
            Js("copen").i("idx", idx).arr("c", R_{a, b, c}).b("ign", ig).log(); }
        else if (op == "hasnext") Js("hasnext").b("r", cur->hasNext()).log();
        else if (op == "next") { if (!cur->hasNext()) { Js("hasnext").b("r", false).log(); continue; } cur->next(); Js("next").i("k", abst(cur->getKey())).i("a", abst(cur->getValue1())).i("b", curIgn ? -1 : abst(cur->getValue2())).log(); }
        else if (op == "ccount") Js("ccount").i("r", cur->getCount()).log();
        else if (op == "ccard") Js("ccard").i("r", cur->getCardinality()).log();
        else if (op == "moveto") { long a, b; is >> a >> b; cur->moveto(conc(a), conc(b)); Js("moveto").i("a", a).i("b", b).log(); }
        // iterators that collect what they read in a cache: one cache, iterators 0..3
        else if (op == "cnew") { int i; long key; is >> i >> key; if (!cache) cache.reset(new CacheIdx()); ci[i].reset(new CItr()); ci[i]->setKey(conc(key)); ci[i]->init(q, 1000, cache.get(), -1, -1); Js("cnew").i("it", i).i("key", key).log(); }
        else if (op == "cgoto") {     // cgoto it c1 c2 max
            int i, m; long a, b; is >> i >> a >> b >> m; bool r = ci[i]->gotoFirstTerm(conc(a)); R_ objs; bool ended = false;
            if (b != -1 && ci[i]->hasNext()) ci[i]->gotoSecondTerm(conc(b));
            while (true) { if (!ci[i]->hasNext()) { ended = true; break; } if ((int) objs.size() >= m) break; ci[i]->next(); objs.push_back(abst(ci[i]->getValue2())); if (abst(ci[i]->getValue1()) != a) objs.push_back(-77); }
            Js("cgoto").i("it", i).i("a", a).i("b", b).b("r", r).arr("objs", objs).b("ended", ended).log();
        }
        else if (op == "cclear") { int i; is >> i; ci[i]->clear(); ci[i].reset(); Js("cclear").i("it", i).log(); }
        else if (op == "cpeek") {
            long key; is >> key; auto p = cache->getIndex(conc(key)); vector<R_> bl, ps;
            if (p.second) for (auto &b : *p.second) bl.push_back(R_{abst(b.startKey), abst(b.endKey), (long long) b.startArray, (long long) b.endArray});
            if (p.first) for (auto &x : *p.first) ps.push_back(R_{abst(x.first), abst(x.second)});
            Js("cpeek").i("key", key).b("found", p.first != NULL && p.second != NULL).arr2("blocks", bl).arr2("pairs", ps).log();
        }
        else if (op == "mark") { cur->mark(); Js("mark").log(); }
        else if (op == "reset") { cur->reset(0); Js("reset").log(); }
    }
    if (cur) q->releaseItr(cur);
    closeKB(false);
}
int main(int argc, char **argv) { return h_main(argc, argv, run, 10); }
