// Loads a store and asks it queries.  A query is run as SPARQLUtils does it, or (seed > 0) with statistics made up at
// random from the seed, so that plans are chosen which these data would not lead to.
#include "harness.h"
#include <trident/loader.h>
#include <trident/kb/kb.h>
#include <trident/kb/kbconfig.h>
#include <trident/sparql/sparql.h>
#include <trident/utils/json.h>
#include <layers/TridentLayer.hpp>
#include <cts/parser/SPARQLLexer.hpp>
#include <cts/parser/SPARQLParser.hpp>
#include <cts/semana/SemanticAnalysis.hpp>
#include <cts/infra/QueryGraph.hpp>
#include <cts/plangen/PlanGen.hpp>
#include <cts/codegen/CodeGen.hpp>
#include <rts/runtime/Runtime.hpp>
#include <rts/runtime/QueryDict.hpp>
#include <rts/operator/ResultsPrinter.hpp>
#include <limits>
#include <map>
#include <set>
using namespace std;
typedef vector<long long> R_;
static vector<string> terms; static map<string, long long> rank_;
struct RandLayer : public DBLayer {
    TridentLayer &db; uint64_t seed;
    RandLayer(TridentLayer &db, uint64_t seed) : db(db), seed(seed) {}
    uint64_t h(initializer_list<uint64_t> v) { uint64_t x = seed * 0x9e3779b97f4a7c15ull; for (uint64_t e : v) { x ^= e + 0x9e3779b97f4a7c15ull + (x << 6) + (x >> 2); x *= 0xff51afd7ed558ccdull; x ^= x >> 33; } return x; }
    double cost(double real, uint64_t x) { return real == numeric_limits<double>::max() ? real : (double)(x % 10000) / 7; }
    // as in TridentLayer, an order and its "no order" twin cost the same
    static uint64_t ord(DataOrder o) { static const uint64_t t[] = {0, 1, 2, 3, 4, 5, 0, 1, 2, 3, 5, 4}; return t[(int) o]; }
    bool lookup(const string &t, ::Type::ID ty, unsigned s, uint64_t &id) { return db.lookup(t, ty, s, id); }
    bool lookupById(uint64_t id, const char *&a, const char *&b, ::Type::ID &t, unsigned &s) { return db.lookupById(id, a, b, t, s); }
    bool lookupById(uint64_t id, char *o, size_t &n, ::Type::ID &t, unsigned &s) { return db.lookupById(id, o, n, t, s); }
    uint64_t getNextId() { return db.getNextId(); }
    double getScanCost(DataOrder o, uint64_t a, uint64_t ac, uint64_t b, uint64_t bc, uint64_t c, uint64_t cc) { return cost(db.getScanCost(o, a, ac, b, bc, c, cc), h({1, ord(o), a, ac, b, bc, c, cc})); }
    double getScanCost(DataOrder o, uint64_t a, uint64_t ac, uint64_t b, uint64_t bc) { return cost(db.getScanCost(o, a, ac, b, bc), h({2, ord(o), a, ac, b, bc})); }
    double getScanCost(DataOrder o, uint64_t a, uint64_t ac) { return cost(db.getScanCost(o, a, ac), h({3, ord(o), a, ac})); }
    double getJoinSelectivity(bool l1, uint64_t a, bool l2, uint64_t b, bool l3, uint64_t c, bool r1, uint64_t d, bool r2, uint64_t e, bool r3, uint64_t f) { return (double)(1 + h({4, l1, a, l2, b, l3, c, r1, d, r2, e, r3, f}) % 999) / 1000; }
    uint64_t getCardinality(uint64_t a, uint64_t b, uint64_t c) { return h({5, a, b, c}) % 2000; }
    uint64_t getCardinality() { return db.getCardinality(); }
    unique_ptr<DBLayer::Scan> getScan(const DataOrder o, const Aggr_t a, Hint *hint) { return db.getScan(o, a, hint); }
};
static long long value(const JSON &b) {
    string v = b.get("value"); if (b.get("type") == "uri") v = "<" + v + ">";
    if (v == "NULL") return -1;
    if (rank_.count(v)) return rank_[v];
    size_t i = v.find("\"^^<http://www.w3.org/2001/XMLSchema#integer>");
    if (v.size() > 2 && v[0] == '"' && i != string::npos) return 100000 + atoll(v.c_str() + 1);
    if (v.size() && v.find_first_not_of("0123456789") == string::npos) return 100000 + atoll(v.c_str());
    return -100 - (long long)(hash<string>()(v) % 1000);
}
static bool ask(TridentLayer &db, uint64_t seed, int64_t nterms, const string &text, vector<string> &vars, JSON &res) {
    if (!seed) { JSON jv, js; SPARQLUtils::execSPARQLQuery(text, false, nterms, db, false, true, &jv, &res, &js); return true; }
    RandLayer layer(db, seed); QueryDict qd(nterms); SPARQLLexer lx(text); SPARQLParser ps(lx); ps.parse(false, true);
    QueryGraph qg(ps.getVarCount()); { SemanticAnalysis sa(layer, qd); sa.transform(ps, qg); }
    if (qg.knownEmpty()) return true;
    vector<string> names; for (auto i = qg.projectionBegin(); i != qg.projectionEnd(); ++i) names.push_back(ps.getVariableName(*i));
    PlanGen *pg = new PlanGen(); Plan *plan = pg->translate(layer, qg, false); if (!plan) return false;
    if (getenv("VERIF_PLAN")) plan->print(0);
    Runtime rt(layer, NULL, &qd); Operator *t = CodeGen().translate(rt, qg, plan, false); ResultsPrinter *p = (ResultsPrinter *) t;
    p->setSilent(true); p->setJSONOutput(&res, names);
    if (t->first()) while (t->next());
    return true;
}
static void run(vector<string> &lines) {
    vector<R_> buf; vector<string> vars; unique_ptr<KB> kb; unique_ptr<TridentLayer> db; KBConfig cfg; terms.clear(); rank_.clear();
    string kbdir = h_scratch + "/kb";
    for (auto &ln : lines) {
        istringstream is(ln); string op; is >> op;
        if (op == "D") { string t = ln.substr(2); rank_[t] = terms.size(); terms.push_back(t); }
        else if (op == "T") { long long s, p, o; while (is >> s >> p >> o) buf.push_back(R_{s, p, o}); }
        else if (op == "store") {
            map<string, long> o; string kv; while (is >> kv) { size_t e = kv.find('='); o[kv.substr(0, e)] = atol(kv.c_str() + e + 1); }
            auto g = [&](const char *k, long d) { return o.count(k) ? o[k] : d; };
            string tf = h_scratch + "/tr", df = h_scratch + "/dict.txt";
            { ofstream f(tf); for (auto &r : buf) f << r[0] << " " << r[1] << " " << r[2] << "\n"; }
            { ofstream f(df); for (size_t i = 0; i < terms.size(); ++i) f << i << " " << terms[i].size() << " " << terms[i] << "\n"; }
            ParamsLoad p; p.inputCompressed = true; p.triplesInputDir = tf; p.dictDir = df; p.kbDir = kbdir; p.tmpDir = kbdir; p.sample = false;
            p.nindices = g("nind", 6); p.aggrIndices = g("aggr", 0); p.canSkipTables = g("skip", 0); p.thresholdSkipTable = g("thr", 20);
            long fx = g("fixed", -1); p.enableFixedStrat = fx >= 0; if (fx >= 0) p.fixedStrat = fx;
            p.parallelThreads = 1; p.maxReadingThreads = 1; p.flatTree = g("flat", 0); p.relsOwnIDs = false; p.storePlainList = 0;
            { Loader l; l.load(p); }
            kb.reset(new KB(kbdir.c_str(), true, false, true, cfg)); db.reset(new TridentLayer(*kb)); db->disableBifocalSampling();
            vector<vector<int>> text; string lit = "["; for (size_t i = 0; i < terms.size(); ++i) { vector<int> c; for (unsigned char x : terms[i]) c.push_back(x); text.push_back(c); lit += string(i ? "," : "") + (terms[i][0] == '"' ? "true" : "false"); }
            Js("store").arr2("triples", buf).arr2("text", text).raw("lit", lit + "]").log();
        }
        else if (op == "Q") {   // Q seed TAB text TAB what it means
            size_t a = ln.find('\t'), b = ln.find('\t', a + 1); uint64_t seed = strtoull(ln.c_str() + 2, NULL, 10); string text = ln.substr(a + 1, b - a - 1), q = ln.substr(b + 1);
            string pr = q.substr(q.find("\"proj\":[") + 8); pr = pr.substr(0, pr.find(']')); vars.clear(); size_t i = 0;
            while ((i = pr.find('"', i)) != string::npos) { size_t j = pr.find('"', i + 1); vars.push_back(pr.substr(i + 1, j - i - 1)); i = j + 1; }
            JSON res; bool ok = ask(*db, seed, kb->getNTerms(), text, vars, res); vector<R_> rows;
            for (auto &r : res.getListChildren()) { JSON row = r; R_ o; for (auto &v : vars) o.push_back(row.containsChild(v) ? value(row.getChild(v)) : -3); rows.push_back(o); }
            if (ok) Js("query").str("text", text).i("seed", seed).raw("q", q).arr2("rows", rows).log(); else Js("noplan").str("text", text).log();
        }
    }
}
int main(int argc, char **argv) { return h_main(argc, argv, run, 60); }
