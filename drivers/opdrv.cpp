// Drives the physical query operators.  A scenario gives the facts, presets and an operator tree (prefix notation, plus the same
// tree as JSON, which is only passed on to the specification), and says how to run it.
#include "harness.h"
#include <map>
#include <list>
#include <algorithm>
#include <rts/operator/Operator.hpp>
#include <rts/operator/PlanPrinter.hpp>
#include <rts/operator/MergeJoin.hpp>
#include <rts/operator/NestedLoopJoin.hpp>
#include <rts/operator/NestedLoopFilter.hpp>
#include <rts/operator/Union.hpp>
#include <rts/operator/MergeUnion.hpp>
#include <rts/operator/Minus.hpp>
#include <rts/operator/Filter.hpp>
#include <rts/operator/GroupBy.hpp>
#include <rts/operator/HashGroupify.hpp>
#include <rts/operator/DuplLimit.hpp>
#include <rts/operator/Assignment.hpp>
#include <rts/operator/ValuesScan.hpp>
#include <rts/operator/SingletonScan.hpp>
#include <rts/operator/EmptyScan.hpp>
#include <rts/operator/TableFunction.hpp>
#include <rts/operator/IndexScan.hpp>
#include <rts/operator/AggregatedIndexScan.hpp>
#include <rts/operator/FullyAggregatedIndexScan.hpp>
#include <rts/operator/HashJoin.hpp>
#include <rts/operator/CartProd.hpp>
#include <rts/operator/Scheduler.hpp>
#include <rts/runtime/Runtime.hpp>
#include <rts/runtime/DomainDescription.hpp>
#include <rts/runtime/TemporaryDictionary.hpp>
using namespace std;
typedef vector<uint64_t> Row;
static int hintMode = 0;
static vector<Row> facts;                // s p o
static const int POS[6][3] = {{0,1,2},{0,2,1},{2,1,0},{2,0,1},{1,0,2},{1,2,0}};   // DataOrder

class FScan : public DBLayer::Scan {
    vector<Row> rows; vector<uint64_t> cnt; size_t at; int width; DBLayer::Hint *hint; int calls;
    bool start(const Row &from, int fixed) {
        at = lower_bound(rows.begin(), rows.end(), from) - rows.begin(); calls = 0;
        return at < rows.size() && equal(from.begin(), from.begin() + fixed, rows[at].begin());
    }
  public:
    FScan(int order, int aggr, DBLayer::Hint *h) : at(0), width(3 - aggr), hint(h), calls(0) {
        map<Row, uint64_t> m;
        for (auto &f : facts) { Row r; for (int i = 0; i < width; ++i) r.push_back(f[POS[order < 10 ? order % 6 : order == 10 ? 5 : 4][i]]); m[r]++; }
        for (auto &e : m) { rows.push_back(e.first); cnt.push_back(e.second); }
    }
    uint64_t getValue1() { return rows[at][0]; }
    uint64_t getValue2() { return rows[at][1]; }
    uint64_t getValue3() { return rows[at][2]; }
    uint64_t getCount() { return cnt[at]; }
    bool next() {
        if (at >= rows.size()) return false;
        size_t skip = at + 1;
        if (hint && (hintMode == 1 || (hintMode == 2 && calls == 0))) {
            // the scan may go on at the first row the hint does not exclude (but never stay)
            Row v = rows[at]; uint64_t b = 0, c = 0;
            if (width == 3) hint->next(v[0], v[1], v[2]); else if (width == 2) hint->next(v[0], v[1]); else hint->next(v[0]);
            size_t t = lower_bound(rows.begin(), rows.end(), v) - rows.begin();
            if (t > skip) skip = t;
        }
        calls++; at = skip;
        return at < rows.size();
    }
    bool first() { return start(Row(width, 0), 0); }
    bool first(uint64_t a, bool ba) { Row f{ba ? a : 0}; f.resize(width); return start(f, ba ? 1 : 0); }
    bool first(uint64_t a, bool ba, uint64_t b, bool bb) { Row f{ba ? a : 0, bb ? b : 0}; f.resize(width); return start(f, ba ? (bb ? 2 : 1) : 0); }
    bool first(uint64_t a, bool ba, uint64_t b, bool bb, uint64_t c, bool bc) { Row f{ba ? a : 0, bb ? b : 0, bc ? c : 0}; f.resize(width); return start(f, ba ? (bb ? (bc ? 3 : 2) : 1) : 0); }
};
class FDB : public DBLayer {
  public:
    map<uint64_t, string> txt;
    bool lookup(const string &t, ::Type::ID, unsigned, uint64_t &id) { if (t.size() < 2 || t[0] != 'i') return false; id = strtoull(t.c_str() + 1, 0, 10); return true; }
    bool lookupById(uint64_t id, const char *&a, const char *&b, ::Type::ID &ty, unsigned &st) { if (!(uint32_t) ~id) return false; string &s = txt[id]; s = "i" + to_string(id); a = s.data(); b = a + s.size(); ty = ::Type::URI; st = 0; return true; }
    bool lookupById(uint64_t id, char *o, size_t &l, ::Type::ID &ty, unsigned &st) { string s = "i" + to_string(id); memcpy(o, s.data(), s.size()); l = s.size(); ty = ::Type::URI; st = 0; return true; }
    uint64_t getNextId() { return 1 << 20; }
    double getScanCost(DataOrder, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t) { return 1; }
    double getScanCost(DataOrder, uint64_t, uint64_t, uint64_t, uint64_t) { return 1; }
    double getJoinSelectivity(bool, uint64_t, bool, uint64_t, bool, uint64_t, bool, uint64_t, bool, uint64_t, bool, uint64_t) { return 1; }
    double getScanCost(DataOrder, uint64_t, uint64_t) { return 1; }
    uint64_t getCardinality(uint64_t, uint64_t, uint64_t) { return 1; }
    uint64_t getCardinality() { return 1; }
    unique_ptr<Scan> getScan(const DataOrder o, const Aggr_t a, Hint *h) { return unique_ptr<Scan>(new FScan(o, (int) a, h)); }
};
// a leaf with given rows; writes its registers only when it delivers a row
class Src : public Operator {
    vector<Register *> regs; vector<Row> rows; Row cnt; size_t at;
  public:
    Src(const vector<Register *> &r, const vector<Row> &w, const Row &c) : Operator(1), regs(r), rows(w), cnt(c), at(0) {}
    uint64_t give() { if (at >= rows.size()) return 0; for (size_t i = 0; i < regs.size(); ++i) regs[i]->value = rows[at][i]; return cnt[at++]; }
    uint64_t first() { at = 0; return give(); }
    uint64_t next() { return give(); }
    void print(PlanPrinter &) {}
    void addMergeHint(Register *, Register *) {}
    void getAsyncInputCandidates(Scheduler &) {}
};
// stands for the other end of the callback protocol: answers each "callback" line on cout with the rows the script lists for it
class Peer : public streambuf {
  public:
    stringbuf *out; map<string, vector<string>> answers; string buf; size_t seen;
    int underflow() {
        string all = out->str(), line; size_t e = all.find('\n', seen);
        if (e == string::npos) return EOF;
        line = all.substr(seen, e - seen); seen = e + 1;
        istringstream is(line); string cb, id, rest; is >> cb >> id; getline(is, rest);
        string r = cb == "callback" ? "ok " + id + "\n" : "bad 0\n";
        for (auto &x : answers[rest]) r += x + "\n";
        r += "\\.\n"; buf = r; setg(&buf[0], &buf[0], &buf[0] + buf.size());
        return (unsigned char) buf[0];
    }
};
static Runtime *rt; static FDB *db; static list<Row> *keepRows; static Peer *peer;
static Register *R(istream &is) { int r; is >> r; return r < 0 ? NULL : rt->getRegister(r); }
static vector<Register *> Rs(istream &is) { int n; is >> n; vector<Register *> v; for (int i = 0; i < n; ++i) v.push_back(R(is)); return v; }
static uint64_t U(istream &is) { long long v; is >> v; return v == -1 ? UINT64_MAX : v; }
static Row Us(istream &is) { int n; is >> n; Row v; for (int i = 0; i < n; ++i) v.push_back(U(is)); return v; }
static Operator *parse(istream &is) {
    string k; is >> k;
    if (k == "src") { auto r = Rs(is); int n; is >> n; vector<Row> rows; Row c; for (int i = 0; i < n; ++i) { Row w; for (size_t j = 0; j < r.size(); ++j) w.push_back(U(is)); rows.push_back(w); c.push_back(U(is)); } return new Src(r, rows, c); }
    if (k == "scan") { int o, a; is >> o >> a; Register *g[3]; int b[3]; for (int i = 0; i < 3; ++i) { g[i] = R(is); is >> b[i]; }
        if (a == 0) return IndexScan::create(*db, (DBLayer::DataOrder) o, g[0], b[0], g[1], b[1], g[2], b[2], 1);
        if (a == 1) return AggregatedIndexScan::create(*db, (DBLayer::DataOrder) o, g[0], b[0], g[1], b[1], g[2], b[2], 1);
        return FullyAggregatedIndexScan::create(*db, (DBLayer::DataOrder) o, g[0], b[0], g[1], b[1], g[2], b[2], 1); }
    if (k == "nlj") { Operator *l = parse(is), *r = parse(is); return new NestedLoopJoin(l, r, 1); }
    if (k == "mj" || k == "hj") { int lo, ro; is >> lo >> ro; Register *lk = R(is); auto lt = Rs(is); Register *rk = R(is); auto rtl = Rs(is); Operator *l = parse(is), *r = parse(is);
        if (k == "mj") return new MergeJoin(l, lk, lt, r, rk, rtl, lo, ro, 1);
        return new HashJoin(l, lk, lt, r, rk, rtl, 1, 1, 1, lo, ro, 0); }
    if (k == "cp") { int lo, ro; is >> lo >> ro; auto lt = Rs(is), rtl = Rs(is); Operator *l = parse(is), *r = parse(is); return new CartProd(l, lt, r, rtl, 1, lo, ro, 0); }
    if (k == "union") { int n; is >> n; vector<Operator *> p; vector<vector<Register *>> m, in; for (int i = 0; i < n; ++i) { m.push_back(Rs(is)); in.push_back(Rs(is)); p.push_back(parse(is)); } return new Union(p, m, in, 1); }
    if (k == "mu") { Register *res = R(is), *a = R(is), *b = R(is); Operator *l = parse(is), *r = parse(is); return new MergeUnion(res, l, a, r, b, 1); }
    if (k == "minus") { int n; is >> n; vector<pair<Register *, Register *>> c; for (int i = 0; i < n; ++i) { Register *a = R(is), *b = R(is); c.push_back(make_pair(a, b)); } Operator *l = parse(is), *r = parse(is); return new Minus(l, r, c, 1); }
    if (k == "filter") { Register *f = R(is); int ex; is >> ex; Row v = Us(is); Operator *o = parse(is); return new Filter(o, f, v, ex, 1); }
    if (k == "nlf") { Register *f = R(is); Row v = Us(is); Operator *o = parse(is); return new NestedLoopFilter(o, f, v, 1); }
    if (k == "hg") { auto v = Rs(is); Operator *o = parse(is); return new HashGroupify(o, v, 1); }
    if (k == "gb") { int d; is >> d; map<unsigned, Register *> b; int n; is >> n; for (int i = 0; i < n; ++i) { unsigned r; is >> r; b[r] = rt->getRegister(r); } Row g = Us(is); vector<unsigned> gs(g.begin(), g.end()); Operator *o = parse(is); return new GroupBy(o, b, gs, d, 1); }
    if (k == "limit") { int nd; long long l, of; is >> nd >> l >> of; Operator *o = parse(is); vector<Register *> none; return new DuplLimit(o, none, nd ? DuplLimit::NoDuplicates : DuplLimit::Duplicates, l < 0 ? UINT64_MAX : l, of); }
    if (k == "assign") { int n; is >> n; vector<Assignment::AssignmentArgument> a; vector<Register *> out; for (int i = 0; i < n; ++i) { out.push_back(R(is)); Assignment::AssignmentArgument x; x.reg = R(is); x.defaultValue = U(is); a.push_back(x); } Operator *o = parse(is); return new Assignment(o, a, out, 1); }
    if (k == "values") { auto r = Rs(is); keepRows->push_back(Us(is)); return new ValuesScan(r, keepRows->back(), 1); }
    if (k == "single") return new SingletonScan();
    if (k == "empty") return new EmptyScan();
    if (k == "tf") { string name; is >> name; int n; is >> n; vector<TableFunction::FunctionArgument> a; for (int i = 0; i < n; ++i) { TableFunction::FunctionArgument x; x.reg = R(is); if (!x.reg) is >> x.value; a.push_back(x); } auto out = Rs(is); Operator *o = parse(is); return new TableFunction(o, *rt, 7, name, a, out, 1); }
    throw runtime_error("driver: bad tree " + k);
}
static void run(vector<string> &lines) {
    FDB d; db = &d; list<Row> kr; keepRows = &kr; facts.clear(); hintMode = 0; Operator::disableSkipping = false;
    Runtime r(d); rt = &r; Operator *op = NULL; vector<int> vis; vector<pair<int, uint64_t>> preset;
    stringbuf ob; Peer pb; peer = &pb; pb.out = &ob; pb.seen = 0; cout.rdbuf(&ob); cin.rdbuf(&pb); cin.clear();
    for (auto &ln : lines) {
        istringstream is(ln); string cmd; is >> cmd;
        if (cmd == "db") { Row x; uint64_t v; while (is >> v) x.push_back(v); for (size_t i = 0; i + 2 < x.size(); i += 3) facts.push_back(Row(x.begin() + i, x.begin() + i + 3)); sort(facts.begin(), facts.end()); facts.erase(unique(facts.begin(), facts.end()), facts.end()); }
        else if (cmd == "regs") { int n, dn; is >> n >> dn; r.allocateRegisters(n); r.allocateDomainDescriptions(dn); }
        else if (cmd == "dom") { int g, x; while (is >> g >> x) r.getRegister(g)->domain = r.getDomainDescription(x); }
        else if (cmd == "preset") { int g; long long v; while (is >> g >> v) preset.push_back(make_pair(g, v)); }
        else if (cmd == "hint") is >> hintMode;
        else if (cmd == "noskip") Operator::disableSkipping = true;
        else if (cmd == "answer") { string k, row; getline(is, row); size_t c = row.find(" => "); k = row.substr(1, c - 1); pb.answers[" " + k].push_back(row.substr(c + 4)); }
        else if (cmd == "vis") { int g; while (is >> g) vis.push_back(g); }
        else if (cmd == "tree") {
            size_t c = ln.find(" ### "); istringstream ts(ln.substr(5, c - 5)); op = parse(ts);
            vector<vector<long long>> f; for (auto &x : facts) f.push_back(vector<long long>(x.begin(), x.end()));
            vector<vector<long long>> pv; for (auto &p : preset) pv.push_back(vector<long long>{p.first, (long long) p.second});
            Js("tree").arr2("db", f).arr2("preset", pv).arr("vis", vis).raw("tree", ln.substr(c + 5)).log();
        } else if (cmd == "run") {
            long long maxr = -1; is >> maxr;         // stop after so many rows, or run to the end
            for (auto &p : preset) r.getRegister(p.first)->value = p.second;
            vector<vector<long long>> rows; bool ended = false;
            uint64_t c = op->first();
            while (true) {
                if (!c) { ended = true; break; }
                vector<long long> row; for (int g : vis) { uint64_t v = r.getRegister(g)->value; row.push_back(v == ~0u || v == UINT64_MAX ? -1 : v > 1000000000 ? -2 : (long long) v); }
                row.push_back(c > 1000000000 ? -2 : (long long) c); rows.push_back(row);
                if (maxr >= 0 && (long long) rows.size() >= maxr) break;
                if (rows.size() > 5000) throw runtime_error("no end of rows");
                c = op->next();
            }
            Js("rows").b("ended", ended).arr2("rows", rows).log();
        }
        else if (cmd == "free") { delete op; op = NULL; Js("free").log(); }
        // ---- the temporary dictionary on its own: text type subtype ...; texts iN are known to the store
        else if (cmd == "tdict") {
            TemporaryDictionary td(d); string t; unsigned ty, st; string q = "[";
            vector<uint64_t> ids;
            while (is >> t >> ty >> st) {
                if (t == "~") t = "";
                uint64_t id = 0; bool ok = td.lookup(t, (::Type::ID) ty, st, id); ids.push_back(id);
                size_t k = ids.size() * 7919 % ids.size(); const char *a, *b; ::Type::ID rty; unsigned rst;     // read an earlier one back
                bool rok = td.lookupById(ids[k], a, b, rty, rst);
                q += (q == "[" ? "" : ",") + string("{\"t\":\"") + t + "\",\"ty\":" + to_string(ty) + ",\"st\":" + to_string(st) + ",\"kid\":" + (t[0] == 'i' && t.size() > 1 ? t.substr(1) : string("-1")) + ",\"ok\":" + (ok ? "true" : "false") + ",\"id\":" + to_string(id)
                    + ",\"k\":" + to_string(k + 1) + ",\"rok\":" + (rok ? "true" : "false") + ",\"rt\":\"" + (rok ? string(a, b) : "") + "\",\"rty\":" + to_string(rok ? (unsigned) rty : 0) + ",\"rst\":" + to_string(rok ? rst : 0) + "}";
            }
            Js("tdict").i("base", (long long) d.getNextId()).raw("q", q + "]").log();
        }
        // ---- domain descriptions on their own
        else if (cmd == "ddomain") {   // ddomain <n sets> then per set: count values...   then probes
            vector<vector<long long>> sets; int n; is >> n; PotentialDomainDescription p, q;
            for (int i = 0; i < n; ++i) { int m; is >> m; ObservedDomainDescription o; vector<long long> s; for (int j = 0; j < m; ++j) { long long v; is >> v; s.push_back(v); o.add(v); } sets.push_back(s); if (i % 2 == 0) p.restrictTo(o); else q.restrictTo(o); }
            if (n > 1) p.sync(q);
            vector<vector<long long>> pr; long long v;
            while (is >> v) { uint64_t nx = p.nextCandidate(v), nq = n > 1 ? q.nextCandidate(v) : nx; pr.push_back(vector<long long>{v, p.couldQualify(v), nx == UINT64_MAX ? -1 : (long long) nx, nx == UINT64_MAX ? 1 : (long long) p.couldQualify(nx), nq == nx}); }
            Js("domain").arr2("sets", sets).arr2("probes", pr).log();
        }
    }
    fflush(h_out);
}
int main(int argc, char **argv) { return h_main(argc, argv, run); }
