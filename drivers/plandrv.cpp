// Builds query graphs from a script, asks them for their edges, filters for what they need, and the planner for plans under
// costs that are made up from a seed.
#include "harness.h"
#include <cts/infra/QueryGraph.hpp>
#include <cts/plangen/PlanGen.hpp>
#include <map>
#include <set>
using namespace std;
typedef QueryGraph QG; typedef QG::SubQuery SQ; typedef QG::Filter F;
struct Layer : public DBLayer {
    uint64_t seed; Layer(uint64_t s) : seed(s) {}
    uint64_t h(initializer_list<uint64_t> v) { uint64_t x = seed * 0x9e3779b97f4a7c15ull; for (uint64_t e : v) { x ^= e + 0x9e3779b97f4a7c15ull + (x << 6) + (x >> 2); x *= 0xff51afd7ed558ccdull; x ^= x >> 33; } return x; }
    // an order and its "no order" twin cost the same, or seldom not
    uint64_t ord(DataOrder o) { static const uint64_t t[] = {0, 1, 2, 3, 4, 5, 0, 1, 2, 3, 5, 4}; return seed % 3 ? t[(int) o] : (uint64_t) o; }
    double cost(uint64_t x) { return (double)(x % 10000) / 7; }
    bool lookup(const string &, ::Type::ID, unsigned, uint64_t &) { return false; }
    bool lookupById(uint64_t, const char *&, const char *&, ::Type::ID &, unsigned &) { return false; }
    bool lookupById(uint64_t, char *, size_t &, ::Type::ID &, unsigned &) { return false; }
    uint64_t getNextId() { return 1; }
    double getScanCost(DataOrder o, uint64_t a, uint64_t ac, uint64_t b, uint64_t bc, uint64_t c, uint64_t cc) { return cost(h({1, ord(o), a, ac, b, bc, c, cc})); }
    double getScanCost(DataOrder o, uint64_t a, uint64_t ac, uint64_t b, uint64_t bc) { return cost(h({2, ord(o), a, ac, b, bc})); }
    double getScanCost(DataOrder o, uint64_t a, uint64_t ac) { return cost(h({3, ord(o), a, ac})); }
    double getJoinSelectivity(bool l1, uint64_t a, bool l2, uint64_t b, bool l3, uint64_t c, bool r1, uint64_t d, bool r2, uint64_t e, bool r3, uint64_t f) { return (double)(1 + h({4, l1, a, l2, b, l3, c, r1, d, r2, e, r3, f}) % 999) / 1000; }
    uint64_t getCardinality(uint64_t a, uint64_t b, uint64_t c) { return h({5, a, b, c}) % 2000; }
    uint64_t getCardinality() { return 2000; }
    unique_ptr<DBLayer::Scan> getScan(const DataOrder, const Aggr_t, Hint *) { return unique_ptr<DBLayer::Scan>(); }
};
typedef istringstream I;
static long num(I &is) { long v = 0; is >> v; return v; }
static map<const void *, long> ids;          // what was built where
static void term(I &is, uint64_t &v, bool &c) { long t = num(is); c = t < 0; v = c ? 1000 - t : t; }
static long back(uint64_t v, bool c) { return c ? -(long)(v - 1000) : (long) v; }
// the kinds of inner nodes of filters: any works alike
static const F::Type inner[] = {F::Or, F::And, F::Equal, F::NotEqual, F::Less, F::Not, F::Plus, F::Function, F::ArgumentList, F::Builtin_str, F::Builtin_regex, F::Builtin_replace, F::Builtin_in, F::Builtin_notin, F::Builtin_contains, F::Builtin_sameterm};
static F *filter(I &is) {
    string k; is >> k; F *f = new F(); f->valueid = 0;
    if (k == "v") { f->type = F::Variable; f->id = num(is); }
    else if (k == "l") { f->type = F::Literal; f->valueid = num(is); f->id = 77; f->value = "l" + to_string(f->valueid); }
    else { int t = num(is), n = num(is); f->type = inner[t % 16]; f->id = t; F **a[] = {&f->arg1, &f->arg2, &f->arg3, &f->arg4}; for (int i = 0; i < n; ++i) *a[i] = filter(is); if (t >= 16) f->subpattern = make_shared<SQ>(); }
    return f;
}
static string dump(const F *f) {
    string k; const F *a[] = {f->arg1, f->arg2, f->arg3, f->arg4}; for (const F *x : a) if (x) k += (k.empty() ? "" : ",") + dump(x);
    string t = f->type == F::Variable ? "var" : f->type == F::Literal ? (f->value == "l" + to_string(f->valueid) ? "lit" : "?") : "f";
    if (t == "f" && (f->type != inner[f->id % 16] || (bool) f->subpattern != (f->id >= 16))) t = "?";
    return "{\"t\":\"" + t + "\",\"id\":" + to_string(f->type == F::Literal ? (long) f->valueid : (long) f->id) + ",\"kids\":[" + k + "]}";
}
static void graph(I &is, QG &g);
struct Later { vector<pair<vector<F> *, vector<long>>> f; };
static void body(I &is, SQ &b, vector<long> &idl) {      // reads; the identifiers come in the order of tag()
    long n = num(is); for (; n; --n) { QG::Node x; idl.push_back(num(is)); term(is, x.subject, x.constSubject); term(is, x.predicate, x.constPredicate); term(is, x.object, x.constObject); x.additionalData = NULL; b.nodes.push_back(x); }
    for (n = num(is); n; --n) { idl.push_back(num(is)); F *f = filter(is); b.filters.push_back(*f); delete f; }
    for (n = num(is); n; --n) { b.optional.push_back(SQ()); body(is, b.optional.back(), idl); }
    for (n = num(is); n; --n) { b.unions.push_back(vector<SQ>()); for (long m = num(is); m; --m) { b.unions.back().push_back(SQ()); body(is, b.unions.back().back(), idl); } }
    for (n = num(is); n; --n) { QG::ValuesNode v; idl.push_back(num(is)); for (long m = num(is); m; --m) v.variables.push_back(num(is)); for (size_t i = 0; i < v.variables.size() * 2; ++i) v.values.push_back(i); b.valueNodes.push_back(v); }
    for (n = num(is); n; --n) { auto g = make_shared<QG>(60); graph(is, *g); b.subqueries.push_back(g); }
    for (n = num(is); n; --n) { auto g = make_shared<QG>(60); graph(is, *g); b.minuses.push_back(g); }
}
static map<const QG *, vector<long>> lists;
static void graph(I &is, QG &g) {
    ids[&g] = num(is); g.setDuplicateHandling(num(is) ? QG::NoDuplicates : QG::AllDuplicates);
    for (long n = num(is); n; --n) g.addProjection(num(is));
    for (long n = num(is); n; --n) { QG::Order o; o.id = num(is); o.descending = false; g.addOrder(o); }
    vector<unsigned> gv; for (long n = num(is); n; --n) gv.push_back(num(is)); const_cast<vector<unsigned> &>(g.getGroupBy()) = gv;
    for (long n = num(is); n; --n) { vector<unsigned> s(1, num(is)); g.getAggredateHandler().getNewOrExistingVar(AggregateHandler::COUNT, s); }
    body(is, g.getQuery(), lists[&g]);
}
// once nothing moves any more: where is what
static void tag(const SQ &b, const vector<long> &l, size_t &p) {
    for (auto &x : b.nodes) ids[&x] = l[p++];
    for (auto &x : b.filters) ids[&x] = l[p++];
    for (auto &x : b.optional) tag(x, l, p);
    for (auto &u : b.unions) for (auto &x : u) tag(x, l, p);
    for (auto &x : b.valueNodes) ids[&x] = l[p++];
    for (auto &x : b.subqueries) { size_t q = 0; tag(x->getQuery(), lists[x.get()], q); }
    for (auto &x : b.minuses) { size_t q = 0; tag(x->getQuery(), lists[x.get()], q); }
}
static string list(const vector<string> &v) { string s; for (auto &x : v) s += (s.empty() ? "" : ",") + x; return "[" + s + "]"; }
static string nums(const vector<unsigned> &v) { vector<string> s; for (auto x : v) s.push_back(to_string(x)); return list(s); }
static string edges(SQ &b) {
    vector<string> e, o, u, m;
    for (auto &x : b.edges) e.push_back("{\"a\":" + to_string(x.from) + ",\"b\":" + to_string(x.to) + ",\"c\":" + nums(x.common) + "}");
    for (auto &x : b.optional) o.push_back(edges(x));
    for (auto &x : b.unions) { vector<string> a; for (auto &y : x) a.push_back(edges(y)); u.push_back(list(a)); }
    for (auto &x : b.minuses) m.push_back(edges(x->getQuery()));
    return "{\"edges\":" + list(e) + ",\"opts\":" + list(o) + ",\"unis\":" + list(u) + ",\"minus\":" + list(m) + "}";
}
static void construct(QG &g);
static void below(SQ &b) { for (auto &x : b.subqueries) construct(*x); for (auto &x : b.optional) below(x); for (auto &u : b.unions) for (auto &x : u) below(x); for (auto &x : b.minuses) below(x->getQuery()); }
static void construct(QG &g) { below(g.getQuery()); g.constructEdges(); }
static long idOf(const void *p) { auto i = ids.find(p); return i == ids.end() ? -99 : i->second; }
static string dump(const Plan *p) {
    const char *op = "?", *perm = "[]"; bool sorted = false; long id = -1, arg = -1; vector<const Plan *> kids;
    switch (p->op) {
        case Plan::IndexScan: op = "scan"; break;
        case Plan::AggregatedIndexScan: op = "aggscan"; break;
        case Plan::FullyAggregatedIndexScan: op = "fullscan"; break;
        case Plan::NestedLoopJoin: op = "nlj"; kids = {p->left, p->right}; break;
        case Plan::MergeJoin: op = "merge"; arg = p->opArg; kids = {p->left, p->right}; break;
        case Plan::HashJoin: op = "hash"; kids = {p->left, p->right}; break;
        case Plan::CartProd: op = "cart"; kids = {p->left, p->right}; break;
        case Plan::Union: op = "union"; kids = {p->left, p->right}; break;
        case Plan::MergeUnion: op = "mergeunion"; kids = {p->left, p->right}; break;
        case Plan::HashGroupify: op = "groupify"; kids = {p->left}; break;
        case Plan::Filter: op = "filter"; kids = {p->left}; id = idOf(((FilterArgs *) p->right)->filter); break;
        case Plan::Subselect: op = "subselect"; kids = {p->left}; id = idOf(p->right); break;
        case Plan::Minus: op = "minus"; kids = {p->left, p->right}; id = idOf(p->right->subquery.get()); break;
        case Plan::ValuesScan: op = "values"; id = idOf(p->left); break;
        case Plan::GroupBy: op = "groupby"; kids = {p->left}; break;
        case Plan::Aggregates: op = "aggregates"; kids = {p->left}; break;
        case Plan::Having: op = "having"; kids = {p->left}; break;
        case Plan::TableFunction: op = "tablefunction"; kids = {p->left}; break;
        case Plan::Singleton: op = "singleton"; break;
    }
    if (op == string("scan") || op == string("aggscan") || op == string("fullscan")) {
        id = idOf(p->right);
        switch ((DBLayer::DataOrder) p->opArg) {
            case DBLayer::Order_Subject_Predicate_Object: sorted = true; case DBLayer::Order_No_Order_SPO: perm = "[1,2,3]"; break;
            case DBLayer::Order_Subject_Object_Predicate: sorted = true; case DBLayer::Order_No_Order_SOP: perm = "[1,3,2]"; break;
            case DBLayer::Order_Object_Predicate_Subject: sorted = true; case DBLayer::Order_No_Order_OPS: perm = "[3,2,1]"; break;
            case DBLayer::Order_Object_Subject_Predicate: sorted = true; case DBLayer::Order_No_Order_OSP: perm = "[3,1,2]"; break;
            case DBLayer::Order_Predicate_Subject_Object: sorted = true; case DBLayer::Order_No_Order_PSO: perm = "[2,1,3]"; break;
            case DBLayer::Order_Predicate_Object_Subject: sorted = true; case DBLayer::Order_No_Order_POS: perm = "[2,3,1]"; break;
        }
    }
    vector<string> k; for (auto x : kids) k.push_back(x ? dump(x) : string("{}"));
    return string("{\"op\":\"") + op + "\",\"id\":" + to_string(id) + ",\"ord\":" + to_string((int) p->ordering) + ",\"arg\":" + to_string(arg) + ",\"opt\":" + (p->optional ? "true" : "false") +
        ",\"perm\":" + perm + ",\"sorted\":" + (sorted ? "true" : "false") + ",\"kids\":" + list(k) + "}";
}
static void run(vector<string> &lines) {
    unique_ptr<QG> g; string js;
    for (auto &ln : lines) {
        I is(ln.substr(0, ln.find('\t'))); string op, rest = ln.find('\t') == string::npos ? "" : ln.substr(ln.find('\t') + 1); is >> op;
        if (op == "G") {          // G <tokens> TAB <json>
            g.reset(); ids.clear(); lists.clear(); g.reset(new QG(60)); graph(is, *g); js = rest;
            size_t p = 0; tag(g->getQuery(), lists[g.get()], p);
            construct(*g); Js("edges").raw("g", js).raw("e", edges(g->getQuery())).log();
        }
        else if (op == "P") {
            Layer db(num(is)); PlanGen pg; Plan *p = pg.translate(db, *g, num(is));
            if (!p) { Js("noplan").raw("g", js).log(); continue; }
            Js("plan").raw("g", js).raw("pl", dump(p)).i("seed", db.seed).log();
        }
        else if (op == "F") {     // F how (copy, assign, vector) nask {n vars} <tokens> TAB <json>
            int how = num(is); vector<vector<unsigned>> ask(num(is)); for (auto &a : ask) { a.resize(num(is)); for (auto &v : a) v = num(is); }
            unique_ptr<F> f(filter(is)), o(new F(*f)); F c; c.type = F::Or; c.arg1 = new F(); c.arg1->type = F::And; c.subpattern = make_shared<SQ>();
            const F *r = &c; vector<F> vec; F d(*f);
            if (how == 0) r = f.get(); else if (how == 1) { f.reset(); r = o.get(); } else if (how == 2) { c = *f; f.reset(); c = *&c; } else { vec.push_back(c); vec.push_back(*f); vec.erase(vec.begin()); f.reset(); r = &vec[0]; }
            vector<string> l, a; for (auto &x : r->allIdVarsAndLiterals()) l.push_back("[" + to_string(x.first) + "," + (x.second ? "1" : "0") + "]");
            for (auto &s : ask) a.push_back("{\"vs\":" + nums(s) + ",\"r\":" + (r->isApplicable(set<unsigned>(s.begin(), s.end())) ? "true" : "false") + "}");
            Js("filter").raw("e", rest).i("how", how).raw("got", dump(r)).raw("lits", list(l)).raw("ask", list(a)).log();
        }
        else if (op == "J") {
            QG::Node x, y; vector<long> a, b; for (int i = 0; i < 3; ++i) a.push_back(num(is)); for (int i = 0; i < 3; ++i) b.push_back(num(is));
            I t(ln.substr(2)); term(t, x.subject, x.constSubject); term(t, x.predicate, x.constPredicate); term(t, x.object, x.constObject); term(t, y.subject, y.constSubject); term(t, y.predicate, y.constPredicate); term(t, y.object, y.constObject);
            Js("canjoin").arr("x", a).arr("y", b).b("r", x.canJoin(y)).log();
        }
    }
}
int main(int argc, char **argv) { return h_main(argc, argv, run); }
