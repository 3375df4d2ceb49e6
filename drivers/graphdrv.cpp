// Drives the graph library: one graph of a chosen kind per scenario, built and changed through its public interface, and
// everything its iterators and accessors deliver.
#undef min
#undef max
#include "Snap.h"
#include "harness.h"
#include <set>
#include <map>
#include <algorithm>
using std::string; using std::vector;
typedef vector<int> VI;
template<bool B> struct Tag {};
typedef Tag<true> Y; typedef Tag<false> Nn;
struct KU { typedef PUNGraph P; enum { und = 1, multi = 0, nd = 0, ed = 0, bip = 0, attr = 0, unch = 1, simple = 1 }; };
struct KV { typedef PUndirNet P; enum { und = 1, multi = 0, nd = 0, ed = 0, bip = 0, attr = 0, unch = 0, simple = 0 }; };
struct KD { typedef PNGraph P; enum { und = 0, multi = 0, nd = 0, ed = 0, bip = 0, attr = 0, unch = 1, simple = 1 }; };
struct KW { typedef PDirNet P; enum { und = 0, multi = 0, nd = 0, ed = 0, bip = 0, attr = 0, unch = 0, simple = 0 }; };
struct KN { typedef TPt<TNodeNet<TInt> > P; enum { und = 0, multi = 0, nd = 1, ed = 0, bip = 0, attr = 0, unch = 0, simple = 0 }; };
struct KE { typedef TPt<TNodeEDatNet<TInt, TInt> > P; enum { und = 0, multi = 0, nd = 1, ed = 1, bip = 0, attr = 0, unch = 0, simple = 0 }; };
struct KM { typedef PNEGraph P; enum { und = 0, multi = 1, nd = 0, ed = 0, bip = 0, attr = 0, unch = 0, simple = 0 }; };
struct KX { typedef TPt<TNodeEdgeNet<TInt, TInt> > P; enum { und = 0, multi = 1, nd = 1, ed = 1, bip = 0, attr = 0, unch = 0, simple = 0 }; };
struct KA { typedef PNEANet P; enum { und = 0, multi = 1, nd = 0, ed = 0, bip = 0, attr = 1, unch = 0, simple = 0 }; };
struct KB { typedef PBPGraph P; enum { und = 1, multi = 0, nd = 0, ed = 0, bip = 1, attr = 0, unch = 0, simple = 0 }; };

struct AttrInfo { int type; };      // 0 int, 1 flt, 2 str, 3 int vector
static std::map<string, AttrInfo> naT, eaT;

static string seq(const VI &v) { string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += std::to_string(v[i]); } return s + "]"; }
static string tup(const vector<VI> &v) { string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += seq(v[i]); } return s + "]"; }

template<class I> int ndat(const I &ni, Y, Nn) { return ni.GetDat(); }
template<class I> int ndat(const I &ni, Nn, Y) { return ni.IsLeft(); }
template<class I> int ndat(const I &, Nn, Nn) { return 0; }
template<class I> int edat(I &ei, Y) { return ei(); }
template<class I> int edat(I &, Nn) { return 0; }
template<class P> void eids(const P &g, VI &o, Y) { TIntV v; g->GetEIdV(v); for (int i = 0; i < v.Len(); i++) o.push_back(v[i]); }
template<class P> void eids(const P &, VI &, Nn) {}
static VI natt(const PNEANet &g, const string &a, int id) {
    int t = naT[a].type; TStr n(a.c_str());
    if (t == 0) return VI(1, (int)g->GetIntAttrDatN(id, n)); if (t == 1) return VI(1, (int)(double)g->GetFltAttrDatN(id, n));
    if (t == 2) return VI(1, atoi(g->GetStrAttrDatN(id, n).CStr()));
    TIntV v = g->GetIntVAttrDatN(id, n); VI r; for (int i = 0; i < v.Len(); i++) r.push_back(v[i]); return r;
}
static VI eatt(const PNEANet &g, const string &a, int id) {
    int t = eaT[a].type; TStr n(a.c_str());
    if (t == 0) return VI(1, (int)g->GetIntAttrDatE(id, n)); if (t == 1) return VI(1, (int)(double)g->GetFltAttrDatE(id, n));
    if (t == 2) return VI(1, atoi(g->GetStrAttrDatE(id, n).CStr()));
    TIntV v = g->GetIntVAttrDatE(id, n); VI r; for (int i = 0; i < v.Len(); i++) r.push_back(v[i]); return r;
}
static void atts(const PNEANet &g, string &na, string &ea, Y) {
    na = ea = "["; bool f = true;
    for (auto &a : naT) for (PNEANet::TObj::TNodeI i = g->BegNI(); i < g->EndNI(); i++) { if (!f) na += ","; f = false; na += "[" + Js::q(a.first) + "," + std::to_string(i.GetId()) + "," + seq(natt(g, a.first, i.GetId())) + "]"; }
    f = true;
    for (auto &a : eaT) for (PNEANet::TObj::TEdgeI i = g->BegEI(); i < g->EndEI(); i++) { if (!f) ea += ","; f = false; ea += "[" + Js::q(a.first) + "," + std::to_string(i.GetId()) + "," + seq(eatt(g, a.first, i.GetId())) + "]"; }
    na += "]"; ea += "]";
}
template<class P> void atts(const P &, string &na, string &ea, Nn) { na = ea = "[]"; }

// everything, as one JSON record
template<class K> string dump(const typename K::P &g, bool withAttrs = true) {
    typedef typename K::P::TObj O;
    string nodes = "["; bool f = true;
    for (typename O::TNodeI i = g->BegNI(); i < g->EndNI(); i++) {
        if (!f) nodes += ","; f = false;
        VI in, out, nb;
        for (int j = 0; j < i.GetInDeg(); j++) in.push_back(i.GetInNId(j));
        for (int j = 0; j < i.GetOutDeg(); j++) out.push_back(i.GetOutNId(j));
        for (int j = 0; j < i.GetDeg(); j++) nb.push_back(i.GetNbrNId(j));
        nodes += "[" + std::to_string(i.GetId()) + "," + std::to_string(ndat(i, Tag<K::nd>(), Tag<K::bip>())) + "," + std::to_string(i.GetDeg()) + "," + std::to_string(i.GetInDeg()) + "," + std::to_string(i.GetOutDeg())
               + "," + seq(in) + "," + seq(out) + "," + seq(nb) + "]";
    }
    vector<VI> es; int lim = 0;
    for (typename O::TEdgeI i = g->BegEI(); i < g->EndEI() && lim < 2000; i++, lim++) { VI q; q.push_back(i.GetSrcNId()); q.push_back(i.GetDstNId()); q.push_back(i.GetId()); q.push_back(edat(i, Tag<K::ed>())); es.push_back(q); }
    VI ei; eids(g, ei, Tag<K::multi>());
    TIntV nv; g->GetNIdV(nv); VI n; for (int j = 0; j < nv.Len(); j++) n.push_back(nv[j]);
    string na, ea; if (withAttrs) atts(g, na, ea, Tag<K::attr>()); else na = ea = "[]";
    bool ok = false; try { ok = g->IsOk(false); } catch (...) {}
    return "{\"nodes\":" + nodes + "],\"edges\":" + tup(es) + ",\"nidv\":" + seq(n) + ",\"eidv\":" + seq(ei) + ",\"n\":" + std::to_string(g->GetNodes()) + ",\"m\":" + std::to_string(g->GetEdges())
         + ",\"mx\":" + std::to_string(g->GetMxNId()) + ",\"ok\":" + (ok ? "true" : "false") + ",\"empty\":" + (g->Empty() ? "true" : "false") + ",\"na\":" + na + ",\"ea\":" + ea + "}";
}
// ---- operations that only some kinds have
template<class P> int addNode(P &g, int id, int, bool left, Tag<false>, Y) { return g->AddNode(id, left); }
template<class P> int addNode(P &g, int id, int dat, bool, Tag<true>, Nn) { return g->AddNode(id, TInt(dat)); }
template<class P> int addNode(P &g, int id, int, bool, Tag<false>, Nn) { return g->AddNode(id); }
template<class P> int addEdge(P &g, int s, int d, int, int, Nn, Nn) { return g->AddEdge(s, d); }
template<class P> int addEdge(P &g, int s, int d, int, int w, Nn, Y) { return g->AddEdge(s, d, TInt(w)); }
template<class P> int addEdge(P &g, int s, int d, int e, int, Y, Nn) { return g->AddEdge(s, d, e); }
template<class P> int addEdge(P &g, int s, int d, int e, int w, Y, Y) { return g->AddEdge(s, d, e, TInt(w)); }
template<class P> void delEdge(P &g, int s, int d, bool, Y) { g->DelEdge(s, d); }
template<class P> void delEdge(P &g, int s, int d, bool dir, Nn) { g->DelEdge(s, d, dir); }
template<class P> bool isEdgeU(P &g, int s, int d, Y) { return g->IsEdge(s, d); }
template<class P> bool isEdgeU(P &g, int s, int d, Nn) { return g->IsEdge(s, d, false); }
template<class P> void delId(P &g, int e, Y) { g->DelEdge(e); }
template<class P> void delId(P &, int, Nn) {}
template<class P> int getEId(P &g, int s, int d, Y) { return g->GetEId(s, d); }
template<class P> int getEId(P &, int, int, Nn) { return -1; }
template<class P> void getEDat(P &g, int s, int d, int &ok, int &w, Y) { TInt x; ok = g->GetEDat(s, d, x); w = ok ? x.Val : 0; if (ok && g->GetEDat(s, d).Val != w) w = -77; }
template<class P> void getEDat(P &, int, int, int &ok, int &w, Nn) { ok = -1; w = 0; }
struct Ops { virtual ~Ops() {} virtual void run(std::istringstream &in, const string &cmd) = 0; };
static int rdint(std::istringstream &in) { int x = 0; in >> x; return x; }
static VI rdv(std::istringstream &in) { VI v(rdint(in)); for (auto &x : v) in >> x; return v; }
static TIntV tv(const VI &v) { TIntV r; for (int x : v) r.Add(x); return r; }

template<class K> struct Run : Ops {
    typedef typename K::P P; typedef typename P::TObj O;
    P g;
    Run() : g(O::New()) {}
    void logDerived(const char *how, const string &k, const string &ids, bool ren, const string &res, const VI &x = VI()) {
        Js("derived").str("how", how).str("k", k).raw("ids", ids).b("ren", ren).arr("x", x).raw("res", res).log();
    }
    // unchecked and vector operations
    void unch(std::istringstream &in, const string &c, Y) {
        if (c == "addnodeu") { int id = rdint(in); int r = g->AddNodeUnchecked(id); Js("addnodeu").i("id", id).i("ret", r).log(); }
        else if (c == "addedge2") { int s = rdint(in), d = rdint(in); int r = g->AddEdge2(s, d); Js("addedge2").i("s", s).i("d", d).i("ret", r).log(); }
        else if (c == "addedges") {
            int n = rdint(in); vector<VI> ps; for (int i = 0; i < n; i++) { VI q; q.push_back(rdint(in)); q.push_back(rdint(in)); ps.push_back(q); }
            for (auto &q : ps) g->AddEdgeUnchecked(q[0], q[1]);
            g->SortNodeAdjV(); Js("addedges").arr2("ps", ps).log();
        } else if (c == "sortadj") { g->SortNodeAdjV(); Js("same").log(); }
        else if (c == "addnodev") { int id = rdint(in); VI a = rdv(in), b = rdv(in); addv(id, a, b, Tag<K::und>()); }
    }
    void unch(std::istringstream &, const string &, Nn) {}
    void addv(int id, const VI &a, const VI &, Y) { int r = g->AddNode(id, tv(a)); Js("addnodev").i("id", id).i("ret", r).arr("out", a).arr("in", VI()).log(); }
    void addv(int id, const VI &a, const VI &b, Nn) { int r = g->AddNode(id, tv(b), tv(a)); Js("addnodev").i("id", id).i("ret", r).arr("out", a).arr("in", b).log(); }
    // node data
    void ndop(std::istringstream &in, const string &c, Y) {
        if (c == "setnd") { int n = rdint(in), v = rdint(in); g->SetNDat(n, TInt(v)); if (g->GetNDat(n).Val != v) Js("bad").log(); Js("setnd").i("n", n).i("v", v).log(); }
        else if (c == "sort") {
            string how; in >> how; bool asc = how == "id" || how == "dat";
            if (how[0] == 'i') g->SortNIdById(asc); else g->SortNIdByDat(asc);
            VI o; for (typename O::TNodeI i = g->BegNI(); i < g->EndNI(); i++) o.push_back(i.GetId());
            Js("sort").str("how", how).arr("ord", o).log();
        }
    }
    void ndop(std::istringstream &, const string &, Nn) {}
    void edop(std::istringstream &in, const string &c, Y, Nn) {
        if (c == "seted") { int s = rdint(in), d = rdint(in), v = rdint(in); g->SetEDat(s, d, TInt(v)); Js("seted").i("s", s).i("d", d).i("e", 0).i("v", v).log(); }
        else if (c == "setalled") { int v = rdint(in); g->SetAllEDat(TInt(v)); Js("setalled").i("v", v).log(); }
        else if (c == "wsub") wsub(in);
    }
    void edop(std::istringstream &in, const string &c, Y, Y) {
        if (c == "setede") { int e = rdint(in), v = rdint(in); g->SetEDat(e, TInt(v)); Js("seted").i("s", 0).i("d", 0).i("e", e).i("v", v).log(); }
        else if (c == "setalled") { int v = rdint(in); g->SetAllEDat(TInt(v)); Js("setalled").i("v", v).log(); }
        else if (c == "wsub") wsub(in);
    }
    template<class T> void edop(std::istringstream &, const string &, Nn, T) {}
    void wsub(std::istringstream &in) { int w = rdint(in), cmp = rdint(in); P h = TSnap::GetEDatSubGraph(g, TInt(w), cmp); VI a; a.push_back(w); a.push_back(cmp); logDerived("wsub", "", seq(a), false, dump<K>(h)); }
    // derived graphs of the same kind
    void same(std::istringstream &in, const string &c, Nn) {    // not bipartite
        if (c == "sub") { VI v = rdv(in); P h = TSnap::GetSubGraph(g, tv(v)); logDerived("sub", "", seq(v), false, dump<K>(h, false)); }
        else if (c == "esub") esub(rdv(in), Tag<K::multi>());
        else if (c == "psub") { int n = rdint(in); vector<VI> ps; TIntPrV v; for (int i = 0; i < n; i++) { VI q; q.push_back(rdint(in)); q.push_back(rdint(in)); ps.push_back(q); v.Add(TIntPr(q[0], q[1])); } psub(ps, v, Tag<K::multi>()); }
        else if (c == "conv") { string k; in >> k; bool ren = rdint(in); conv(k, ren); }
        else if (c == "csub") { string k; in >> k; bool ren = rdint(in); csub(k, rdv(in), ren); }
        else if (c == "list") { string k; in >> k; TStr f("edges.txt"); TSnap::SaveEdgeList(g, f, "a graph"); list(k); }
        else if (c == "addself") { TSnap::AddSelfEdges(g); Js("addself").log(); }
        else if (c == "delself") { TSnap::DelSelfEdges(g); Js("delself").log(); }
        else if (c == "makeundir") mkundir(Tag<K::und>());
        else if (c == "seteids") {}
    }
    void same(std::istringstream &, const string &, Y) {}
    void mkundir(Nn) { TSnap::MakeUnDir(g); Js("makeundir").log(); }
    void mkundir(Y) {}
    void esub(const VI &v, Y) { P h = TSnap::GetESubGraph(g, tv(v)); logDerived("esub", "", seq(v), false, dump<K>(h, false)); }
    void esub(const VI &, Nn) {}
    void psub(const vector<VI> &ps, const TIntPrV &v, Nn) { P h = TSnap::GetESubGraph(g, v); logDerived("psub", "", tup(ps), false, dump<K>(h, false)); }
    void psub(const vector<VI> &, const TIntPrV &, Y) {}
    void conv(const string &k, bool ren) {
        if (k == "U") logDerived("conv", k, "[]", ren, dump<KU>(TSnap::ConvertGraph<PUNGraph>(g, ren)));
        if (k == "D") logDerived("conv", k, "[]", ren, dump<KD>(TSnap::ConvertGraph<PNGraph>(g, ren)));
        if (k == "M") logDerived("conv", k, "[]", ren, dump<KM>(TSnap::ConvertGraph<PNEGraph>(g, ren)));
    }
    void csub(const string &k, const VI &v, bool ren) {
        if (k == "U") logDerived("csub", k, seq(v), ren, dump<KU>(TSnap::ConvertSubGraph<PUNGraph>(g, tv(v), ren)));
        if (k == "D") logDerived("csub", k, seq(v), ren, dump<KD>(TSnap::ConvertSubGraph<PNGraph>(g, tv(v), ren)));
    }
    void list(const string &k) {
        TStr f("edges.txt");
        if (k == "U") logDerived("list", k, "[]", false, dump<KU>(TSnap::LoadEdgeList<PUNGraph>(f)));
        if (k == "D") logDerived("list", k, "[]", false, dump<KD>(TSnap::LoadEdgeList<PNGraph>(f, 0, 1)));
    }
    // the plain graphs have a few more
    void plain(std::istringstream &in, const string &c, Y) {
        if (c == "subr") { VI v = rdv(in); bool ren = rdint(in); logDerived("sub", "", seq(v), ren, dump<K>(TSnap::GetSubGraph(g, tv(v), ren))); }
        else if (c == "ego") ego(rdint(in), Tag<K::und>());
        else if (c == "undir") undir(Tag<K::und>());
        else if (c == "small") { }
    }
    void plain(std::istringstream &, const string &, Nn) {}
    void ego(int n, Y) { int a = 0; PUNGraph h = TSnap::GetEgonet(g, n, a); logDerived("ego", "", seq(VI(1, n)), false, dump<KU>(h), VI(1, a)); }
    void ego(int n, Nn) { int a = 0, b = 0; PNGraph h = TSnap::GetEgonet(g, n, a, b); VI x; x.push_back(a); x.push_back(b); logDerived("ego", "", seq(VI(1, n)), false, dump<KD>(h), x); }
    void undir(Nn) { P h = TSnap::GetUnDir(g); logDerived("undir", "D", "[]", false, dump<K>(h)); }
    void undir(Y) {}
    // attributes
    void attr(std::istringstream &in, const string &c, Y) {
        string on, a; in >> on >> a; TStr n(a.c_str()); bool N = on == "n"; std::map<string, AttrInfo> &T = N ? naT : eaT;
        if (c == "addattr") {
            int t = rdint(in), d = rdint(in); T[a].type = t; TStr ds(std::to_string(d).c_str());
            if (t == 0) N ? g->AddIntAttrN(n, d) : g->AddIntAttrE(n, d);
            if (t == 1) N ? g->AddFltAttrN(n, TFlt(d)) : g->AddFltAttrE(n, TFlt(d));
            if (t == 2) N ? g->AddStrAttrN(n, ds) : g->AddStrAttrE(n, ds);
            if (t == 3) N ? g->AddIntVAttrN(n) : g->AddIntVAttrE(n);
            Js("addattr").str("on", on).str("a", a).arr("def", t == 3 ? VI() : VI(1, d)).log();
        } else if (c == "setattr") {
            int i = rdint(in); VI v = rdv(in); int t = T[a].type; int x = v.empty() ? 0 : v[0]; TStr s(std::to_string(x).c_str());
            if (t == 0) N ? g->AddIntAttrDatN(i, x, n) : g->AddIntAttrDatE(i, x, n);
            if (t == 1) N ? g->AddFltAttrDatN(i, TFlt(x), n) : g->AddFltAttrDatE(i, TFlt(x), n);
            if (t == 2) N ? g->AddStrAttrDatN(i, s, n) : g->AddStrAttrDatE(i, s, n);
            if (t == 3) N ? g->AddIntVAttrDatN(i, tv(v), n) : g->AddIntVAttrDatE(i, tv(v), n);
            else v = VI(1, x);
            Js("setattr").str("on", on).str("a", a).i("i", i).arr("v", v).log();
        } else if (c == "delattrdat") { int i = rdint(in); N ? g->DelAttrDatN(i, n) : g->DelAttrDatE(i, n); Js("delattrdat").str("on", on).str("a", a).i("i", i).log(); }
        else if (c == "delattr") { N ? g->DelAttrN(n) : g->DelAttrE(n); T.erase(a); Js("delattr").str("on", on).str("a", a).log(); }
    }
    void attr(std::istringstream &, const string &, Nn) {}
    void cnts(int k, int cc, const VI &set, Nn) {
        Js j("cnts"); j.i("k", k).i("c", cc).arr("set", set);
        j.i("indeg", TSnap::CntInDegNodes(g, k)).i("outdeg", TSnap::CntOutDegNodes(g, k)).i("deg", TSnap::CntDegNodes(g, k)).i("nonz", TSnap::CntNonZNodes(g));
        bool e = g->Empty(); j.i("mxd", e ? -1 : TSnap::GetMxDegNId(g)).i("mxi", e ? -1 : TSnap::GetMxInDegNId(g)).i("mxo", e ? -1 : TSnap::GetMxOutDegNId(g));
        auto pv = [](const TIntPrV &v) { vector<VI> r; for (int i = 0; i < v.Len(); i++) { VI q; q.push_back(v[i].Val1); q.push_back(v[i].Val2); r.push_back(q); } return r; };
        TIntPrV a, b, d, ni, no; TSnap::GetInDegCnt(g, a); TSnap::GetOutDegCnt(g, b); TSnap::GetDegCnt(g, d); TSnap::GetNodeInDegV(g, ni); TSnap::GetNodeOutDegV(g, no);
        j.arr2("hin", pv(a)).arr2("hout", pv(b)).arr2("hdeg", pv(d)).arr2("nin", pv(ni)).arr2("nout", pv(no));
        j.i("uu", TSnap::CntUniqUndirEdges(g)).i("ud", TSnap::CntUniqDirEdges(g)).i("ub", TSnap::CntUniqBiDirEdges(g)).i("self", TSnap::CntSelfEdges(g));
        TIntSet s; for (int x : set) s.AddKey(x); j.i("toset", cc < 0 ? 0 : TSnap::CntEdgesToSet(g, cc, s)).log();
    }
    void cnts(int, int, const VI &, Y) {}
    int rndE(Y) { return g->GetEdges() ? g->GetRndEId() : -1; }
    int rndE(Nn) { return -1; }
    void run(std::istringstream &in, const string &c) {
        if (c == "addnode") { int id = rdint(in), dat = rdint(in); bool left = rdint(in); int r = addNode(g, id, dat, left, Tag<K::nd>(), Tag<K::bip>()); Js("addnode").i("id", id).i("dat", K::nd ? dat : 0).b("left", K::bip && left).i("ret", r).log(); }
        else if (c == "addedge") { int s = rdint(in), d = rdint(in), id = rdint(in), w = rdint(in); int r = addEdge(g, s, d, id, w, Tag<K::multi>(), Tag<K::ed>()); Js("addedge").i("s", s).i("d", d).i("id", K::multi ? id : -1).i("w", K::ed ? w : 0).i("ret", r).log(); }
        else if (c == "deledge") { int s = rdint(in), d = rdint(in); bool dir = rdint(in); delEdge(g, s, d, dir, Tag<K::und>()); Js(K::multi && K::ed ? "deledge1" : "deledge").i("s", s).i("d", d).b("dir", dir).log(); }
        else if (c == "deledgeid") { int e = rdint(in); delId(g, e, Tag<K::multi>()); Js("deledgeid").i("e", e).log(); }
        else if (c == "delnode") { int n = rdint(in); g->DelNode(n); Js("delnode").i("n", n).log(); }
        else if (c == "defrag") { g->Defrag(rdint(in)); Js("same").log(); }
        else if (c == "reserve") { int a = rdint(in), b = rdint(in); if (g->Empty() && !K::bip) g->Reserve(a, b); Js("same").log(); }
        else if (c == "copy") { P h = P(new O(*g)); g = h; Js("same").log(); }
        else if (c == "assign") { P h = O::New(); h->AddNode(3); *h = *g; g->Clr(); g = h; Js("same").log(); }
        else if (c == "save") { { TFOut o("g.bin"); g->Save(o); } { TFIn i("g.bin"); g = O::Load(i); } Js("same").log(); }
        else if (c == "clr") { g->Clr(); naT.clear(); eaT.clear(); Js("clr").log(); }
        else if (c == "dump") { Js("dump").raw("res", dump<K>(g)).log(); }
        else if (c == "rnd") { Js("rnd").i("n", g->Empty() ? -1 : g->GetRndNId()).i("e", rndE(Tag<K::multi>())).log(); }
        else if (c == "pairs") {
            vector<VI> ps; TIntV nv; g->GetNIdV(nv);
            for (int i = 0; i < nv.Len(); i++) for (int j = 0; j < nv.Len(); j++) {
                int s = nv[i], d = nv[j]; VI q; q.push_back(s); q.push_back(d);
                bool e = g->IsEdge(s, d);
                q.push_back(e); q.push_back(isEdgeU(g, s, d, Tag<K::und>()));
                typename O::TNodeI a = g->GetNI(s), b = g->GetNI(d);
                q.push_back(b.IsInNId(s)); q.push_back(a.IsOutNId(d)); q.push_back(a.IsNbrNId(d));
                if (e) { typename O::TEdgeI x = g->GetEI(s, d); q.push_back(x.GetSrcNId()); q.push_back(x.GetDstNId()); } else { q.push_back(-1); q.push_back(-1); }
                q.push_back(getEId(g, s, d, Tag<K::multi>()));
                int ok, w; getEDat(g, s, d, ok, w, Tag<K::ed && !K::multi>()); q.push_back(ok); q.push_back(w);
                ps.push_back(q);
            }
            Js("pairs").arr2("ps", ps).log();
        }
        else if (c == "cnts") { int k = rdint(in), cc = rdint(in); cnts(k, cc, rdv(in), Tag<K::bip>()); }
        else if (c == "delnodes") { VI v = rdv(in); TSnap::DelNodes(g, tv(v)); Js("delnodes").arr("ids", v).log(); }
        else if (c == "delzero") { TSnap::DelZeroDegNodes(g); Js("delzero").log(); }
        else if (c == "deldegk") { int a = rdint(in), b = rdint(in); TSnap::DelDegKNodes(g, a, b); Js("deldegk").i("out", a).i("in", b).log(); }
        else if (c.find("attr") != string::npos) attr(in, c, Tag<K::attr>());
        else { unch(in, c, Tag<K::unch>()); ndop(in, c, Tag<K::nd>()); edop(in, c, Tag<K::ed>(), Tag<K::multi>()); same(in, c, Tag<K::bip>()); plain(in, c, Tag<K::simple>()); }
    }
};
static void scenario(vector<string> &lines) {
    Ops *o = NULL;
    for (auto &l : lines) {
        std::istringstream in(l); string c; in >> c;
        if (c == "new") {
            string k; in >> k; naT.clear(); eaT.clear();
            o = k == "U" ? (Ops *)new Run<KU>() : k == "V" ? (Ops *)new Run<KV>() : k == "D" ? (Ops *)new Run<KD>() : k == "W" ? (Ops *)new Run<KW>() : k == "N" ? (Ops *)new Run<KN>()
              : k == "E" ? (Ops *)new Run<KE>() : k == "M" ? (Ops *)new Run<KM>() : k == "X" ? (Ops *)new Run<KX>() : k == "A" ? (Ops *)new Run<KA>() : (Ops *)new Run<KB>();
            Js("new").str("k", k).log();
        } else o->run(in, c);
    }
}
int main(int argc, char **argv) { return h_main(argc, argv, scenario, 20); }
