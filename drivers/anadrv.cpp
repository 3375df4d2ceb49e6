// Drives the analytics of the graph library: a graph per scenario, then questions about it.  Real numbers are reported as
// rounded integers (the script gives no scale; the specification knows it).
#include <algorithm>
#include <vector>
#include <cstdint>
static inline int64_t min(int64_t a, int64_t b) { return a < b ? a : b; }    // bfsdfs.h relies on one being visible
#undef min
#undef max
#include "Snap.h"
#include "harness.h"
#include <cmath>
#include <set>
#include <map>
using std::string; using std::vector;
typedef vector<int> VI; typedef vector<VI> VV;
struct Bad {};
static string seq(const VI &v) { string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += std::to_string(v[i]); } return s + "]"; }
static string tup(const VV &v) { string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += seq(v[i]); } return s + "]"; }
static string cat(const vector<string> &v) { string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += v[i]; } return s + "]"; }
static int S4(double v, double f = 1e4) { if (!(v == v) || fabs(v * f) > 2e9) return -2000000000; return (int)llround(v * f); }
static VI vec(const TIntV &v) { VI r; for (int i = 0; i < v.Len(); i++) r.push_back(v[i]); return r; }
static VV prs(const TIntPrV &v) { VV r; for (int i = 0; i < v.Len(); i++) { VI q; q.push_back(v[i].Val1); q.push_back(v[i].Val2); r.push_back(q); } return r; }
static VV trs(const TIntTrV &v) { VV r; for (int i = 0; i < v.Len(); i++) { VI q; q.push_back(v[i].Val1); q.push_back(v[i].Val2); q.push_back(v[i].Val3); r.push_back(q); } return r; }
static VV ih(const TIntH &h) { VV r; for (int k = h.FFirstKeyId(); h.FNextKeyId(k);) { VI q; q.push_back(h.GetKey(k)); q.push_back(h[k]); r.push_back(q); } return r; }
static VV fh(const TIntFltH &h, double f = 1e4) { VV r; for (int k = h.FFirstKeyId(); h.FNextKeyId(k);) { VI q; q.push_back(h.GetKey(k)); q.push_back(S4(h[k], f)); r.push_back(q); } return r; }
static VV pfh(const TIntPrFltH &h, double f = 1e4) { VV r; for (int k = h.FFirstKeyId(); h.FNextKeyId(k);) { VI q; q.push_back(h.GetKey(k).Val1); q.push_back(h.GetKey(k).Val2); q.push_back(S4(h[k], f)); r.push_back(q); } return r; }
template<class T> VV fv(const vector<T> &v, double f = 1e4) { VV r; for (size_t i = 0; i < v.size(); i++) { VI q; q.push_back(i); q.push_back(S4(v[i], f)); r.push_back(q); } return r; }
static VV ccs(const TCnComV &c) { VV r; for (int i = 0; i < c.Len(); i++) r.push_back(vec(c[i].NIdV)); return r; }
template<class P> string gr(const P &g) {
    VI n; VV e;
    for (typename P::TObj::TNodeI i = g->BegNI(); i < g->EndNI(); i++) n.push_back(i.GetId());
    for (typename P::TObj::TEdgeI i = g->BegEI(); i < g->EndEI(); i++) { VI q; q.push_back(i.GetSrcNId()); q.push_back(i.GetDstNId()); e.push_back(q); }
    vector<string> r; r.push_back(seq(n)); r.push_back(tup(e)); return cat(r);
}
static string two(const string &a, const string &b) { vector<string> r; r.push_back(a); r.push_back(b); return cat(r); }
static string n1(int a) { return std::to_string(a); }
template<int K> struct Kd {};      // 0 undirected, 1 directed, 2 directed multigraph

static void mkEdge(PUNGraph g, int s, int d, int) { g->AddEdge(s, d); }
static void mkEdge(PNGraph g, int s, int d, int) { g->AddEdge(s, d); }
static void mkEdge(PNEANet g, int s, int d, int w) { int e = g->AddEdge(s, d); g->AddIntAttrDatE(e, w, "capacity"); g->AddFltAttrDatE(e, w, "weight"); }
static void prep(PNEANet g) { g->AddIntAttrE("capacity"); g->AddFltAttrE("weight"); }
template<class P> void prep(P) {}

// what only some kinds have
static bool only(const PUNGraph &g, const string &f, const VI &a, string &r) {
    TCnComV c; TIntPrV p; TIntV v; TIntFltH h;
    if (f == "bicon") { TSnap::GetBiCon(g, c); r = tup(ccs(c)); }
    else if (f == "biconsz") { TSnap::GetBiConSzCnt(g, p); r = tup(prs(p)); }
    else if (f == "art") { TSnap::GetArtPoints(g, v); r = seq(vec(v)); }
    else if (f == "bridges") { TSnap::GetEdgeBridges(g, p); r = tup(prs(p)); }
    else if (f == "one") { TSnap::Get1CnCom(g, c); r = tup(ccs(c)); }
    else if (f == "onesz") { TSnap::Get1CnComSzCnt(g, p); r = tup(prs(p)); }
    else if (f == "degc") r = n1(S4(TSnap::GetDegreeCentr(g, a[0]), 1e6));
    else if (f == "eig") { TSnap::GetEigenVectorCentr(g, h, 0, a[0]); r = tup(fh(h)); }
    else if (f == "gdeg" || f == "gclo") { TIntH s; for (size_t i = 0; i < a.size(); i++) s.AddDat(i, a[i]); r = n1(f == "gdeg" ? (int)TSnap::GetGroupDegreeCentr(g, s) : S4(TSnap::GetGroupClosenessCentr(g, s), 1e6)); }
    else if (f == "cnm" || f == "gn") {
        PUNGraph h2 = TUNGraph::New(); *h2 = *g;
        double q = f == "cnm" ? TSnap::CommunityCNM(h2, c) : TSnap::CommunityGirvanNewman(h2, c);
        r = two(n1(S4(q, 1e5)), tup(ccs(c)));
    }
    else if (f == "rewire") r = gr(TSnap::GenRewire(g, a[0]));
    else return false;
    return true;
}
static bool only(const PNGraph &g, const string &f, const VI &a, string &r) {
    if (f == "tree?") { int root = -1; bool t = TSnap::IsTree(g, root); r = "[" + n1(t) + "," + n1(root) + "]"; }
    else if (f == "treesig") { TIntV s; TIntPrV m; TSnap::GetTreeSig(g, a[0], s); TIntV s2; TSnap::GetTreeSig(g, a[0], s2, m); vector<string> q; q.push_back(seq(vec(s))); q.push_back(seq(vec(s2))); q.push_back(tup(prs(m))); r = cat(q); }
    else if (f == "rewire") r = gr(TSnap::GenRewire(g, a[0]));
    else return false;
    return true;
}
static bool only(const PNEANet &g0, const string &f, const VI &a, string &r) {
    PNEANet g = g0; TIntFltH h; TIntPrFltH eh;
    TFltV w(g->GetMxEId()); 
    for (TNEANet::TEdgeI i = g->BegEI(); i < g->EndEI(); i++) w[i.GetId()] = g->GetFltAttrDatE(i.GetId(), "weight");
    if (f == "flow") r = n1(a[2] ? TSnap::GetMaxFlowIntPR(g, a[0], a[1]) : TSnap::GetMaxFlowIntEK(g, a[0], a[1]));
    else if (f == "wsp") { TSnap::GetWeightedShortestPath(g, a[0], h, w); r = tup(fh(h, 1)); }
    else if (f == "wfar") r = n1(S4(TSnap::GetWeightedFarnessCentr(g, a[0], true, w, a[1]), 1e5));
    else if (f == "wclo") r = n1(S4(TSnap::GetWeightedClosenessCentr(g, a[0], true, w, a[1]), 1e5));
    else if (f == "wbtw") { TSnap::GetWeightedBetweennessCentr(g, h, eh, w, true); r = two(tup(fh(h)), tup(pfh(eh))); }
    else if (f == "wbtwn") { TSnap::GetWeightedBetweennessCentr(g, h, w, true); r = tup(fh(h)); }
    else if (f == "wbtwe") { TSnap::GetWeightedBetweennessCentr(g, eh, w, true); r = tup(pfh(eh)); }
    else if (f == "wpr") { if (a[1]) TSnap::GetWeightedPageRankMP(g, h, "weight", 0.85, 0, a[0]); else TSnap::GetWeightedPageRank(g, h, "weight", 0.85, 0, a[0]); r = tup(fh(h, 1e7)); }
    else return false;
    return true;
}
// what is only for graphs without parallel edges
template<class P> bool simple(const P &g, const string &f, const VI &a, string &r) {
    TIntV v; TIntTrV t; TIntFltH h; vector<TUInt64Tr> st; int c = -1, o = -1; int64 c6 = -1, o6 = -1;
    if (f == "cc") r = n1(S4(TSnap::GetClustCf(g), 1e6));
    else if (f == "ccd") { TFltPrV d; double q = TSnap::GetClustCf(g, d); VV l; for (int i = 0; i < d.Len(); i++) { VI x; x.push_back((int)d[i].Val1); x.push_back(S4(d[i].Val2, 1e6)); l.push_back(x); } r = two(n1(S4(q, 1e6)), tup(l)); }
    else if (f == "cct") { TFltPrV d; double q = TSnap::GetClustCf(g, d, c6, o6); r = "[" + n1(S4(q, 1e6)) + "," + n1(c6) + "," + n1(o6) + "]"; }
    else if (f == "ncc") r = n1(S4(TSnap::GetNodeClustCf(g, a[0]), 1e6));
    else if (f == "nccs") { if (a[0]) TSnap::GetNodeClustCf_scala(g, h); else TSnap::GetNodeClustCf(g, h); r = tup(fh(h, 1e6)); }
    else if (f == "nccv") { vector<float> q; TSnap::GetNodeClustCf(g, q); r = tup(fv(q, 1e6)); }
    else if (f == "tri") { int64 q = TSnap::GetTriads(g, c6, o6, -1); r = "[" + n1(q) + "," + n1(c6) + "," + n1(o6) + "]"; }
    else if (f == "tri1") r = n1(TSnap::GetTriads(g));
    else if (f == "triv") { if (a[0] == 0) TSnap::GetTriads(g, t); else if (a[0] == 1) TSnap::GetTriads_v0(g, t);
        VV q; if (a[0] == 2) { TSnap::GetTriads(g, st); for (size_t i = 0; i < st.size(); i++) { VI x; x.push_back(st[i].Val1); x.push_back(st[i].Val2); x.push_back(st[i].Val3); q.push_back(x); } } else q = trs(t); r = tup(q); }
    else if (f == "tedges") r = n1(TSnap::GetTriadEdges(g));
    else if (f == "ntri") { int q = TSnap::GetNodeTriads(g, a[0], c, o); r = "[" + n1(q) + "," + n1(c) + "," + n1(o) + "," + n1(TSnap::GetNodeTriads(g, a[0])) + "]"; }
    else if (f == "ngrp") { TIntSet s; for (size_t i = 1; i < a.size(); i++) s.AddKey(a[i]); int x, y, z; int q = TSnap::GetNodeTriads(g, a[0], s, x, y, z); r = "[" + n1(q) + "," + n1(x) + "," + n1(y) + "," + n1(z) + "]"; }
    else if (f == "part") { TIntPrV p; TSnap::GetTriadParticip(g, p); r = tup(prs(p)); }
    else if (f == "len2") { TSnap::GetLen2Paths(g, a[0], a[1], v); VI q = vec(v); q.push_back(TSnap::GetLen2Paths(g, a[0], a[1])); r = seq(q); }
    else if (f == "ctri") r = n1(TSnap::CountTriangles(g));
    else if (f == "gtri") r = n1(TSnap::GetTriangleCnt(g));
    else if (f == "uniq") { if (a[1]) { vector<int64_t> q; TSnap::GetUniqueNbrV(g, (int64_t)a[0], q); r = seq(VI(q.begin(), q.end())); } else { TSnap::GetUniqueNbrV(g, a[0], v); r = seq(vec(v)); } }
    else if (f == "btwv") { vector<float> q; TIntPrFltH eh; vector<int64_t> ids; for (typename P::TObj::TNodeI i = g->BegNI(); i < g->EndNI(); i++) ids.push_back(i.GetId()); TSnap::GetBetweennessCentr_stl(g, ids, q, a[0], true, eh, true); r = two(tup(fv(q)), tup(pfh(eh))); }
    else if (f == "prv") { vector<double> q; TSnap::GetPageRank_stl(g, q, true, 0.85, 0, a[0]); r = tup(fv(q, 1e7)); }
    else if (f == "hitsv") { vector<float> q, u; TSnap::GetHits_stl(g, q, u, a[0]); r = two(tup(fv(q)), tup(fv(u))); }
    else if (f == "walk") { vector<int64_t> q; if (a[2]) { vector<int64_t> from(1, a[0]); for (size_t i = 3; i < a.size(); i++) from.push_back(a[i]); q = TSnap::randomWalk2(g, from, a[1]); } else q = TSnap::randomWalk(g, (int64_t)a[0], (int64_t)a[1]); r = seq(VI(q.begin(), q.end())); }
    else if (f == "diamv") { double e, s; int d; TSnap::GetBfsEffDiam_stl(g, 100000, (bool)a[0], e, d, s); r = "[" + n1(d) + "," + n1(S4(e)) + "," + n1(S4(s)) + "," + n1(TSnap::GetBfsFullDiam_stl(g, 100000, (bool)a[0])) + "]"; }
    else if (f == "spv") { vector<std::pair<int64_t, int64_t> > p; for (size_t i = 0; i + 1 < a.size(); i += 2) p.push_back(std::make_pair((int64_t)a[i], (int64_t)a[i + 1])); vector<int64_t> q = TSnap::GetShortPath(g, p); r = seq(VI(q.begin(), q.end())); }
    else return false;
    return true;
}
static bool simple(const PNEANet &, const string &, const VI &, string &) { return false; }

template<class P> struct One {
    P g; TBreathFS<P> *bfs; TKCore<P> *kc;
    One() : bfs(NULL), kc(NULL) { g = P::TObj::New(); prep(g); }
    void q(const string &f, const VI &a) {
        string r; TIntV v; TIntPrV p; TCnComV c; TIntH h; TIntFltH fl; TIntPrFltH eh; int x = -1, y = -1;
        if (f == "bfs") {
            if (!bfs) bfs = new TBreathFS<P>(g);
            int m = a[5] ? bfs->DoBfsHybrid(a[0], a[1], a[2], a[3], a[4] < 0 ? TInt::Mx : a[4]) : bfs->DoBfs(a[0], a[1], a[2], a[3], a[4] < 0 ? TInt::Mx : a[4]);
            bfs->GetVisitedNIdV(v); vector<string> o; o.push_back(n1(m)); o.push_back(n1(bfs->GetNVisited())); o.push_back(seq(vec(v))); o.push_back(tup(ih(bfs->NIdDistH)));
            VI hp; for (int i = 6; i < (int)a.size(); i++) hp.push_back(bfs->GetHops(a[0], a[i])); o.push_back(seq(hp)); r = cat(o);
        } else if (f == "path") {
            if (!bfs) bfs = new TBreathFS<P>(g);
            bfs->DoBfs(a[0], a[2], a[3]); int m = bfs->GetRndPath(a[0], a[1], v); r = two(n1(m), seq(vec(v)));
        } else if (f == "bfstree") r = gr(TSnap::GetBfsTree(g, a[0], a[1], a[2]));
        else if (f == "subtree") { int m = TSnap::GetSubTreeSz(g, a[0], a[1], a[2], x, y); r = "[" + n1(m) + "," + n1(x) + "," + n1(y) + "]"; }
        else if (f == "athop") { int m = TSnap::GetNodesAtHop(g, a[0], a[1], v, a[2]); r = two(n1(m), seq(vec(v))); }
        else if (f == "athops") { TSnap::GetNodesAtHops(g, a[0], p, a[1]); r = tup(prs(p)); }
        else if (f == "sp") r = n1(TSnap::GetShortPath(g, a[0], a[1], (bool)a[2]));
        else if (f == "spall") { int m = TSnap::GetShortPath(g, a[0], h, a[1], a[2] < 0 ? TInt::Mx : a[2]); r = two(n1(m), tup(ih(h))); }
        else if (f == "dists") { int m = a[1] ? TSnap::GetShortestDistancesMP2(g, a[0], true, false, v) : TSnap::GetShortestDistances(g, a[0], true, false, v); VV o; for (int i = 0; i < v.Len(); i++) if (v[i] < 2147483646) { VI z; z.push_back(i); z.push_back(v[i]); o.push_back(z); } r = two(n1(m), tup(o)); }
        else if (f == "diam") { double e, s; int d; TSnap::GetBfsEffDiam(g, 100000, (bool)a[0], e, d, s); r = "[" + n1(d) + "," + n1(S4(e)) + "," + n1(S4(s)) + "," + n1(TSnap::GetBfsFullDiam(g, 100000, (bool)a[0])) + "]"; }
        else if (f == "diamsub") { double e; int d; for (size_t i = 1; i < a.size(); i++) v.Add(a[i]); TSnap::GetBfsEffDiam(g, 100000, v, a[0], e, d); r = "[" + n1(d) + "," + n1(S4(e)) + "]"; }
        else if (f == "wcc") { TSnap::GetNodeWcc(g, a[0], v); r = seq(vec(v)); }
        else if (f == "conn") r = "[" + n1(TSnap::IsConnected(g)) + "," + n1(TSnap::IsWeaklyConn(g)) + "]";
        else if (f == "wccs") { TSnap::GetWccs(g, c); r = tup(ccs(c)); }
        else if (f == "sccs") { TSnap::GetSccs(g, c); r = tup(ccs(c)); }
        else if (f == "wccsz") { TSnap::GetWccSzCnt(g, p); r = tup(prs(p)); }
        else if (f == "sccsz") { TSnap::GetSccSzCnt(g, p); r = tup(prs(p)); }
        else if (f == "mxsz") r = "[" + n1(S4(TSnap::GetMxWccSz(g), 1e6)) + "," + n1(S4(TSnap::GetMxSccSz(g), 1e6)) + "]";
        else if (f == "mxwcc") r = gr(TSnap::GetMxWcc(g));
        else if (f == "mxscc") r = gr(TSnap::GetMxScc(g));
        else if (f == "mxbicon") r = gr(TSnap::GetMxBiCon(g));
        else if (f == "kcore") { P q = TSnap::GetKCore(g, a[0]); if (!kc) kc = new TKCore<P>(g); int m = kc->GetCoreK(a[0]); vector<string> o; o.push_back(n1(m)); o.push_back(n1(kc->GetCoreNodes())); o.push_back(n1(kc->GetCoreEdges())); o.push_back(seq(vec(kc->GetNIdV()))); o.push_back(gr(q)); o.push_back(gr(kc->GetCoreG())); r = cat(o); }
        else if (f == "kcores") { TIntPrV e; int m1 = TSnap::GetKCoreNodes(g, p), m2 = TSnap::GetKCoreEdges(g, e); vector<string> o; o.push_back(n1(m1)); o.push_back(n1(m2)); o.push_back(tup(prs(p))); o.push_back(tup(prs(e))); r = cat(o); }
        else if (f == "cmn") { int m = TSnap::GetCmnNbrs(g, a[0], a[1], v); VI z = vec(v); r = "[" + n1(m) + "," + n1(TSnap::GetCmnNbrs(g, a[0], a[1])) + "," + seq(z) + "]"; }
        else if (f == "far") r = n1(S4(a[3] ? TSnap::GetFarnessCentrMP(g, a[0], a[1], a[2]) : TSnap::GetFarnessCentr(g, a[0], a[1], a[2]), 1e5));
        else if (f == "clo") r = n1(S4(a[3] ? TSnap::GetClosenessCentrMP(g, a[0], a[1], a[2]) : TSnap::GetClosenessCentr(g, a[0], a[1], a[2]), 1e5));
        else if (f == "ecc") r = n1(TSnap::GetNodeEcc(g, a[0], a[1]));
        else if (f == "btw") { if (a[1] == 0) TSnap::GetBetweennessCentr(g, fl, eh, (bool)a[0]); else if (a[1] == 1) TSnap::GetBetweennessCentr(g, fl, (bool)a[0]); else TSnap::GetBetweennessCentr(g, eh, (bool)a[0]); r = two(tup(fh(fl)), tup(pfh(eh))); }
        else if (f == "pr") { if (a[1] == 0) TSnap::GetPageRank(g, fl, 0.85, 0, a[0]); else if (a[1] == 1) TSnap::GetPageRank_v1(g, fl, 0.85, 0, a[0]); else TSnap::GetPageRankMP(g, fl, 0.85, 0, a[0]); r = tup(fh(fl, 1e7)); }
        else if (f == "hits") { TIntFltH au; if (a[1]) TSnap::GetHitsMP(g, fl, au, a[0]); else TSnap::GetHits(g, fl, au, a[0]); r = two(tup(fh(fl)), tup(fh(au))); }
        else if (f == "mod") { for (size_t i = 0; i < a.size(); i++) { if (a[i] == -1) { c.Add(TCnCom(v)); v.Clr(); } else v.Add(a[i]); } r = n1(S4(TSnap::GetModularity(g, c), 1e5)); }
        else if (f == "inout") { for (size_t i = 0; i < a.size(); i++) v.Add(a[i]); TSnap::GetEdgesInOut(g, v, x, y); r = "[" + n1(x) + "," + n1(y) + "]"; }
        else if (only(g, f, a, r)) {}
        else if (simple(g, f, a, r)) {}
        else throw Bad();
        Js("q").str("f", f).arr("a", a).raw("r", r).log();
    }
    void run(const vector<string> &L) {
        VI N; VV E; bool open = true;
        for (size_t li = 1; li < L.size(); li++) {
            std::istringstream is(L[li]); string o; is >> o;
            if (o == "n") { int x; is >> x; if (!g->IsNode(x)) { g->AddNode(x); N.push_back(x); } }
            else if (o == "e") { int s, d, w = 1; is >> s >> d >> w; mkEdge(g, s, d, w); VI q; q.push_back(s); q.push_back(d); q.push_back(w); E.push_back(q); }
            else { if (open) { open = false; Js("graph").str("k", L[0].substr(4)).arr("N", N).arr2("E", E).log(); }
                VI a; int x; while (is >> x) a.push_back(x); q(o, a); }
        }
    }
};
template<class P> bool gen(const string &f, const VI &a, string &r) {
    if (f == "grid") r = gr(TSnap::GenGrid<P>(a[0], a[1], (bool)a[2]));
    else if (f == "star") r = gr(TSnap::GenStar<P>(a[0], (bool)a[1]));
    else if (f == "circle") r = gr(TSnap::GenCircle<P>(a[0], a[1], (bool)a[2]));
    else if (f == "full") r = gr(TSnap::GenFull<P>(a[0]));
    else if (f == "gentree") r = gr(TSnap::GenTree<P>(a[0], a[1], (bool)a[2], (bool)a[3]));
    else if (f == "gnm") { TRnd rnd(a[3]); r = gr(TSnap::GenRndGnm<P>(a[0], a[1], (bool)a[2], rnd)); }
    else return false;
    return true;
}
static void gen2(const string &f, const VI &a, string &r) {
    TRnd rnd(a[0]);
    if (f == "degk") r = gr(TSnap::GenRndDegK(a[1], a[2], 10, rnd));
    else if (f == "degseq" || f == "conf") { TIntV v; for (size_t i = 1; i < a.size(); i++) v.Add(a[i]); r = gr(f == "degseq" ? TSnap::GenDegSeq(v, rnd) : TSnap::GenConfModel(v, rnd)); }
    else if (f == "pref") r = gr(TSnap::GenPrefAttach(a[1], a[2], rnd));
    else if (f == "small") r = gr(TSnap::GenSmallWorld(a[1], a[2], a[3] / 100.0, rnd));
    else if (f == "bip") { PBPGraph g = TSnap::GenRndBipart(a[1], a[2], a[3], rnd); r = gr(g); }
    else if (f == "rmat") r = gr(TSnap::GenRMat(a[1], a[2], .6, .1, .15, rnd));
    else if (f == "copy") r = gr(TSnap::GenCopyModel(a[1], a[2] / 100.0, rnd));
    else throw Bad();
}
static void scenario(vector<string> &L) {
    if (L.empty()) return;
    if (L[0].compare(0, 4, "new ") == 0) {
        char k = L[0][4];
        if (k == 'U') { One<PUNGraph> o; o.run(L); } else if (k == 'D') { One<PNGraph> o; o.run(L); } else { One<PNEANet> o; o.run(L); }
        return;
    }
    for (auto &l : L) {     // gen KIND NAME ARGS
        std::istringstream is(l); string o, k, f; is >> o >> k >> f; VI a; int x; while (is >> x) a.push_back(x);
        string r;
        if (k == "U") { if (!gen<PUNGraph>(f, a, r)) gen2(f, a, r); } else if (k == "D") { if (!gen<PNGraph>(f, a, r)) gen2(f, a, r); } else gen2(f, a, r);
        Js("gen").str("k", k).str("f", f).arr("a", a).raw("r", r).log();
    }
}
int main(int argc, char **argv) { return h_main(argc, argv, scenario, 60); }
