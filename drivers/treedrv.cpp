// Drives the disk-backed trees and the string buffer: Root over text keys, over numbers, over coordinates; StringBuffer.
#include "harness.h"
#include <trident/tree/root.h>
#include <trident/tree/treeitr.h>
#include <trident/tree/stringbuffer.h>
#include <trident/tree/coordinates.h>
#include <trident/utils/propertymap.h>
#include <trident/kb/dictmgmt.h>
#include <map>
#include <memory>
#include <algorithm>
#include <new>
using namespace std;
static map<string, long> kv(istringstream &is) { map<string, long> o; string s; while (is >> s) { size_t e = s.find('='); o[s.substr(0, e)] = atol(s.c_str() + e + 1); } return o; }
static string unhex(const string &h) { string o; for (size_t i = 0; i + 1 < h.size(); i += 2) o += (char) strtol(h.substr(i, 2).c_str(), NULL, 16); return o; }
static vector<string> words;                    // the vocabulary
static vector<int64_t> nums;                    // the identifiers, increasing
static int64_t num(long i) { return nums[i]; }
static long long rnk(int64_t n) { auto it = lower_bound(nums.begin(), nums.end(), n); return it != nums.end() && *it == n ? it - nums.begin() : -1000 - (n & 0xffff); }
static long long wrd(const string &s) { for (size_t i = 0; i < words.size(); ++i) if (words[i] == s) return i; return -2; }
// the v-th coordinates: some permutations, numbers of every size
static void coord(long v, TermCoordinates &c) {
    c.clear(); static const int64_t S[] = {1, 127, 128, 255, 256, 16383, 16384, 65535, 65536, 2097151, 4294967295LL, 4294967296LL, 549755813888LL};
    uint64_t h = v * 2654435761u + 12345; int mask = 1 + (h >> 7) % 63;
    for (int p = 0; p < 6; ++p) if (mask & (1 << p)) { h = h * 6364136223846793005ULL + 1442695040888963407ULL; c.set(p, (short) ((h >> 40) % 300), S[(h >> 20) % 13], S[(h >> 30) % 13], (char) ((h >> 50) & 0xff)); }
}
static bool same(TermCoordinates &a, TermCoordinates &b) {
    for (int p = 0; p < 6; ++p) { if (a.exists(p) != b.exists(p)) return false;
        if (a.exists(p) && (a.getFileIdx(p) != b.getFileIdx(p) || a.getMark(p) != b.getMark(p) || a.getNElements(p) != b.getNElements(p) || a.getStrategy(p) != b.getStrategy(p))) return false; }
    return true;
}
static long ncoord = 0;
static long long which(TermCoordinates &a) { for (long v = 0; v < ncoord; ++v) { TermCoordinates b; coord(v, b); if (same(a, b)) return v; } return -2; }
// a tree lives in its own directory; the configuration is that of the script
static map<string, long> cf;
static long g(const char *k, long d) { return cf.count(k) ? cf[k] : d; }
static PropertyMap conf(bool tk, bool tv) {
    PropertyMap m; m.setBool(TEXT_KEYS, tk); m.setBool(TEXT_VALUES, tv); m.setBool(COMPRESSED_NODES, g("comp", 0));
    if (cf.count("el")) m.setInt(MAX_EL_PER_NODE, cf["el"]);
    if (cf.count("nodes")) m.setInt(MAX_NODES_IN_CACHE, cf["nodes"]);
    if (cf.count("minb")) m.setInt(NODE_MIN_BYTES, cf["minb"]);
    if (cf.count("fmax")) m.setInt(FILE_MAX_SIZE, cf["fmax"]);
    if (cf.count("nf")) m.setInt(MAX_N_OPENED_FILES, cf["nf"]);
    if (cf.count("csize")) m.setLong(CACHE_MAX_SIZE, cf["csize"]);
    return m;
}
static Stats st; static unique_ptr<StringBuffer> sb; static unique_ptr<Root> dict, inv, tree; static bool ro = false; static string kind;
static vector<int64_t> coords;                   // position of the k-th appended string (kind sb)
static void closeAll() { dict.reset(); inv.reset(); tree.reset(); sb.reset(); }
static void openAll(bool readonly) {
    ro = readonly; string d = h_scratch;
    if (kind == "dict" || kind == "sb") sb.reset(new StringBuffer(d + "/sb", ro, g("sbf", 10), g("sbc", 64) * SB_BLOCK_SIZE, &st));
    if (kind == "dict") { PropertyMap a = conf(true, false), b = conf(false, true); dict.reset(new Root(d + "/t2id", sb.get(), ro, a)); inv.reset(new Root(d + "/id2t", sb.get(), ro, b)); }
    if (kind == "num") { PropertyMap b = conf(false, true); inv.reset(new Root(d + "/id2t", NULL, ro, b)); }
    if (kind == "coor") { PropertyMap b = conf(false, false); tree.reset(new Root(d + "/tree", NULL, ro, b)); }
}
static void run(vector<string> &lines) {
    h_scratch += "";
    vector<pair<int64_t, int>> kept;
    for (auto &ln : lines) {
        istringstream is(ln); string op; is >> op;
        if (op == "W") { string pre, suf; long pad, n; is >> pre >> pad >> n >> suf; string s = unhex(pre.substr(1)); for (long i = 0; i < n; ++i) s += (char) (pad + (pad > 200 ? 0 : i % 3)); s += unhex(suf.substr(1)); words.push_back(s); }
        else if (op == "N") { int64_t x; while (is >> x) nums.push_back(x); }
        else if (op == "cfg") { is >> kind; cf = kv(is); ncoord = g("nc", 0); Js("cfg").str("kind", kind).raw("opt", Js::q(ln)).log(); }
        else if (op == "open") { string m; is >> m; openAll(m == "ro"); Js("open").b("ro", ro).log(); }
        else if (op == "close") { closeAll(); Js("close").log(); }
        // ---- the string buffer
        else if (op == "sapp") { long w; is >> w; coords.push_back(sb->getSize()); string s = words[w]; vector<char> b(s.begin(), s.end()); b.push_back(0); sb->append(b.data(), (int) s.size()); Js("sapp").i("w", w).log(); }
        else if (op == "sget") { long k; is >> k; int n = -1; vector<char> b(MAX_TERM_SIZE + 10); sb->get(coords[k], b.data(), n); long long w = n < 0 || n > MAX_TERM_SIZE ? -3 : wrd(string(b.data(), n));
            int n2; char *p = sb->get(coords[k], n2); if (n2 != n || w < 0 || string(p, n2) != words[w]) w = -4; Js("sget").i("k", k + 1).i("w", w).log(); }
        else if (op == "scmp") { long k, w; is >> k >> w; string s = words[w]; vector<char> b(s.begin(), s.end()); b.push_back(0); int c = sb->cmp(coords[k], b.data(), (int) s.size());
            Js("scmp").i("k", k + 1).i("w", w).b("r", c == 0).log(); }
        // ---- the dictionary: text -> number, number -> text
        else if (op == "dput" || op == "dapp") { long w, i; is >> w >> i; string s = words[w]; vector<char> b(s.begin(), s.end()); b.push_back(0); nTerm v = num(i); int64_t co = sb->getSize();
            if (op == "dput") { bool ok = dict->insertIfNotExists((tTerm *) b.data(), (int) s.size(), v); if (ok) inv->put(v, co); Js("dput").i("w", w).i("i", i).b("r", ok).i("v", rnk(v)).log(); }
            else { dict->append((tTerm *) b.data(), (int) s.size(), v); inv->put(v, co); Js("dput").i("w", w).i("i", i).b("r", true).i("v", i).log(); } }
        else if (op == "dset") { long w, i; is >> w >> i; string s = words[w]; vector<char> b(s.begin(), s.end()); b.push_back(0); int64_t co = sb->getSize(); dict->put((tTerm *) b.data(), (int) s.size(), (nTerm) num(i)); inv->put(num(i), co); Js("dput").i("w", w).i("i", i).b("r", true).i("v", i).log(); }
        else if (op == "dget") { long w; is >> w; string s = words[w]; vector<char> b(s.begin(), s.end()); b.push_back(0); nTerm v = 0; bool f = dict->get((tTerm *) b.data(), (int) s.size(), &v); Js("dget").i("w", w).b("f", f).i("v", f ? rnk(v) : -1).log(); }
        else if (op == "dtext") { long i; is >> i; int64_t co; bool f = inv->get(num(i), co); long long w = -1; if (f) { vector<char> b(MAX_TERM_SIZE + 10); int n = -1; sb->get(co, b.data(), n); w = n < 0 || n > MAX_TERM_SIZE ? -3 : wrd(string(b.data(), n)); } Js("dtext").i("i", i).b("f", f).i("w", w).log(); }
        // ---- number -> number, number -> coordinates
        else if (op == "put" || op == "app") { long k, v; is >> k >> v;
            if (kind == "num") { if (op == "put") inv->put(num(k), num(v)); else inv->append(num(k), num(v)); } else { TermCoordinates c; coord(v, c); if (op == "put") tree->put(num(k), &c); else tree->append(num(k), &c); }
            Js("put").i("k", k).i("v", v).log(); }
        else if (op == "get") { long k; is >> k; long long v = -1; bool f;
            if (kind == "num") { int64_t x = 0; f = inv->get(num(k), x); if (f) v = rnk(x); } else { TermCoordinates c; c.clear(); f = tree->get(num(k), &c); if (f) v = which(c); }
            Js("get").i("k", k).b("f", f).i("v", v).log(); }
        else if (op == "iter") { vector<vector<long long>> rows; TreeItr *it = kind == "coor" ? tree->itr() : inv->itr();
            while (it->hasNext() && rows.size() < 100000) { vector<long long> r(2);
                if (kind == "coor") { TermCoordinates c; c.clear(); r[0] = rnk(it->next(&c)); r[1] = which(c); }
                else { int64_t x = 0; r[0] = rnk(it->next(x)); if (kind == "num") r[1] = rnk(x); else { vector<char> b(MAX_TERM_SIZE + 10); int n = -1; sb->get(x, b.data(), n); r[1] = n < 0 || n > MAX_TERM_SIZE ? -3 : wrd(string(b.data(), n)); } }
                rows.push_back(r); }
            delete it; Js("iter").arr2("rows", rows).log(); }
    }
    closeAll();
}
int main(int argc, char **argv) { return h_main(argc, argv, run); }
