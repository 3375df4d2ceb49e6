// Drives the shared utilities.  Byte strings are written in hex ("-" is the empty one).
#include "harness.h"
#include <map>
#include <set>
#include <mutex>
#include <thread>
#include <poll.h>
#include <netinet/tcp.h>
#include <kognac/utils.h>
#include <trident/kb/kbconfig.h>
#include <trident/utils/propertymap.h>
#include <trident/utils/json.h>
#include <trident/utils/httpclient.h>
#include <trident/utils/httpserver.h>
#include <trident/utils/tridentutils.h>
#include <trident/utils/parallel.h>
#include <trident/utils/memoryfile.h>
using namespace std;
static string unhex(const string &h) { string r; if (h != "-") for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char) stoi(h.substr(i, 2), 0, 16); return r; }
static vector<int> by(const string &s) { vector<int> v; for (unsigned char c : s) v.push_back(c); return v; }
static string jb(const string &s) { string o = "["; for (size_t i = 0; i < s.size(); ++i) { if (i) o += ","; o += to_string((int) (unsigned char) s[i]); } return o + "]"; }
static vector<vector<int>> bys(const vector<string> &q) { vector<vector<int>> r; for (auto &s : q) r.push_back(by(s)); return r; }
// configuration objects: either a KBConfig or a bare PropertyMap
struct Conf { bool kb; KBConfig c; PropertyMap p; };
static map<int, Conf> confs;
static string num(long long v) { return to_string(v); }
// a tree: s HEX | a N tree... | o N (HEX tree)...   builds the JSON object and the specification's value
static void tree(istringstream &is, JSON *dest, JSON *parent, const string &name, bool inlist, string &val) {
    string k, h; is >> k;
    if (k == "s") { is >> h; string s = unhex(h); val = "{\"k\":\"s\",\"v\":" + jb(s) + "}"; if (parent) { if (inlist) parent->push_back(s); else parent->put(name, s); } return; }
    int n; is >> n; JSON j; JSON &me = dest ? *dest : j; string acc;
    for (int i = 0; i < n; ++i) {
        string v, nm;
        if (k == "o") { is >> h; nm = unhex(h); tree(is, NULL, &me, nm, false, v); acc += string(i ? "," : "") + "[" + jb(nm) + "," + v + "]"; }
        else { tree(is, NULL, &me, "", true, v); acc += (i ? "," : "") + v; }
    }
    val = string("{\"k\":\"") + k + "\",\"" + (k == "o" ? "f" : "e") + "\":[" + acc + "]}";
    if (parent) { if (inlist) parent->push_back(j); else parent->add_child(name, j); }
}
static int freeport() { int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); bind(s, (sockaddr *) &a, sizeof a); socklen_t l = sizeof a; getsockname(s, (sockaddr *) &a, &l); int p = ntohs(a.sin_port); close(s); return p; }
static int dial(int port) {
    for (int t = 0; t < 400; ++t) { int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (!connect(s, (sockaddr *) &a, sizeof a)) { int one = 1; setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); return s; } close(s); usleep(5000); }
    return -1;
}
static void sendall(int s, const string &b) { size_t n = 0; while (n < b.size()) { ssize_t k = send(s, b.data() + n, b.size() - n, MSG_NOSIGNAL); if (k <= 0) return; n += k; } }
static string recvn(int s, size_t n, int ms) { string r; char b[4096]; while (r.size() < n) { pollfd p; p.fd = s; p.events = POLLIN; if (poll(&p, 1, ms) <= 0) break; ssize_t k = recv(s, b, sizeof b, 0); if (k <= 0) break; r.append(b, k); } return r; }
static HttpServer *server = NULL; static int sport; static mutex smx; static vector<string> sgot; static string sreply;
static void run(vector<string> &lines) {
    confs.clear(); alarm(40);
    for (auto &ln : lines) {
        istringstream is(ln); string op, h; is >> op;
        if (op == "cnew") {
            int o; string k; is >> o >> k; Conf c; c.kb = k == "kb"; confs[o] = c; string init; bool first = true;
            if (c.kb) for (int i = 0; i <= SB_CACHESIZE; ++i) { string v = confs[o].c.getParam((KBParam) i); init += (first ? "" : ",") + string("[[") + to_string(i) + "]," + jb(v) + "]"; first = false; }
            Js("cnew").i("o", o).raw("init", "[" + init + "]").log();
        } else if (op == "ccopy") { int o, t; is >> o >> t; Conf c = confs[o]; confs[t] = c; Js("ccopy").i("o", o).i("to", t).log(); }
        else if (op == "cset") {
            int o, k; string how; is >> o >> how >> k >> h; string v = unhex(h); Conf &c = confs[o];
            if (how == "str") { if (c.kb) c.c.setParam((KBParam) k, v); else c.p.set(k, v); }
            else if (how == "int") { if (c.kb) c.c.setParamInt((KBParam) k, stoi(v)); else c.p.setInt(k, stoi(v)); }
            else if (how == "long") { if (c.kb) c.c.setParamLong((KBParam) k, stoll(v)); else c.p.setLong(k, stoll(v)); }
            else { if (c.kb) c.c.setParamBool((KBParam) k, v == "1"); else c.p.setBool(k, v == "1"); }
            Js("cset").i("o", o).i("k", k).str("how", how).arr("v", by(v)).log();
        } else if (op == "cget") {
            int o, k; string how, d; is >> o >> how >> k; bool def = (bool) (is >> d); Conf &c = confs[o]; string v; bool threw = false; string dv = def ? unhex(d) : "";
            if (c.kb || how == "str") def = false;
            try {
                if (how == "str") v = c.kb ? c.c.getParam((KBParam) k) : c.p.get(k);
                else if (how == "int") v = num(c.kb ? c.c.getParamInt((KBParam) k) : def ? c.p.getInt(k, stoi(dv)) : c.p.getInt(k));
                else if (how == "long") v = num(c.kb ? c.c.getParamLong((KBParam) k) : def ? c.p.getLong(k, stoll(dv)) : c.p.getLong(k));
                else v = num(c.kb ? c.c.getParamBool((KBParam) k) : def ? c.p.getBool(k, dv == "1") : c.p.getBool(k));
            } catch (...) { threw = true; }
            Js("cget").i("o", o).i("k", k).str("how", how).b("hasdef", def).arr("dflt", by(dv)).b("threw", threw).arr("v", by(v)).log();
        } else if (op == "esc") { is >> h; string s = unhex(h); Js("esc").arr("s", by(s)).arr("r", by(HttpClient::escape(s))).log(); }
        else if (op == "une") { is >> h; string s = unhex(h); Js("une").arr("s", by(s)).arr("r", by(HttpClient::unescape(s))).log(); }
        else if (op == "url") { is >> h; string s = unhex(h); HttpClient::URL u = HttpClient::parse(s); Js("url").arr("s", by(s)).arr("protocol", by(u.protocol)).arr("host", by(u.host)).i("port", u.port).arr("path", by(u.path)).arr("query", by(u.query)).log(); }
        else if (op == "jw") { JSON j; string v; tree(is, &j, NULL, "", false, v); ostringstream o; JSON::write(o, j); Js("jw").raw("v", v).arr("text", by(o.str())).log(); }
        else if (op == "jr") { is >> h; string s = unhex(h), out; bool threw = false; try { JSON j; JSON::read(s, j); ostringstream o; JSON::write(o, j); out = o.str(); } catch (...) { threw = true; }
            Js("jr").arr("text", by(unhex(h))).b("threw", threw).arr("out", by(threw ? "" : out)).log(); }
        else if (op == "lf" || op == "lp") {
            int sep = ','; if (op == "lp") is >> sep; vector<string> L; while (is >> h) L.push_back(unhex(h)); bool nl = L.size() % 2; { ofstream f(h_scratch + "/nums"); for (size_t i = 0; i < L.size(); ++i) f << L[i] << (i + 1 < L.size() || nl ? "\n" : ""); }
            vector<string> r; bool threw = false;
            try { if (op == "lf") { vector<int64_t> v; TridentUtils::loadFromFile(h_scratch + "/nums", v); for (auto x : v) r.push_back(num(x)); } else { vector<pair<int64_t, int64_t>> v; TridentUtils::loadPairFromFile(h_scratch + "/nums", v, (char) sep); for (auto &x : v) { r.push_back(num(x.first)); r.push_back(num(x.second)); } } } catch (...) { threw = true; }
            Js(op.c_str()).i("sep", sep).arr2("lines", bys(L)).b("threw", threw).arr2("r", bys(r)).log();
        } else if (op == "srv") {         // srv REPLY n seg...
            int n; string rep; is >> rep >> n; vector<string> segs; for (int i = 0; i < n; ++i) { is >> h; segs.push_back(unhex(h)); }
            if (!server) { sport = freeport(); server = new HttpServer(sport, [](const string &q, string &a) { lock_guard<mutex> g(smx); sgot.push_back(q); a = sreply; }, 3); thread([] { server->start(); }).detach(); }
            { lock_guard<mutex> g(smx); sgot.clear(); sreply = unhex(rep); }
            int s = dial(sport); for (size_t i = 0; i < segs.size(); ++i) { if (i) usleep(2500); sendall(s, segs[i]); }
            string a = recvn(s, unhex(rep).size(), 3000); close(s);
            lock_guard<mutex> g(smx); vector<string> ans; if (!a.empty()) ans.push_back(a);
            Js("srv").arr2("segs", bys(segs)).arr("reply", by(unhex(rep))).arr2("got", bys(sgot)).arr2("answers", bys(ans)).log();
        } else if (op == "cli") {         // cli get|post|raw PATH ACCEPT/CTYPE np (name value)... n seg...
            string kind, path, acc; int np, n; is >> kind >> path >> acc >> np; map<string, string> ps; for (int i = 0; i < np; ++i) { string a, b; is >> a >> b; ps[unhex(a)] = unhex(b); }
            is >> n; vector<string> segs; for (int i = 0; i < n; ++i) { is >> h; segs.push_back(unhex(h)); }
            path = unhex(path); acc = unhex(acc);
            int l = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); bind(l, (sockaddr *) &a, sizeof a); listen(l, 2); socklen_t al = sizeof a; getsockname(l, (sockaddr *) &a, &al); int port = ntohs(a.sin_port);
            string form; for (auto &p : ps) { if (!form.empty() || &p != &*ps.begin()) form += "&"; form += p.first.empty() ? p.second : p.first + "=" + p.second; }
            string sent; bool done = false;
            thread t([&] { int s = accept(l, NULL, NULL); int one = 1; setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); string q; 
                while (q.find("\r\n\r\n") == string::npos) { string x = recvn(s, 1, 3000); if (x.empty()) break; q += x; }
                if (kind != "get") { size_t e = q.find("\r\n\r\n") + 4; while (q.size() < e + form.size()) { string x = recvn(s, 1, 1000); if (x.empty()) break; q += x; } }
                sent = q; for (size_t i = 0; i < segs.size(); ++i) { if (i) usleep(2500); sendall(s, segs[i]); }
                for (int w = 0; w < 600 && !done; ++w) usleep(5000); close(s); });
            HttpClient c("127.0.0.1", port); string head, body; bool r = c.connect();
            if (r) { if (kind == "get") r = c.get(path, head, body, acc); else if (kind == "post") r = c.post(path, ps, head, body, acc); else r = c.post(path, form, head, body, acc); }
            done = true; t.join(); close(l);
            string pp = ":" + to_string(port); size_t at = sent.find(pp); if (at != string::npos) sent.replace(at, pp.size(), ":PORT");
            string pj; if (kind == "raw") pj = "[[],"+ jb(form) + "]"; else { bool f = true; for (auto &p : ps) { pj += string(f ? "" : ",") + "[" + jb(p.first) + "," + jb(p.second) + "]"; f = false; } }
            Js("cli").raw("req", string("{\"get\":") + (kind == "get" ? "true" : "false") + ",\"path\":" + jb(path) + ",\"accept\":" + jb(acc) + ",\"ctype\":" + jb(acc) + ",\"params\":[" + pj + "]}").arr("sent", by(sent)).arr2("segs", bys(segs)).b("r", r).arr("head", by(r ? head : "")).arr("body", by(r ? body : "")).log();
        } else if (op == "fnew") { int f; is >> f >> h; string b = unhex(h); { ofstream o(h_scratch + "/f" + to_string(f), ios::binary); o << b; } Js("fnew").i("f", f).arr("b", by(b)).log(); }
        else if (op == "fput") {            // through a mapping: fput F at HEX start flushmode
            int f, at, start, fl; is >> f >> at >> h >> start >> fl; string b = unhex(h), fn = h_scratch + "/f" + to_string(f); size_t sz = Utils::fileSize(fn);
            { if (start < 0) { MemoryMappedFile m(fn, false); memcpy(m.getData() + at, b.data(), b.size()); if (fl == 1) m.flushAll(); }
              else { size_t st = (size_t) start * MemoryMappedFile::alignment(); MemoryMappedFile m(fn, false, st, sz - st); memcpy(m.getData() + (at - st), b.data(), b.size()); if (fl == 1) m.flushAll(); else if (fl == 2) m.flush(0, sz - st); } }
            Js("fput").i("f", f).i("at", at).arr("b", by(b)).log();
        } else if (op == "fget") {          // fget F start how
            int f, start, how; is >> f >> start >> how; string fn = h_scratch + "/f" + to_string(f); size_t sz = Utils::fileSize(fn), st = (size_t) start * MemoryMappedFile::alignment(); string b; size_t len;
            if (how == 0) { MemoryMappedFile m(fn); len = m.getLength(); b = string(m.getData(), len); st = 0; } else if (how == 1) { MemoryMappedFile m(fn, true); len = m.getLength(); b = string(m.getData(), len); st = 0; }
            else { MemoryMappedFile m(fn, how == 2, st, sz - st); len = m.getLength(); b = string(m.getData(), len); }
            Js("fget").i("f", f).i("from", st).i("len", len).i("b2len", sz - st).arr("b", by(b)).log();
        } else if (op == "sort") {          // sort threads cmp n range seed
            int th, cmp, n, rng; unsigned seed; is >> th >> cmp >> n >> rng >> seed; vector<int> a; for (int i = 0; i < n; ++i) { seed = seed * 1103515245u + 12345u; a.push_back((seed >> 8) % rng); } vector<int> r = a;
            if (cmp == 0) ParallelTasks::sort_int(r.begin(), r.end(), th); else ParallelTasks::sort_int(r.begin(), r.end(), std::greater<int>(), th);
            Js("sort").b("desc", cmp).i("threads", th).arr("a", a).arr("r", r).log();
        } else if (op == "pfor") {          // pfor begin end grain threads
            size_t b, e, gr; int th; is >> b >> e >> gr >> th; static int cnt[4096]; memset(cnt, 0, sizeof cnt); struct Body { int *c; void operator()(const ParallelRange &r) { for (size_t i = r.begin(); i < r.end(); ++i) if (i < 4096) __sync_fetch_and_add(c + i, 1); } }; Body bd; bd.c = cnt;
            ParallelTasks::parallel_for(b, e, gr, bd, th); vector<int> v(cnt, cnt + min((size_t) 4096, e + 40)); Js("pfor").i("from", b).i("to", e).i("grain", gr).i("threads", th).arr("r", v).log();
        } else if (op == "queue") {         // queue producers consumers each
            int p, c, n; is >> p >> c >> n; ConcurrentQueue<int> q; vector<vector<int>> in(p), out(c); vector<thread> ts;
            for (int i = 0; i < p; ++i) for (int j = 0; j < n; ++j) in[i].push_back(i * 1000 + j + 1);
            for (int i = 0; i < c; ++i) ts.push_back(thread([&, i] { while (true) { int v = 0; q.pop_wait(v); if (v == 0) break; out[i].push_back(v); } }));
            vector<thread> ps; for (int i = 0; i < p; ++i) ps.push_back(thread([&, i] { for (int v : in[i]) q.push(v); })); for (auto &t : ps) t.join(); for (int i = 0; i < c; ++i) q.push(0); for (auto &t : ts) t.join();
            Js("queue").arr2("in", vector<vector<int>>(in)).arr2("out", out).b("empty", q.isEmpty()).log();
        }
    }
    fflush(NULL);
}
int main(int argc, char **argv) { return h_main(argc, argv, run, 40); }
