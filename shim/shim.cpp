// Stand-in for the parts of KOGNAC (https://github.com/karmaresearch/kognac) that Trident links
// against and that are not available offline.
#include <kognac/utils.h>
#include <kognac/lz4io.h>
#include <kognac/multidisklz4reader.h>
#include <kognac/filereader.h>
#include <kognac/diskreader.h>
#include <kognac/compressor.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <ftw.h>
#include <limits.h>
#include <stdlib.h>
using namespace std;

bool Utils::exists(string f) { struct stat st; return stat(f.c_str(), &st) == 0; }
bool Utils::isDirectory(string f) { struct stat st; return stat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode); }
bool Utils::isFile(string f) { struct stat st; return stat(f.c_str(), &st) == 0 && S_ISREG(st.st_mode); }
static vector<string> entries(string dir) {
    vector<string> v; DIR *d = opendir(dir.c_str()); if (!d) return v;
    while (struct dirent *e = readdir(d)) { string n = e->d_name; if (n != "." && n != "..") v.push_back(n); }
    closedir(d); sort(v.begin(), v.end()); return v;
}
bool Utils::isEmpty(string dir) { return entries(dir).empty(); }
uint64_t Utils::fileSize(string f) { struct stat st; if (stat(f.c_str(), &st)) return 0; return st.st_size; }
void Utils::create_directories(string d) {
    if (d.empty() || exists(d)) return;
    string p = parentDir(d); if (!p.empty() && p != d) create_directories(p);
    mkdir(d.c_str(), 0777);
}
// Deletion is confined to the scratch root named by TRIDENT_SCRATCH (every driver sets it).
static bool inScratch(const string &f) {
    const char *r = getenv("TRIDENT_SCRATCH"); if (!r || !*r) return false;
    string rr(r); char buf[PATH_MAX]; string dir = Utils::parentDir(f);
    if (realpath(rr.c_str(), buf)) rr = buf;
    if (!realpath(dir.empty() ? "." : dir.c_str(), buf)) return false;
    string q(buf); return q == rr || (q.size() > rr.size() && q.compare(0, rr.size(), rr) == 0 && q[rr.size()] == '/');
}
void Utils::remove(string f) { if (exists(f) && inScratch(f)) ::unlink(f.c_str()); }
static int rmone(const char *p, const struct stat *, int, struct FTW *) { return ::remove(p); }
void Utils::remove_all(string f) { if (exists(f) && inScratch(f)) nftw(f.c_str(), rmone, 16, FTW_DEPTH | FTW_PHYS); }
void Utils::rename(string a, string b) { if (inScratch(a) && inScratch(b)) ::rename(a.c_str(), b.c_str()); }
void Utils::copy(string a, string b) { ifstream i(a, ios::binary); ofstream o(b, ios::binary); o << i.rdbuf(); }
void Utils::resizeFile(string f, uint64_t n) {
    int fd = open(f.c_str(), O_RDWR | O_CREAT, 0666); if (fd < 0) throw 10;
    if (ftruncate(fd, n)) { close(fd); throw 10; } close(fd);
}
void Utils::linkdir(string a, string b) { if (symlink(a.c_str(), b.c_str())) {} }
void Utils::rmlink(string a) { if (inScratch(a)) ::unlink(a.c_str()); }
string Utils::parentDir(string f) { size_t p = f.find_last_of('/'); return p == string::npos ? string("") : (p == 0 ? string("/") : f.substr(0, p)); }
string Utils::filename(string f) { size_t p = f.find_last_of('/'); return p == string::npos ? f : f.substr(p + 1); }
bool Utils::hasExtension(const string &f) { return filename(f).find('.') != string::npos; }
string Utils::extension(string f) { string n = filename(f); size_t p = n.find('.'); return p == string::npos ? "" : n.substr(p); }
string Utils::removeExtension(string f) { string n = filename(f); size_t p = n.find('.'); return p == string::npos ? f : f.substr(0, f.size() - n.size() + p); }
string Utils::removeLastExtension(string f) { string n = filename(f); size_t p = n.find_last_of('.'); return p == string::npos ? f : f.substr(0, f.size() - n.size() + p); }
vector<string> Utils::getFiles(string dir, bool ign) {
    vector<string> v; std::set<string> seen;
    for (auto &n : entries(dir)) {
        if (n[0] == '.') continue;
        string f = dir + "/" + n; if (!isFile(f)) continue;
        if (ign) { f = removeExtension(f); if (!seen.insert(f).second) continue; }
        v.push_back(f);
    }
    return v;
}
vector<string> Utils::getFilesWithPrefix(string dir, string prefix) {
    vector<string> v;
    for (auto &n : entries(dir)) if (starts_with(n, prefix)) v.push_back(n);
    return v;
}
vector<string> Utils::getSubdirs(string dir) {
    vector<string> v;
    for (auto &n : entries(dir)) { string f = dir + "/" + n; if (isDirectory(f)) v.push_back(f); }
    return v;
}
bool Utils::starts_with(const string s, const string p) { return s.compare(0, p.size(), p) == 0; }
bool Utils::ends_with(const string s, const string p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
// A small, fixed figure: Trident sizes its buffers as fractions of it.
int64_t Utils::getSystemMemory() { const char *m = getenv("SHIM_SYSTEM_MEMORY"); return m ? atoll(m) : 4096LL * 1024 * 1024; }
int64_t Utils::getUsedMemory() { return 64LL * 1024 * 1024; }
int64_t Utils::get_max_mem() { return 64; }
int Utils::getNumberPhysicalCores() { return 4; }
int Utils::commonPrefix(tTerm *o1, int s1, int e1, tTerm *o2, int s2, int e2) {
    int n = 0; while (s1 < e1 && s2 < e2 && o1[s1] == o2[s2]) { s1++; s2++; n++; } return n;
}
int Utils::compare(const char *a, int s1, int e1, const char *b, int s2, int e2) {
    for (; s1 < e1 && s2 < e2; s1++, s2++) if (a[s1] != b[s2]) return ((int) a[s1] & 0xff) - ((int) b[s2] & 0xff);
    return (e1 - s1) - (e2 - s2);
}
int Utils::prefixEquals(char *o1, int len1, char *o2, int len2) {
    int i = 0;
    for (; i < len1 && i < len2; ++i) if (o1[i] != o2[i]) return ((int) o1[i] & 0xff) - ((int) o2[i] & 0xff);
    return i == len1 ? 0 : 1;
}
int Utils::numBytes(int64_t n) {
    if (n < 0) throw 10;
    int64_t max = 32; for (int i = 1; i <= 8; ++i) { if (n < max) return i; if (i < 8) max *= 256; }
    throw 10;
}
int Utils::numBytes2(int64_t n) { if (n < 0) throw 10; int b = 0; do { b++; n >>= 7; } while (n > 0); return b; }
int Utils::numBytesFixedLength(int64_t n) { int b = 0; do { b++; n >>= 8; } while (n > 0); return b; }
int Utils::encode_vlong(char *b, int off, int64_t n) {
    int nb = numBytes(n);
    enc(b + off, nb, (uint64_t) n); b[off] = (char) ((uint8_t) b[off] | ((nb - 1) << 5)); return off + nb;
}
int64_t Utils::decode_vlong(const char *b, int *off) {
    int nb = ((uint8_t) b[*off] >> 5) + 1; uint64_t v = (uint8_t) b[*off] & 31;
    for (int i = 1; i < nb; ++i) v = (v << 8) | (uint8_t) b[*off + i];
    *off += nb; return (int64_t) v;
}
int Utils::encode_vlong2(char *b, int off, int64_t n) {
    if (n < 0) throw 10; uint64_t v = n;
    while (v >= 128) { b[off++] = (char) ((v & 127) | 128); v >>= 7; }
    b[off++] = (char) v; return off;
}
int64_t Utils::decode_vlong2(const char *b, int *off) {
    uint64_t v = 0; int sh = 0; uint8_t c;
    do { c = (uint8_t) b[(*off)++]; v |= (uint64_t) (c & 127) << sh; sh += 7; } while (c & 128);
    return (int64_t) v;
}
void Utils::encode_vlong2_fixedLen(char *b, int64_t n, const uint8_t len) {
    for (int i = 0; i < len; ++i) { b[i] = (char) ((n & 127) | (i + 1 < len ? 128 : 0)); n >>= 7; }
}

LZ4Writer::LZ4Writer(string file) : path(file) { f = fopen(file.c_str(), "wb"); if (!f) throw 10; }
void LZ4Writer::writeVLong(int64_t n) { char b[16]; int o = Utils::encode_vlong2(b, 0, n); fwrite(b, o, 1, f); }
LZ4Writer::~LZ4Writer() { fclose(f); }
LZ4Reader::LZ4Reader(string file) : path(file) { f = fopen(file.c_str(), "rb"); if (!f) throw 10; }
bool LZ4Reader::isEof() { int c = fgetc(f); if (c == EOF) return true; ungetc(c, f); return false; }
int64_t LZ4Reader::parseLong() { int64_t n; if (fread(&n, 8, 1, f) != 1) throw 10; return n; }
int64_t LZ4Reader::parseVLong() { uint64_t v = 0; int sh = 0, c; do { c = fgetc(f); if (c == EOF) throw 10; v |= (uint64_t) (c & 127) << sh; sh += 7; } while (c & 128); return v; }
char LZ4Reader::parseByte() { int c = fgetc(f); if (c == EOF) throw 10; return (char) c; }
const char *LZ4Reader::parseString(int &n) { n = (int) parseVLong(); buf.resize(n + 1); if (n && fread(buf.data(), n, 1, f) != 1) throw 10; return buf.data(); }
LZ4Reader::~LZ4Reader() { fclose(f); }
LZ4Reader *DiskLZ4Reader::at(int id) {
    while (true) {
        if (rd[id] && !rd[id]->isEof()) return rd[id].get();
        rd[id].reset();
        if (cur[id] >= inputs[id].size()) return NULL;
        rd[id].reset(new LZ4Reader(inputs[id][cur[id]++]));
    }
}

FileReader::FileReader(FileInfo f) : valid(false) { in.reset(new ifstream(f.path)); }
static bool nterm(const string &l, size_t &i, string &out) {
    while (i < l.size() && (l[i] == ' ' || l[i] == '\t')) i++;
    size_t b = i; if (i >= l.size()) return false;
    if (l[i] == '<') { while (i < l.size() && l[i] != '>') i++; if (i >= l.size()) return false; i++; }
    else if (l[i] == '_') { while (i < l.size() && l[i] != ' ' && l[i] != '\t') i++; }
    else if (l[i] == '"') {
        i++; while (i < l.size() && l[i] != '"') { if (l[i] == '\\') i++; i++; }
        if (i >= l.size()) return false; i++;
        if (i < l.size() && l[i] == '@') while (i < l.size() && l[i] != ' ' && l[i] != '\t') i++;
        else if (i < l.size() && l[i] == '^') { while (i < l.size() && l[i] != '>') i++; if (i < l.size()) i++; }
    } else return false;
    out = l.substr(b, i - b); return true;
}
bool FileReader::parseTriple() {
    valid = false;
    while (getline(*in, line)) {
        size_t i = 0; while (i < line.size() && isspace((unsigned char) line[i])) i++;
        if (i == line.size() || line[i] == '#') continue;
        valid = nterm(line, i, s) && nterm(line, i, p) && nterm(line, i, o);
        return true;
    }
    return false;
}
DiskReader::Buffer DiskReader::getfile() { unique_lock<mutex> l(m); while (q.empty() && !done) cv.wait(l); if (q.empty()) return Buffer(); Buffer b = q.front(); q.pop_front(); return b; }
void DiskReader::run() {
    for (auto &f : *files) {
        Buffer b; b.size = f.size; b.maxsize = f.size; b.b = new char[f.size + 1];
        ifstream i(f.path, ios::binary); i.seekg(f.start); i.read(b.b, f.size);
        lock_guard<mutex> g(m); q.push_back(b); cv.notify_all();
    }
    lock_guard<mutex> g(m); done = true; cv.notify_all();
}
void Compressor::parsePermutationSignature(int signature, int *output) { int n = 0; for (int i = 0; i < 6; ++i) if (signature & (1 << i)) output[n++] = i; }
vector<string> Compressor::getAllDictFiles(string prefix) {
    vector<string> v;
    for (auto &n : Utils::getFilesWithPrefix(Utils::parentDir(prefix), Utils::filename(prefix) + string("."))) v.push_back(Utils::parentDir(prefix) + "/" + n);
    return v;
}
// Splits the files into line-aligned chunks dealt round-robin to the readers.
vector<FileInfo> *Compressor::splitInputInChunks(const string &input, int nchunks, string prefix) {
    vector<string> files;
    if (Utils::isDirectory(input)) { for (auto &n : entries(input)) if (Utils::starts_with(n, prefix) && n[0] != '.') files.push_back(input + "/" + n); }
    else files.push_back(input);
    vector<FileInfo> *out = new vector<FileInfo>[nchunks]; int k = 0;
    for (auto &f : files) {
        ifstream in(f, ios::binary); stringstream ss; ss << in.rdbuf(); string d = ss.str();
        size_t target = d.size() / nchunks + 1, pos = 0;
        while (pos < d.size()) {
            size_t e = min(d.size(), pos + target); size_t nl = d.find('\n', e - 1); e = nl == string::npos ? d.size() : nl + 1;
            FileInfo fi; fi.path = f; fi.start = pos; fi.size = e - pos; fi.splittable = true; out[k++ % nchunks].push_back(fi); pos = e;
        }
    }
    return out;
}
