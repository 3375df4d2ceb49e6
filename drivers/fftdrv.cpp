// Drives the FFT utilities.  Inputs are integers divided by 16; outputs are logged as rounded multiples of 1/256 (1/16 for linear
// results) together with the largest distance to such a multiple, in millionths.
#include "harness.h"
#include <cmath>
#include <trident/utils/fft.h>
void fft(std::vector<Complex> &in, std::vector<Complex> &out);
void ifft(std::vector<Complex> &in, std::vector<Complex> &out);
void ccorr(std::vector<Complex> &a, std::vector<Complex> &b, std::vector<double> &out);
void cconv(std::vector<Complex> &a, std::vector<Complex> &b, std::vector<double> &out);
using namespace std;
typedef vector<long long> V;
static double worst;
static long long rnd(double v, double m) {
    double s = v * m; if (!(fabs(s) < 4e15)) { worst = 1e9; return 0; }
    long long r = llround(s); double e = fabs(s - r); if (e > worst) worst = e; return r;
}
static vector<Complex> cx(const V &re, const V &im) { vector<Complex> v; for (size_t i = 0; i < re.size(); ++i) v.push_back(Complex(re[i] / 16.0, im.empty() ? 0 : im[i] / 16.0)); return v; }
static V part(const vector<Complex> &v, bool im, double m) { V r; for (auto &c : v) r.push_back(rnd(im ? c.imag : c.real, m)); return r; }
static void run(vector<string> &lines) {
    for (auto &ln : lines) {
        istringstream is(ln); string op; int n; is >> op >> n;
        V a(n), b(n); for (auto &x : a) is >> x; for (auto &x : b) is >> x;
        worst = 0;
        if (op == "rt" || op == "fft") {          // a + bi
            vector<Complex> in = cx(a, b), keep = in, f(n), g(n);
            fft(in, f);
            bool same = true; for (int i = 0; i < n; ++i) same = same && in[i].real == keep[i].real && in[i].imag == keep[i].imag;
            if (op == "fft") { V re = part(f, false, 16), im = part(f, true, 16);
                Js("fft").i("n", n).arr("re", a).arr("im", b).arr("fre", re).arr("fim", im).b("kept", same).i("err", (long long) (worst * 1e6)).log(); }
            else { vector<Complex> f0 = f; ifft(f, g); V re = part(g, false, 16), im = part(g, true, 16);
                // the energy (Parseval) and the constant component
                double e1 = 0; for (auto &c : f0) e1 += c.real * c.real + c.imag * c.imag;
                long long en = rnd(e1, 256); V dc{rnd(f0[0].real, 16), rnd(f0[0].imag, 16)};
                Js("rt").i("n", n).arr("re", a).arr("im", b).arr("gre", re).arr("gim", im).arr("dc", dc).i("energy", en).b("kept", same).i("err", (long long) (worst * 1e6)).log(); }
        } else if (op == "conv" || op == "corr") {
            vector<double> da, db, o1; vector<float> o2; for (auto x : a) da.push_back(x / 16.0); for (auto x : b) db.push_back(x / 16.0);
            vector<double> ka = da, kb = db;
            int pre = (int) (n % 3); for (int i = 0; i < pre; ++i) { o1.push_back(i); o2.push_back(i); }      // results are appended
            if (op == "conv") { cconv(da.data(), db.data(), n, o1); cconv(da.data(), db.data(), n, o2); }
            else { ccorr(da.data(), db.data(), n, o1); ccorr(da.data(), db.data(), n, o2); }
            V r1, r2; for (auto x : o1) r1.push_back(rnd(x, 256)); double w1 = worst; worst = 0; for (auto x : o2) r2.push_back(rnd(x, 256)); double w2 = worst;
            vector<Complex> ca = cx(a, V()), cb = cx(b, V()); vector<double> o3; if (op == "conv") cconv(ca, cb, o3); else ccorr(ca, cb, o3);
            worst = 0; V r3; for (auto x : o3) r3.push_back(rnd(x, 256));
            bool kept = ka == da && kb == db; for (int i = 0; i < n; ++i) kept = kept && ca[i].real == a[i] / 16.0 && ca[i].imag == 0 && cb[i].real == b[i] / 16.0 && cb[i].imag == 0;
            Js(op.c_str()).i("n", n).arr("a", a).arr("b", b).i("pre", pre).arr("d", r1).arr("f", r2).arr("c", r3).b("kept", kept).i("err", (long long) (max(w1, worst) * 1e6)).i("ferr", (long long) (w2 * 1e6)).log();
        } else if (op == "cx") {   // complex arithmetic on a[0]+a[1]i and b[0]+b[1]i
            Complex x(a[0], a[1]), y(b[0], b[1]), s = x, m = x, p = x * y, cj = ~x, q = x / 4.0; s += y; m *= y; Complex as; as = x;
            V o{rnd(s.real, 1), rnd(s.imag, 1), rnd(p.real, 1), rnd(p.imag, 1), rnd(m.real, 1), rnd(m.imag, 1), rnd(cj.real, 1), rnd(cj.imag, 1), rnd(q.real, 4), rnd(q.imag, 4), rnd(as.real, 1), rnd(as.imag, 1)};
            Js("cx").arr("a", a).arr("b", b).arr("r", o).i("err", (long long) (worst * 1e6)).log();
        } else if (op == "sig") {
            V o, o2; for (int i = 0; i < n; ++i) { double x = a[i] / 16.0, y = sigmoid(x); o.push_back(rnd(y * (16 + llabs(a[i])), 1)); o2.push_back(rnd(sigmoid_given_fun(x), 256)); }
            Js("sig").arr("x", a).arr("r", o).arr("d", o2).i("err", (long long) (worst * 1e6)).log();
        }
    }
}
int main(int argc, char **argv) { return h_main(argc, argv, run); }
