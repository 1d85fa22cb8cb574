// Dense reference semantics for diagrams and shared machinery of the bounded stand-ins / replay search.
// The code under test is compiled into the same translation unit from /repo's current tree.
#include "dd.cpp"
#include <csignal>
#include <unistd.h>
#include <sstream>
#include <cstdarg>

typedef std::complex<double> C;
typedef std::vector<C> Vec;
struct Mat {
    int n;
    Vec a; // row major, 2^n x 2^n
    Mat(int n_ = 0) : n(n_), a((size_t)1 << (2 * n_)) {}
    size_t d() const { return (size_t)1 << n; }
    C &operator()(size_t i, size_t j) { return a[(i << n) + j]; }
    const C &operator()(size_t i, size_t j) const { return a[(i << n) + j]; }
};
static Mat ident(int n) { Mat m(n); for (size_t i = 0; i < m.d(); i++) m(i, i) = 1; return m; }
static Mat mulM(const Mat &a, const Mat &b) {
    Mat r(a.n);
    size_t d = a.d();
    for (size_t i = 0; i < d; i++) for (size_t k = 0; k < d; k++) { C x = a(i, k); if (x != C(0)) for (size_t j = 0; j < d; j++) r(i, j) += x * b(k, j); }
    return r;
}
static Vec mulV(const Mat &a, const Vec &v) {
    Vec r(v.size());
    for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v.size(); j++) r[i] += a(i, j) * v[j];
    return r;
}
static Mat lift(const Mat &a, int n) { // identity on the qubits above
    if (a.n == n) return a;
    Mat r(n);
    size_t d = a.d();
    for (size_t b = 0; b < ((size_t)1 << (n - a.n)); b++) for (size_t i = 0; i < d; i++) for (size_t j = 0; j < d; j++) r(b * d + i, b * d + j) = a(i, j);
    return r;
}
static inline C cc(const Complex &w) { return C(w.r, w.i); }
static inline Complex wc(C c) { return Complex(c.real(), c.imag()); }

static std::string curcase;
static void vfail(const char *f, ...) __attribute__((format(printf, 1, 2), noreturn));
static void vfail(const char *f, ...) {
    char b[8192];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    fflush(stdout);
    fprintf(stderr, "FAIL %s\n   case: %s\n", b, curcase.c_str());
    fflush(stderr);
    _exit(7);
}
static void onsig(int s) {
    char b[64];
    int k = snprintf(b, sizeof b, "FAIL signal %d (%s)\n   case: ", s, s == SIGPROF ? "no result within the time limit" : "crash");
    (void)!write(2, b, k);
    (void)!write(2, curcase.c_str(), curcase.size());
    (void)!write(2, "\n", 1);
    _exit(7);
}

// ---------------------------------------------------------------- denotation (independent of the code's own read-out)
static void denM(const mEdge &e, int l, Mat &m, size_t r, size_t c, C w) { // block of qubits 0..l-1 at (r,c)
    w *= cc(e.w);
    if (e.n == nullptr) vfail("edge without a node");
    if (w == C(0)) return;
    if (l == 0) { if (e.n != mNode::terminal) vfail("operator has a node below qubit 0"); m(r, c) += w; return; }
    size_t h = (size_t)1 << (l - 1);
    if (e.n == mNode::terminal || e.n->v < l - 1) {
        mEdge x{{1, 0}, e.n};
        denM(x, l - 1, m, r, c, w);
        denM(x, l - 1, m, r + h, c + h, w);
        return;
    }
    if (e.n->v != l - 1) vfail("operator node on qubit %d where at most %d is allowed", e.n->v, l - 1);
    for (int i = 0; i < 4; i++) denM(e.n->children[i], l - 1, m, r + (i >> 1) * h, c + (i & 1) * h, w);
}
static Mat den(const mEdge &e, int n) { Mat m(n); denM(e, n, m, 0, 0, 1); return m; }
static void denV(const vEdge &e, int l, Vec &v, size_t r, C w) {
    w *= cc(e.w);
    if (e.n == nullptr) vfail("edge without a node");
    if (w == C(0)) return;
    if (l == 0) { if (e.n != vNode::terminal) vfail("state has a node below qubit 0"); v[r] += w; return; }
    if (e.n == vNode::terminal || e.n->v != l - 1) vfail("state node on qubit %d where qubit %d is expected", e.n->v, l - 1);
    for (int i = 0; i < 2; i++) denV(e.n->children[i], l - 1, v, r + (size_t)i * ((size_t)1 << (l - 1)), w);
}
static Vec den(const vEdge &e, int n) { Vec v((size_t)1 << n); denV(e, n, v, 0, 1); return v; }

static double TOL = 1e-9;
static double nrm(const Vec &a) { double m = 0; for (auto &x : a) m = std::max(m, std::abs(x)); return m; }
static bool fin(const Vec &a) { for (auto &x : a) if (!std::isfinite(x.real()) || !std::isfinite(x.imag())) return false; return true; }
static void same(const char *what, const Vec &got, const Vec &want, double scale = 1) {
    if (got.size() != want.size()) vfail("%s: size %zu instead of %zu", what, got.size(), want.size());
    if (!fin(want)) return;
    double t = TOL * std::max({1.0, nrm(want), scale});
    for (size_t i = 0; i < got.size(); i++)
        if (!(std::abs(got[i] - want[i]) <= t))
            vfail("%s: entry %zu of %zu is (%.12g,%.12g), expected (%.12g,%.12g)", what, i, got.size(), got[i].real(), got[i].imag(), want[i].real(), want[i].imag());
}
static void same(const char *what, const Mat &got, const Mat &want, double scale = 1) { same(what, got.a, want.a, scale); }

// ---------------------------------------------------------------- stored form
static std::unordered_set<void *> okn;
static void normal(mNode *n) {
    if (n == mNode::terminal || okn.count(n)) return;
    okn.insert(n);
    double mx = 0; bool one = false; int z = 0;
    for (auto &c : n->children) {
        if (c.n == nullptr) vfail("stored operator node has a child without node");
        if (c.n != mNode::terminal && !(c.n->v < n->v && c.n->v >= 0)) vfail("stored operator node on qubit %d has a child on qubit %d", n->v, c.n->v);
        double a = std::abs(cc(c.w));
        if (!(a <= 1 + 1e-9)) vfail("stored operator node has a weight of magnitude %.12g", a);
        if (c.w.r == 1 && c.w.i == 0) one = true;
        if (a == 0) { z++; if (c.n != mNode::terminal) vfail("zero part of a stored operator node is not the zero edge"); }
        else if (a < 1e-20) vfail("stored operator node has an approximately zero, non-zero weight");
        mx = std::max(mx, a);
    }
    if (!one) vfail("stored operator node has no weight that is exactly one (largest %.17g)", mx);
    auto &c = n->children;
    // exact comparison: the code compares before normalisation, so weights near the tolerance may legitimately be kept
    if (cc(c[1].w) == 0. && cc(c[2].w) == 0. && c[0].n == c[3].n && cc(c[0].w) == cc(c[3].w))
        vfail("stored operator node on qubit %d is the identity on that qubit", n->v);
    for (auto &x : n->children) normal(x.n);
}
static void normal(vNode *n) {
    if (n == vNode::terminal || okn.count(n)) return;
    okn.insert(n);
    bool one = false;
    for (auto &c : n->children) {
        if (c.n == nullptr) vfail("stored state node has a child without node");
        double a = std::abs(cc(c.w));
        if (!(a <= 1 + 1e-9)) vfail("stored state node has a weight of magnitude %.12g", a);
        if (c.w.r == 1 && c.w.i == 0) one = true;
        if (a == 0) { if (c.n != vNode::terminal) vfail("zero part of a stored state node is not the zero edge"); }
        else if (a < 1e-20) vfail("stored state node has an approximately zero, non-zero weight");
        else if (c.n->v != n->v - 1) vfail("stored state node on qubit %d has a child on qubit %d", n->v, c.n->v);
    }
    if (!one) vfail("stored state node has no weight that is exactly one");
    for (auto &x : n->children) normal(x.n);
}
static void wfM(const char *what, const mEdge &e, int n) {
    if (e.n == nullptr) vfail("%s: edge without node", what);
    if (e.n != mNode::terminal && (e.n->v < 0 || e.n->v >= n)) vfail("%s: operator root on qubit %d of %d", what, e.n->v, n);
    normal(e.n);
}
static void wfV(const char *what, const vEdge &e, int n) {
    if (e.n == nullptr) vfail("%s: edge without node", what);
    if (e.n == vNode::terminal ? (n > 0 && !e.w.isApproximatelyZero()) : e.n->v != n - 1) vfail("%s: state root on qubit %d of %d", what, e.n->v, n);
    normal(e.n);
}

// ---------------------------------------------------------------- random things
struct Rng {
    uint64_t s;
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1DULL >> 11; }
    int below(int n) { return (int)(next() % (uint64_t)n); }
    bool chance(int pct) { return below(100) < pct; }
    double u() { return (double)next() / (double)(1ULL << 53); }
};
static Rng R;
static const double S2 = 0.70710678118654752440;
static C rw() { // weights with coincidences, never in the region where the tolerance decides
    switch (R.below(14)) {
    case 0: case 1: case 2: return 1;
    case 3: return -1;
    case 4: return C(0, 1);
    case 5: return C(0, -1);
    case 6: return S2;
    case 7: return -S2;
    case 8: return 0.5;
    case 9: return C(0.5, -0.5);
    case 10: return 2;
    case 11: return C(3, 4);
    case 12: return std::polar(0.1 + R.u(), 6.283 * R.u());
    default: return std::polar(R.chance(50) ? 30. : 0.03, 6.283 * R.u());
    }
}
static C rw0() { return R.chance(30) ? C(0) : rw(); }
static C dy() { // exact arithmetic: powers of two times units
    static const C u[4] = {C(1, 0), C(-1, 0), C(0, 1), C(0, -1)};
    static const double p[3] = {0.5, 1, 2};
    return u[R.below(4)] * p[R.below(3)];
}
static std::string str(const C &c) { std::ostringstream o; o.precision(6); o << "(" << c.real() << "," << c.imag() << ")"; return o.str(); }
template <class T> static std::string strs(const T &v) { std::ostringstream o; o << "["; for (auto &x : v) o << x << " "; o << "]"; return o.str(); }

static double tstart, budget = 10;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
#include <sys/time.h>
static void arm(int s) { struct itimerval t = {{0, 0}, {s, 0}}; setitimer(ITIMER_PROF, &t, nullptr); } // cpu time, so machine load does not matter
static long cases = 0;
static bool more(long minc = 1) { cases++; if ((cases & 15) == 1) arm(100); return cases <= minc || now() - tstart < budget; }
static bool quietout = true;
// the code prints progress on stdout during garbage collection
static void mute() { if (quietout) { if (!freopen("/dev/null", "w", stdout)) {} } }
