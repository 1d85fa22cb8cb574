#include "common.hpp"
#include <functional>
static void (*big)() = nullptr; // large-register step of the mode
static long nbig = 0;
static double bigshare = 0.45, tbig = 0; // share of the time spent on them
static bool step(long minc = 1) {
    if (!more(minc)) return false;
    while (big && tbig < bigshare * (now() - tstart) - 0.2) { double t = now(); big(); tbig += now() - t; cases++; nbig++; if (now() - tstart > budget) break; }
    return true;
}

struct Op { mEdge e; Mat m; };
struct St { vEdge e; Vec v; };
static const int MAXN = 5;
static std::vector<Op> PM[MAXN + 1];
static std::vector<St> PV[MAXN + 1];
static const size_t PCAP = 60;

static mEdge scaled(mEdge e, C w) { e.w = wc(cc(e.w) * w); return e; }
static vEdge scaled(vEdge e, C w) { e.w = wc(cc(e.w) * w); return e; }
static Mat scaled(Mat m, C w) { for (auto &x : m.a) x *= w; return m; }
static Vec scaled(Vec m, C w) { for (auto &x : m) x *= w; return m; }
template <class P, class X> static void put(P &p, X x) { if (p.size() < PCAP) p.push_back(x); else p[R.below((int)p.size())] = x; }
// the pool keeps what the edge denotes when it is stored, so that rounding does not accumulate over generations
static void addop(int n, mEdge e) {
    Mat m = den(e, n);
    double k = nrm(m.a);
    if (!fin(m.a) || (k > 0 && k < 1e-9)) return;
    if (k > 300 || (k > 0 && k < 1e-2)) { e = scaled(e, 1 / k); m = scaled(m, 1 / k); }
    put(PM[n], Op{e, m});
}
static void addst(int n, vEdge e) {
    Vec v = den(e, n);
    double k = nrm(v);
    if (!fin(v) || (k > 0 && k < 1e-9)) return;
    if (k > 300 || (k > 0 && k < 1e-2)) { e = scaled(e, 1 / k); v = scaled(v, 1 / k); }
    put(PV[n], St{e, v});
}
static Mat blocks(int n, const Mat &a, const Mat &b, const Mat &c, const Mat &d) {
    Mat r(n);
    size_t h = r.d() / 2;
    const Mat *p[4] = {&a, &b, &c, &d};
    for (int i = 0; i < 4; i++) for (size_t x = 0; x < h; x++) for (size_t y = 0; y < h; y++) r((i >> 1) * h + x, (i & 1) * h + y) = (*p[i])(x, y);
    return r;
}
static Vec cat(const Vec &a, const Vec &b) { Vec r(a); r.insert(r.end(), b.begin(), b.end()); return r; }

static Op pickop(int n) { // an operator on n qubits (possibly stored lower)
    int k = R.below(20);
    if (k == 0) return Op{mEdge::zero, Mat(n)};
    if (k == 1) return Op{mEdge::one, ident(n)};
    if (k == 2) { C w = rw(); return Op{{wc(w), mNode::terminal}, scaled(ident(n), w)}; }
    if (k <= 4 && n > 1) { Op o = pickop(1 + R.below(n - 1)); return Op{o.e, lift(o.m, n)}; }
    if (n == 0 || PM[n].empty()) { C w = rw(); return Op{{wc(w), mNode::terminal}, scaled(ident(n), w)}; }
    Op o = PM[n][R.below((int)PM[n].size())];
    if (R.chance(30)) { C w = rw(); o.e = scaled(o.e, w); o.m = scaled(o.m, w); }
    return o;
}
static St pickst(int n) {
    if (n == 0) { C w = rw(); return St{{wc(w), vNode::terminal}, Vec{w}}; }
    if (R.below(20) == 0 || PV[n].empty()) return St{vEdge::zero, Vec((size_t)1 << n)};
    St s = PV[n][R.below((int)PV[n].size())];
    if (R.chance(30)) { C w = rw(); s.e = scaled(s.e, w); s.v = scaled(s.v, w); }
    return s;
}
// a random node from parts; the structure classes are those the construction distinguishes
static Op buildop(int n) {
    if (n == 0) { C w = rw0(); return w == C(0) ? Op{mEdge::zero, Mat(0)} : Op{{wc(w), mNode::terminal}, scaled(ident(0), w)}; }
    Op p[4], z{mEdge::zero, Mat(n - 1)};
    auto part = [&]() { return R.chance(60) ? pickop(n - 1) : buildop(n - 1); };
    int k = R.below(10);
    for (auto &x : p) x = z;
    switch (k) {
    case 0: p[0] = part(); p[3] = p[0]; break;
    case 1: { p[0] = part(); C w = rw(); p[3] = Op{scaled(p[0].e, w), scaled(p[0].m, w)}; break; }
    case 2: p[1] = part(); p[2] = p[1]; break;
    case 3: { p[R.below(4)] = part(); break; }
    case 4: p[0] = part(); p[3] = part(); break;
    case 5: { p[0] = part(); C w[4]; for (int i = 1; i < 4; i++) { w[i] = rw0(); p[i] = w[i] == C(0) ? z : Op{scaled(p[0].e, w[i]), scaled(p[0].m, w[i])}; } break; }
    case 6: { p[0] = part(); p[3] = p[0]; p[R.chance(50) ? 1 : 2] = part(); break; }
    default: for (auto &x : p) x = R.chance(25) ? z : part();
    }
    std::ostringstream o;
    o << "makeMEdge(q=" << n - 1 << ", parts:";
    for (auto &x : p) o << " " << str(cc(x.e.w)) << "@q" << x.e.n->v << "/" << (void *)x.e.n;
    o << ")";
    curcase = o.str();
    Op r;
    r.e = makeMEdge(n - 1, {p[0].e, p[1].e, p[2].e, p[3].e});
    r.m = blocks(n, p[0].m, p[1].m, p[2].m, p[3].m);
    wfM("makeMEdge", r.e, n);
    same("makeMEdge", den(r.e, n), r.m);
    if (R.chance(10)) {
        mEdge s = makeMEdge(n - 1, {p[0].e, p[1].e, p[2].e, p[3].e});
        if (s.n != r.e.n || !(cc(s.w) == cc(r.e.w))) vfail("makeMEdge: building the same operator twice gives different edges");
        for (int i = 0; i < 4; i++) same("makeMEdge changed a part", den(p[i].e, n - 1), p[i].m);
    }
    return r;
}
static St buildst(int n) {
    if (n == 0) { C w = rw0(); return w == C(0) ? St{vEdge::zero, Vec{0}} : St{{wc(w), vNode::terminal}, Vec{w}}; }
    St p[2], z{vEdge::zero, Vec((size_t)1 << (n - 1))};
    auto part = [&]() { return R.chance(60) ? pickst(n - 1) : buildst(n - 1); };
    switch (R.below(6)) {
    case 0: p[0] = part(); p[1] = p[0]; break;
    case 1: { p[0] = part(); C w = rw(); p[1] = St{scaled(p[0].e, w), scaled(p[0].v, w)}; if (R.chance(50)) std::swap(p[0], p[1]); break; }
    case 2: p[0] = part(); p[1] = z; break;
    case 3: p[0] = z; p[1] = part(); break;
    default: p[0] = part(); p[1] = part();
    }
    std::ostringstream o;
    o << "makeVEdge(q=" << n - 1 << ", parts:";
    for (auto &x : p) o << " " << str(cc(x.e.w)) << "@q" << x.e.n->v << "/" << (void *)x.e.n;
    o << ")";
    curcase = o.str();
    St r;
    r.e = makeVEdge(n - 1, {p[0].e, p[1].e});
    r.v = cat(p[0].v, p[1].v);
    wfV("makeVEdge", r.e, n);
    same("makeVEdge", den(r.e, n), r.v);
    if (R.chance(10)) {
        vEdge s = makeVEdge(n - 1, {p[0].e, p[1].e});
        if (s.n != r.e.n || !(cc(s.w) == cc(r.e.w))) vfail("makeVEdge: building the same state twice gives different edges");
        for (int i = 0; i < 2; i++) same("makeVEdge changed a part", den(p[i].e, n - 1), p[i].v);
    }
    return r;
}
static void grow() {
    int n = 1 + R.below(MAXN);
    if (R.chance(50)) { Op o = buildop(n); addop(n, o.e); }
    else { St s = buildst(n); addst(n, s.e); }
}
static void warm(int k) { for (int i = 0; i < k; i++) grow(); }
// values held by a user never change
static void recheck() {
    int n = 1 + R.below(MAXN);
    if (!PM[n].empty()) { auto &o = PM[n][R.below((int)PM[n].size())]; same("an operator held earlier changed", den(o.e, n), o.m); }
    if (!PV[n].empty()) { auto &o = PV[n][R.below((int)PV[n].size())]; same("a state held earlier changed", den(o.e, n), o.v); }
}

static void do_mv(bool check) {
    int n = 1 + R.below(MAXN);
    Op a = pickop(n); St v = pickst(n);
    std::ostringstream o;
    o << "mv_multiply on " << n << " qubits, operator root q" << a.e.n->v << " weight " << str(cc(a.e.w)) << ", state root q" << v.e.n->v << " weight " << str(cc(v.e.w)) << "; operator " << strs(a.m.a) << " state " << strs(v.v);
    curcase = o.str();
    vEdge r = mv_multiply(a.e, v.e);
    Vec w = mulV(a.m, v.v);
    if (check) {
        wfV("mv_multiply", r, n);
        same("mv_multiply", den(r, n), w, nrm(a.m.a) * nrm(v.v) * (1 << n));
    }
    if (R.chance(30)) addst(n, r);
}
static void do_mm(bool check) {
    int n = 1 + R.below(MAXN);
    Op a = pickop(n), b = R.chance(10) ? a : pickop(n);
    std::ostringstream o;
    o << "mm_multiply on " << n << " qubits, roots q" << a.e.n->v << " q" << b.e.n->v << "; left " << strs(a.m.a) << " right " << strs(b.m.a);
    curcase = o.str();
    mEdge r = mm_multiply(a.e, b.e);
    Mat w = mulM(a.m, b.m);
    if (check) {
        wfM("mm_multiply", r, n);
        same("mm_multiply", den(r, n), w, nrm(a.m.a) * nrm(b.m.a) * (1 << n));
    }
    if (R.chance(20)) addop(n, r);
}
static void do_madd(bool check) {
    int n = 1 + R.below(MAXN);
    Op a = pickop(n), b = pickop(n);
    if (R.chance(15)) { C c = R.chance(50) ? C(-1) : rw(); b = Op{scaled(a.e, c), scaled(a.m, c)}; }
    std::ostringstream o;
    o << "mm_add on " << n << " qubits, roots q" << a.e.n->v << " q" << b.e.n->v << "; left " << strs(a.m.a) << " right " << strs(b.m.a);
    curcase = o.str();
    mEdge r = mm_add(a.e, b.e);
    Mat w = a.m;
    for (size_t i = 0; i < w.a.size(); i++) w.a[i] += b.m.a[i];
    if (check) {
        wfM("mm_add", r, n);
        same("mm_add", den(r, n), w, nrm(a.m.a) + nrm(b.m.a));
    }
    if (R.chance(20)) addop(n, r);
}
static void do_vadd(bool check) {
    int n = 1 + R.below(MAXN);
    St a = pickst(n), b = pickst(n);
    int k = R.below(10);
    if (k == 0) { C c = R.chance(60) ? C(-1) : rw(); b = St{scaled(a.e, c), scaled(a.v, c)}; }
    if (k == 1 && n > 1) { // partial cancellation: one half is the negative of the other operand's
        vEdge l = vEdge{a.e.w * a.e.n->children[0].w, a.e.n->children[0].n};
        if (a.e.n != vNode::terminal) {
            St x = pickst(n - 1);
            Vec half(a.v.begin(), a.v.begin() + a.v.size() / 2);
            if (l.w.isApproximatelyZero()) l = vEdge::zero;
            curcase = "partial cancellation";
            b.e = makeVEdge(n - 1, {scaled(l, -1), x.e});
            b.v = cat(scaled(half, -1), x.v);
        }
    }
    std::ostringstream o;
    o << "vv_add on " << n << " qubits, left " << strs(a.v) << " right " << strs(b.v);
    curcase = o.str();
    vEdge r = vv_add(a.e, b.e);
    Vec w = a.v;
    for (size_t i = 0; i < w.size(); i++) w[i] += b.v[i];
    if (check) {
        wfV("vv_add", r, n);
        same("vv_add", den(r, n), w, nrm(a.v) + nrm(b.v));
    }
    if (R.chance(30)) addst(n, r);
}
static void mode_mv() { warm(150); while (step(300)) { int k = R.below(10); if (k < 6) do_mv(true); else if (k == 6) do_mm(false); else if (k == 7) do_vadd(false); else if (k == 8) grow(); else recheck(); } }
static void mode_mm() { warm(150); while (step(300)) { int k = R.below(10); if (k < 4) do_mm(true); else if (k < 7) do_madd(true); else if (k == 7) do_mv(false); else if (k == 8) grow(); else recheck(); } }
static void mode_vv() { warm(150); while (step(300)) { int k = R.below(10); if (k < 7) do_vadd(true); else if (k == 7) do_mv(false); else if (k == 8) grow(); else recheck(); } }

// ---- canonical form: exactly representable values, built in different ways
static mEdge canonM(int n, const std::vector<int> &shape, size_t &p, C scale) {
    // shape: recipe; dyadic weights are pushed down or pulled up differently on every call through 'scale'
    if (n == 0) { int s = shape[p++ % shape.size()]; if (s % 4 == 0) return mEdge::zero; C w = ldexp(1.0, s % 3) * (s % 5 == 0 ? C(0, 1) : s % 7 == 0 ? C(-1) : C(1)); return {wc(w * scale), mNode::terminal}; }
    std::array<mEdge, 4> c;
    for (auto &x : c) { C k = dy(); x = canonM(n - 1, shape, p, k); x = scaled(x, scale / k); if (x.w.isApproximatelyZero()) x = mEdge::zero; }
    return makeMEdge(n - 1, c);
}
static vEdge canonV(int n, const std::vector<int> &shape, size_t &p, C scale) {
    if (n == 0) { int s = shape[p++ % shape.size()]; if (s % 4 == 0) return vEdge::zero; C w = ldexp(1.0, s % 3) * (s % 5 == 0 ? C(0, 1) : s % 7 == 0 ? C(-1) : C(1)); return {wc(w * scale), vNode::terminal}; }
    std::array<vEdge, 2> c;
    for (auto &x : c) { C k = dy(); x = canonV(n - 1, shape, p, k); x = scaled(x, scale / k); if (x.w.isApproximatelyZero()) x = vEdge::zero; }
    return makeVEdge(n - 1, c);
}
static void mode_node() {
    warm(50);
    while (more(300)) {
        int k = R.below(10);
        if (k < 6) grow();
        else if (k == 6) recheck();
        else if (k == 7) {
            int n = 1 + R.below(3);
            std::vector<int> sh(1 + R.below(1 << (2 * n)));
            for (auto &x : sh) x = R.below(40);
            C s = dy();
            size_t p = 0;
            curcase = "same operator built twice from parts scaled differently, n=" + std::to_string(n) + " shape " + strs(sh) + " factor " + str(s);
            mEdge a = canonM(n, sh, p, 1); p = 0;
            mEdge b = canonM(n, sh, p, s);
            Mat da = den(a, n), db = den(b, n);
            same("makeMEdge (scaled copy)", db, scaled(da, s));
            if (nrm(da.a) > 0 && (a.n != b.n || !(cc(b.w) == cc(a.w) * s))) vfail("the same operator up to a factor is stored as two different nodes or weights: %s vs %s", str(cc(a.w) * s).c_str(), str(cc(b.w)).c_str());
            wfM("makeMEdge", a, n);
        } else if (k == 8) {
            int n = 1 + R.below(5);
            std::vector<int> sh(1 + R.below(1 << n));
            for (auto &x : sh) x = R.below(40);
            C s = dy();
            size_t p = 0;
            curcase = "same state built twice from parts scaled differently, n=" + std::to_string(n) + " shape " + strs(sh) + " factor " + str(s);
            vEdge a = canonV(n, sh, p, 1); p = 0;
            vEdge b = canonV(n, sh, p, s);
            Vec da = den(a, n), db = den(b, n);
            same("makeVEdge (scaled copy)", db, scaled(da, s));
            if (nrm(da) > 0 && (a.n != b.n || !(cc(b.w) == cc(a.w) * s))) vfail("the same state up to a factor is stored as two different nodes or weights: %s vs %s", str(cc(a.w) * s).c_str(), str(cc(b.w)).c_str());
            wfV("makeVEdge", a, n);
        } else { // identity on the new qubit is not stored
            int n = 1 + R.below(MAXN);
            Op a = pickop(n - 1);
            curcase = "makeMEdge(" + std::to_string(n - 1) + ", {e,0,0,e}) with e " + strs(a.m.a);
            mEdge r = makeMEdge(n - 1, {a.e, mEdge::zero, mEdge::zero, a.e});
            if (r.n != a.e.n || !(cc(r.w) == cc(a.e.w))) vfail("identity on a qubit is not stripped");
            // ... and other combinations of the same part are not
            if (nrm(a.m.a) > 0) {
                mEdge y = makeMEdge(n - 1, {a.e, a.e, mEdge::zero, a.e});
                same("makeMEdge {e,e,0,e}", den(y, n), blocks(n, a.m, a.m, Mat(n - 1), a.m));
                mEdge x = makeMEdge(n - 1, {a.e, mEdge::zero, a.e, a.e});
                same("makeMEdge {e,0,e,e}", den(x, n), blocks(n, a.m, Mat(n - 1), a.m, a.m));
            }
        }
        if (okn.size() > 200000) okn.clear();
    }
}
// ---- tensor products
static Mat kronM(const Mat &a, const Mat &b) {
    Mat r(a.n + b.n);
    for (size_t i = 0; i < a.d(); i++) for (size_t j = 0; j < a.d(); j++) for (size_t k = 0; k < b.d(); k++) for (size_t l = 0; l < b.d(); l++) r(i * b.d() + k, j * b.d() + l) = a(i, j) * b(k, l);
    return r;
}
static bool fullheight(const mEdge &e, int n) {
    if (e.w.isApproximatelyZero()) return true;
    if (n == 0) return e.n == mNode::terminal;
    if (e.n == mNode::terminal || e.n->v != n - 1) return false;
    for (auto &c : e.n->children) if (!fullheight(c, n - 1)) return false;
    return true;
}
static void mode_kron() {
    warm(200);
    while (step(300)) {
        int k = R.below(10);
        if (k < 5) {
            int n = R.below(4), m = R.below(4);
            St a = pickst(n), b = pickst(m);
            curcase = "vv_kronecker of " + strs(a.v) + " and " + strs(b.v);
            vEdge r = vv_kronecker(a.e, b.e);
            Vec w;
            for (auto &x : a.v) for (auto &y : b.v) w.push_back(x * y);
            if (nrm(w) > 0 || r.n == vNode::terminal) wfV("vv_kronecker", r, n + m);
            same("vv_kronecker", den(nrm(w) == 0 && r.w.isApproximatelyZero() ? vEdge::zero : r, n + m), w);
            if (n + m >= 1 && n + m <= MAXN && R.chance(20) && nrm(w) > 0) addst(n + m, r);
        } else if (k < 9) {
            int n = R.below(4), m = R.below(4);
            Op a, b; int t = 0;
            do a = R.chance(50) ? buildop(n) : pickop(n); while (!fullheight(a.e, n) && ++t < 50);
            do b = R.chance(50) ? buildop(m) : pickop(m); while (!fullheight(b.e, m) && ++t < 100);
            if (!fullheight(a.e, n) || !fullheight(b.e, m)) continue;
            if (nrm(a.m.a) == 0 || nrm(b.m.a) == 0) { n = nrm(a.m.a) == 0 ? a.m.n : n; }
            curcase = "mm_kronecker of " + strs(a.m.a) + " and " + strs(b.m.a);
            mEdge r = mm_kronecker(a.e, b.e);
            Mat w = kronM(a.m, b.m);
            wfM("mm_kronecker", r, std::max(1, n + m));
            same("mm_kronecker", den(r, n + m), w);
            if (n + m >= 1 && n + m <= MAXN && R.chance(10)) addop(n + m, r);
        } else grow();
    }
}

// ---------------------------------------------------------------- gates
static Mat embed(int n, const std::vector<int> &tg, const std::vector<Vec> &g, const std::vector<std::pair<int, int>> &ctl) {
    // tg[0] is the least significant index bit of g
    Mat r(n);
    for (size_t c = 0; c < r.d(); c++) {
        bool ok = true;
        for (auto &k : ctl) if ((int)((c >> k.first) & 1) != k.second) ok = false;
        if (!ok) { r(c, c) = 1; continue; }
        size_t ci = 0, base = c;
        for (size_t j = 0; j < tg.size(); j++) { ci |= ((c >> tg[j]) & 1) << j; base &= ~((size_t)1 << tg[j]); }
        for (size_t ri = 0; ri < g.size(); ri++) {
            size_t row = base;
            for (size_t j = 0; j < tg.size(); j++) row |= ((ri >> j) & 1) << tg[j];
            r(row, c) += g[ri][ci];
        }
    }
    return r;
}
static GateMatrix rg() {
    switch (R.below(12)) {
    case 0: return Xmat; case 1: return Hmat; case 2: return Zmat; case 3: return Imat; case 4: return Tmat; case 5: return Ymat;
    case 6: return GateMatrix{cf_one, cf_zero, cf_zero, cf_zero};
    case 7: return GateMatrix{cf_zero, cf_zero, cf_zero, cf_one};
    case 8: { C w = rw(); return GateMatrix{w, 0, 0, w}; }
    case 9: { C w = rw(); return GateMatrix{w, w, w, w}; }
    case 10: return GateMatrix{0, 0, 0, 0};
    default: return GateMatrix{rw0(), rw0(), rw0(), rw0()};
    }
}
static std::vector<Vec> asv(const GateMatrix &g) { return {{g[0], g[1]}, {g[2], g[3]}}; }
static Controls mkc(const std::vector<std::pair<int, int>> &c) {
    Controls r;
    for (auto &x : c) r.emplace(Control{x.first, x.second ? Control::Type::pos : Control::Type::neg});
    return r;
}
static std::string cs(const std::vector<std::pair<int, int>> &c) { std::string s = "{"; for (auto &x : c) s += (x.second ? "+" : "-") + std::to_string(x.first) + " "; return s + "}"; }
static void one1q(int n, int t, const GateMatrix &g, const std::vector<std::pair<int, int>> &ctl) {
    curcase = "makeGate(n=" + std::to_string(n) + ", g=" + strs(g) + ", target=" + std::to_string(t) + ", controls=" + cs(ctl) + ")";
    mEdge e = ctl.empty() && R.chance(50) ? makeGate(n, g, t) : makeGate(n, g, t, mkc(ctl));
    wfM("makeGate", e, n);
    same("makeGate", den(e, n), embed(n, {t}, asv(g), ctl));
}
// entry (r,c) of an operator on a register too large for dense matrices
static C entry(const mEdge &e, int n, const std::vector<int> &r, const std::vector<int> &c) {
    C w = cc(e.w);
    mNode *p = e.n;
    for (int l = n - 1; l >= 0; l--) {
        if (w == C(0)) return 0;
        if (p == mNode::terminal || p->v < l) { if (r[l] != c[l]) return 0; continue; }
        if (p->v != l) vfail("operator node above its register");
        auto &ch = p->children[2 * r[l] + c[l]];
        w *= cc(ch.w);
        p = ch.n;
    }
    return w;
}
static std::vector<std::pair<int, int>> rctl(int n, const std::vector<int> &tg, int pct) {
    std::vector<std::pair<int, int>> c;
    for (int i = 0; i < n; i++) if (std::find(tg.begin(), tg.end(), i) == tg.end() && R.chance(pct)) c.push_back({i, R.below(2)});
    return c;
}
template <class F> static void bigentry(const char *what, int n, const std::vector<int> &tg, const std::vector<Vec> &g, const std::vector<std::pair<int, int>> &ctl, const mEdge &e, F) {
    for (int k = 0; k < 24; k++) {
        std::vector<int> r(n), c(n);
        for (int i = 0; i < n; i++) r[i] = c[i] = R.below(2);
        if (R.chance(75)) for (auto &x : ctl) r[x.first] = c[x.first] = x.second;
        if (R.chance(20) && !ctl.empty()) { int i = ctl[R.below((int)ctl.size())].first; r[i] = c[i] = !c[i]; }
        for (int t : tg) r[t] = R.below(2);
        if (R.chance(20)) { int i = R.below(n); r[i] = !r[i]; }
        bool sat = true, off = false;
        for (auto &x : ctl) if (c[x.first] != x.second) sat = false;
        for (int i = 0; i < n; i++) if (r[i] != c[i] && std::find(tg.begin(), tg.end(), i) == tg.end()) off = true;
        C want = 0;
        if (!off) {
            size_t ri = 0, ci = 0;
            for (size_t j = 0; j < tg.size(); j++) { ri |= (size_t)r[tg[j]] << j; ci |= (size_t)c[tg[j]] << j; }
            want = sat ? g[ri][ci] : (ri == ci ? C(1) : C(0));
        }
        C got = entry(e, n, r, c);
        if (!(std::abs(got - want) <= 1e-9 * std::max(1., std::abs(want)))) vfail("%s: entry at row %s column %s is %s, expected %s", what, strs(r).c_str(), strs(c).c_str(), str(got).c_str(), str(want).c_str());
    }
}
static void mode_gate1() {
    warm(20);
    for (int n = 1; n <= 4; n++)
        for (int t = 0; t < n; t++) {
            int m = 1;
            for (int i = 0; i < n - 1; i++) m *= 3;
            for (int k = 0; k < m; k++) {
                std::vector<std::pair<int, int>> ctl;
                int kk = k;
                for (int q = 0; q < n; q++) if (q != t) { if (kk % 3) ctl.push_back({q, kk % 3 - 1}); kk /= 3; }
                for (int g = 0; g < 4; g++) one1q(n, t, g == 0 ? Xmat : g == 1 ? GateMatrix{C(1, 2), C(3, 4), C(5, 6), C(7, 8)} : rg(), ctl);
            }
        }
    while (more(100)) {
        if (R.chance(50)) { int n = 1 + R.below(6), t = R.below(n); one1q(n, t, rg(), rctl(n, {t}, 10 + R.below(90))); }
        else if (R.chance(20)) { if (R.chance(30)) do_mm(false); else grow(); }
        else {
            int n = 2 + R.below(NQUBITS > 64 ? 63 : 20), t = R.below(n);
            GateMatrix g = rg();
            auto ctl = rctl(n, {t}, R.below(100));
            curcase = "makeGate(n=" + std::to_string(n) + ", g=" + strs(g) + ", target=" + std::to_string(t) + ", controls=" + cs(ctl) + ")";
            mEdge e = makeGate(n, g, t, mkc(ctl));
            wfM("makeGate", e, n);
            bigentry("makeGate", n, {t}, asv(g), ctl, e, 0);
        }
    }
}
static std::vector<Vec> rg2() {
    std::vector<Vec> g(4, Vec(4));
    switch (R.below(8)) {
    case 0: for (int i = 0; i < 4; i++) g[i][i] = 1; std::swap(g[1], g[2]); break;
    case 1: for (int i = 0; i < 4; i++) g[i][i] = rw(); break;
    case 2: { GateMatrix a = rg(), b = rg(); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) g[i][j] = a[2 * (i >> 1) + (j >> 1)] * b[2 * (i & 1) + (j & 1)]; break; }
    case 3: for (int i = 0; i < 4; i++) g[i][i] = 1; break;
    case 4: { double a = R.u() * 6; TwoQubitGateMatrix m = rzx_matrix(a); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) g[i][j] = m[i][j]; break; }
    case 5: for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) g[i][j] = C(i + 1, j + 1); break;
    default: for (auto &r : g) for (auto &x : r) x = rw0();
    }
    return g;
}
static TwoQubitGateMatrix as2(const std::vector<Vec> &g) { TwoQubitGateMatrix m; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m[i][j] = g[i][j]; return m; }
static void one2q(int n, int t0, int t1, const std::vector<Vec> &g, const std::vector<std::pair<int, int>> &ctl, bool big = false) {
    std::string gs; for (auto &r : g) gs += strs(r);
    curcase = "makeTwoQubitGate(n=" + std::to_string(n) + ", g=" + gs + ", target0=" + std::to_string(t0) + ", target1=" + std::to_string(t1) + ", controls=" + cs(ctl) + ")";
    mEdge e = ctl.empty() && R.chance(50) ? makeTwoQubitGate(n, as2(g), t0, t1) : makeTwoQubitGate(n, as2(g), t0, t1, mkc(ctl));
    wfM("makeTwoQubitGate", e, n);
    if (big) bigentry("makeTwoQubitGate", n, {t1, t0}, g, ctl, e, 0);
    else same("makeTwoQubitGate", den(e, n), embed(n, {t1, t0}, g, ctl));
}
static void mode_gate2() {
    warm(20);
    for (int n = 2; n <= 4; n++)
        for (int t0 = 0; t0 < n; t0++) for (int t1 = 0; t1 < n; t1++) if (t0 != t1) {
            int m = 1;
            for (int i = 0; i < n - 2; i++) m *= 3;
            for (int k = 0; k < m; k++) {
                std::vector<std::pair<int, int>> ctl;
                int kk = k;
                for (int q = 0; q < n; q++) if (q != t0 && q != t1) { if (kk % 3) ctl.push_back({q, kk % 3 - 1}); kk /= 3; }
                std::vector<Vec> g(4, Vec(4));
                for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) g[i][j] = C(1 + i * 4 + j, i - j);
                one2q(n, t0, t1, g, ctl);
                for (int x = 0; x < 3; x++) one2q(n, t0, t1, rg2(), ctl);
            }
        }
    while (more(100)) {
        int n = R.chance(70) ? 2 + R.below(5) : 2 + R.below(NQUBITS > 64 ? 60 : 20);
        int t0 = R.below(n), t1 = R.below(n);
        if (t0 == t1) continue;
        one2q(n, t0, t1, rg2(), rctl(n, {t0, t1}, R.below(100)), n > 6);
    }
}
static void onebig(int n, const std::vector<int> &tg, const std::vector<Vec> &g, bool deflt = false) {
    std::string gs; for (auto &r : g) gs += strs(r);
    curcase = "makeLargeGate(n=" + std::to_string(n) + ", targets=" + strs(tg) + (deflt ? " (default)" : "") + ", g=" + gs + ")";
    ComplexMatrix m(g.begin(), g.end());
    mEdge e = deflt ? makeLargeGate(n, m) : makeLargeGate(n, m, std::vector<Qubit>(tg.begin(), tg.end()));
    wfM("makeLargeGate", e, n);
    if (n <= 6) same("makeLargeGate", den(e, n), embed(n, tg, g, {}));
    else bigentry("makeLargeGate", n, tg, g, {}, e, 0);
}
static std::vector<Vec> rgk(int k) {
    size_t d = (size_t)1 << k;
    std::vector<Vec> g(d, Vec(d));
    switch (R.below(6)) {
    case 0: for (size_t i = 0; i < d; i++) for (size_t j = 0; j < d; j++) g[i][j] = C((double)(i * d + j + 1), (double)i - (double)j); break;
    case 1: for (size_t i = 0; i < d; i++) g[i][i] = 1; break;
    case 2: { std::vector<size_t> p(d); for (size_t i = 0; i < d; i++) p[i] = i; for (size_t i = d; i-- > 1;) std::swap(p[i], p[R.below((int)i + 1)]); for (size_t i = 0; i < d; i++) g[i][p[i]] = rw(); break; }
    case 3: for (size_t i = 0; i < d; i++) g[i][i] = rw(); break;
    default: for (auto &r : g) for (auto &x : r) x = rw0();
    }
    return g;
}
static void reject(const char *what, int n, ComplexMatrix g, std::vector<Qubit> t) {
    curcase = std::string("makeLargeGate with ") + what;
    bool thrown = false;
    try { makeLargeGate(n, g, t); } catch (const std::exception &) { thrown = true; }
    if (!thrown) vfail("makeLargeGate accepts %s", what);
}
static void mode_large() {
    warm(20);
    for (int n = 1; n <= 4; n++) for (int k = 1; k <= n; k++) {
        std::vector<int> p(n);
        for (int i = 0; i < n; i++) p[i] = i;
        std::set<std::vector<int>> seen;
        do {
            std::vector<int> tg(p.begin(), p.begin() + k);
            if (!seen.insert(tg).second) continue;
            std::vector<Vec> g((size_t)1 << k, Vec((size_t)1 << k));
            for (size_t i = 0; i < g.size(); i++) for (size_t j = 0; j < g.size(); j++) g[i][j] = C((double)(i * g.size() + j + 1), (double)i - (double)j);
            onebig(n, tg, g);
            onebig(n, tg, rgk(k));
        } while (std::next_permutation(p.begin(), p.end()));
        std::vector<int> tg(k);
        for (int i = 0; i < k; i++) tg[i] = i;
        onebig(n, tg, rgk(k), true);
    }
    {
        ComplexMatrix one(1, Vec{C(0, 1)});
        curcase = "makeLargeGate 1x1";
        mEdge e = makeLargeGate(2, one, {});
        same("makeLargeGate of a 1x1 matrix", den(e, 2), scaled(ident(2), C(0, 1)));
        reject("a 1x1 matrix with a target", 2, ComplexMatrix(1, Vec{C(0, 1)}), {0});
        for (int k = 1; k <= 3; k++) {
            size_t d = (size_t)1 << k;
            std::vector<Qubit> t;
            for (int i = 0; i < k; i++) t.push_back(i);
            reject("a number of rows that is no power of two", 4, ComplexMatrix(d + 1 + (k == 1 ? 0 : 0), Vec(d + 1, 1)), t);
            reject("fewer columns than rows", 4, ComplexMatrix(d, Vec(d / 2 ? d / 2 : 1, 1)), t);
            reject("more columns than rows", 4, ComplexMatrix(d, Vec(d * 2, 1)), t);
            std::vector<Qubit> t2 = t; t2.push_back(k);
            reject("too many targets", 4, ComplexMatrix(d, Vec(d, 1)), t2);
            t2 = t; t2.pop_back();
            if (k > 1) reject("too few targets", 4, ComplexMatrix(d, Vec(d, 1)), t2);
        }
    }
    for (int k = 5; k <= 6; k++) { std::vector<int> tg; for (int i = 0; i < k; i++) tg.push_back((i * 3 + 1) % 7); onebig(7, tg, rgk(k)); }
    while (more(50)) {
        int n = R.chance(70) ? 1 + R.below(6) : 7 + R.below(30);
        int k = 1 + R.below(std::min(n, 4));
        std::vector<int> tg;
        while ((int)tg.size() < k) { int t = R.below(n); if (std::find(tg.begin(), tg.end(), t) == tg.end()) tg.push_back(t); }
        onebig(n, tg, rgk(k));
    }
}

// ---------------------------------------------------------------- gate library
static const C I1(0, 1);
static Mat m1(C a, C b, C c, C d) { Mat m(1); m.a = {a, b, c, d}; return m; }
static Mat from(const GateMatrix &g) { Mat m(1); for (int i = 0; i < 4; i++) m.a[i] = g[i]; return m; }
static Mat from(const TwoQubitGateMatrix &g) { Mat m(2); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m(i, j) = g[i][j]; return m; }
static Mat pauli(char p) { return p == 'I' ? ident(1) : p == 'X' ? m1(0, 1, 1, 0) : p == 'Y' ? m1(0, -I1, I1, 0) : m1(1, 0, 0, -1); }
static Mat expP(const Mat &P, double a) { // exp(-i a/2 P), P^2 = 1
    Mat r = scaled(P, -I1 * sin(a / 2));
    for (size_t i = 0; i < r.d(); i++) r(i, i) += cos(a / 2);
    return r;
}
static Mat specU(double t, double p, double l, double g) {
    C e = std::exp(I1 * g);
    return m1(e * cos(t / 2), -e * std::exp(I1 * l) * sin(t / 2), e * std::exp(I1 * p) * sin(t / 2), e * std::exp(I1 * (p + l)) * cos(t / 2));
}
static std::vector<Vec> rowsof(const Mat &m) { std::vector<Vec> g(m.d(), Vec(m.d())); for (size_t i = 0; i < m.d(); i++) for (size_t j = 0; j < m.d(); j++) g[i][j] = m(i, j); return g; }
static double angle() { static const double s[] = {0, PI / 2, PI, -PI / 2, 2 * PI, 4 * PI, PI / 3, -PI, 1e-3, 3 * PI}; return R.chance(40) ? s[R.below(10)] : (R.u() - 0.5) * 30; }
static void mode_lib() {
    C s = S2, w = std::exp(I1 * (M_PI / 4));
    struct { const char *n; GateMatrix g; Mat m; } fx[] = {
        {"I", Imat, ident(1)}, {"H", Hmat, m1(s, s, s, -s)}, {"X", Xmat, pauli('X')}, {"Y", Ymat, pauli('Y')}, {"Z", Zmat, pauli('Z')},
        {"S", Smat, m1(1, 0, 0, I1)}, {"Sdg", Sdagmat, m1(1, 0, 0, -I1)}, {"T", Tmat, m1(1, 0, 0, w)}, {"Tdg", Tdagmat, m1(1, 0, 0, std::conj(w))},
        {"SX", SXmat, m1(C(.5, .5), C(.5, -.5), C(.5, -.5), C(.5, .5))}, {"SXdg", SXdagmat, m1(C(.5, -.5), C(.5, .5), C(.5, .5), C(.5, -.5))},
        {"V", Vmat, m1(s, -I1 * s, -I1 * s, s)}, {"Vdg", Vdagmat, m1(s, I1 * s, I1 * s, s)}};
    for (auto &f : fx) { curcase = f.n; same(f.n, from(f.g), f.m); }
    Mat sw(2); sw(0, 0) = sw(3, 3) = sw(1, 2) = sw(2, 1) = 1;
    Mat isw = sw; isw(1, 2) = isw(2, 1) = I1;
    curcase = "swap"; same("swap", from(swap_matrix()), sw);
    curcase = "iswap"; same("iswap", from(iswap_matrix()), isw);
    while (more(400)) {
        double a = angle(), b = angle(), c = angle(), d = angle();
        std::ostringstream o; o.precision(17); o << "angles " << a << " " << b << " " << c << " " << d; curcase = o.str();
        same("rx", from(rx(a)), expP(pauli('X'), a)); same("ry", from(ry(a)), expP(pauli('Y'), a)); same("rz", from(rz(a)), expP(pauli('Z'), a));
        same("p", from(p(a)), m1(1, 0, 0, std::exp(I1 * a))); same("u1", from(u1(a)), m1(1, 0, 0, std::exp(I1 * a)));
        same("u2", from(u2(a, b)), specU(M_PI / 2, a, b, 0)); same("u3", from(u3(a, b, c)), specU(a, b, c, 0)); same("u", from(u(a, b, c, d)), specU(a, b, c, d));
        same("r", from(r(a, b)), m1(cos(a / 2), -I1 * std::exp(-I1 * b) * sin(a / 2), -I1 * std::exp(I1 * b) * sin(a / 2), cos(a / 2)));
        // first target = more significant index bit; Qiskit's rzx(t) on (q0,q1) is exp(-i t/2 X(q1) Z(q0))
        same("rxx", from(rxx_matrix(a)), expP(kronM(pauli('X'), pauli('X')), a));
        same("ryy", from(ryy_matrix(a)), expP(kronM(pauli('Y'), pauli('Y')), a));
        same("rzz", from(rzz_matrix(a)), expP(kronM(pauli('Z'), pauli('Z')), a));
        same("rzx", from(rzx_matrix(a)), expP(kronM(pauli('X'), pauli('Z')), a));
        int n = 1 + R.below(4), t = R.below(n);
        curcase += " n=" + std::to_string(n) + " target=" + std::to_string(t);
        auto one = [&](const char *nm, mEdge e, Mat m) { same(nm, den(e, n), embed(n, {t}, rowsof(m), {})); };
        one("RX", RX(n, t, a), expP(pauli('X'), a)); one("RY", RY(n, t, a), expP(pauli('Y'), a)); one("RZ", RZ(n, t, a), expP(pauli('Z'), a));
        if (n < 2) continue;
        int x; do x = R.below(n); while (x == t);
        curcase += " other=" + std::to_string(x);
        auto two = [&](const char *nm, mEdge e, Mat m) { same(nm, den(e, n), embed(n, {x, t}, rowsof(m), {})); };
        two("RXX", RXX(n, t, x, a), expP(kronM(pauli('X'), pauli('X')), a)); two("RYY", RYY(n, t, x, a), expP(kronM(pauli('Y'), pauli('Y')), a));
        two("RZZ", RZZ(n, t, x, a), expP(kronM(pauli('Z'), pauli('Z')), a)); two("RZX", RZX(n, t, x, a), expP(kronM(pauli('X'), pauli('Z')), a));
        two("SWAP", SWAP(n, t, x), sw); two("makeSwap", makeSwap(n, t, x), sw); two("ISWAP", ISWAP(n, t, x), isw);
        same("CX", den(CX(n, t, x), n), embed(n, {t}, rowsof(pauli('X')), {{x, 1}}));
        if (n < 3) continue;
        int y; do y = R.below(n); while (y == t || y == x);
        same("CSWAP", den(CSWAP(n, t, x, y), n), embed(n, {x, t}, rowsof(sw), {{y, 1}}));
    }
}

// ---------------------------------------------------------------- initial states and read-out
static void mode_readout() {
    for (int q = 1; q <= 90; q++) for (int b = 0; b < 2; b++) {
        curcase = std::string(b ? "makeOneState(" : "makeZeroState(") + std::to_string(q) + ")";
        vEdge e = b ? makeOneState(q) : makeZeroState(q);
        C w = cc(e.w);
        vNode *p = e.n;
        for (int l = q - 1; l >= 0; l--) {
            if (p == vNode::terminal || p->v != l) vfail("initial state has no node on qubit %d", l);
            if (!p->children[1 - b].w.isApproximatelyZero()) vfail("initial state has amplitude off its basis state");
            w *= cc(p->children[b].w);
            p = p->children[b].n;
        }
        if (p != vNode::terminal || std::abs(w - C(1)) > 1e-12) vfail("amplitude of the basis state is %s", str(w).c_str());
        if (q <= 12) {
            Vec v((size_t)1 << q); v[b ? v.size() - 1 : 0] = 1;
            size_t d = 0; Complex *g = e.getVector(&d);
            Vec got; for (size_t i = 0; i < d; i++) got.push_back(cc(g[i]));
            same("getVector of an initial state", got, v);
            delete[] g;
        }
    }
    warm(150);
    while (step(200)) {
        int k = R.below(10);
        int n = 1 + R.below(MAXN);
        if (k < 4) {
            St s = pickst(n);
            if (s.e.n == vNode::terminal) continue;
            curcase = "getVector of " + strs(s.v);
            size_t d = 0;
            Complex *g = s.e.getVector(&d);
            Vec got; for (size_t i = 0; i < d; i++) got.push_back(cc(g[i]));
            delete[] g;
            same("getVector", got, s.v);
            if (R.chance(20)) {
                VectorXcf x = s.e.getEigenVector();
                if ((size_t)x.size() != s.v.size()) vfail("getEigenVector has %ld entries", (long)x.size());
                for (size_t i = 0; i < s.v.size(); i++) if (std::abs(C(x[(long)i]) - s.v[i]) > 1e-5 * std::max(1., nrm(s.v))) vfail("getEigenVector entry %zu", i);
            }
        } else if (k < 8) {
            Op o = pickop(n);
            bool dfl = R.chance(20) && o.e.n != mNode::terminal;
            int nn = dfl ? o.e.n->v + 1 : n;
            curcase = "getMatrix(nQubits=" + std::to_string(dfl ? -1 : n) + ") of an operator with root on qubit " + std::to_string(o.e.n->v) + ": " + strs(o.m.a);
            size_t d = 0;
            Complex **g = dfl ? o.e.getMatrix(&d) : o.e.getMatrix(&d, n);
            if (d != (size_t)1 << nn) vfail("getMatrix dimension %zu", d);
            Mat got(nn);
            for (size_t i = 0; i < d; i++) for (size_t j = 0; j < d; j++) got(i, j) = cc(g[i][j]);
            for (size_t i = 0; i < d; i++) delete[] g[i];
            delete[] g;
            same("getMatrix", got, den(o.e, nn));
            if (!dfl) same("getMatrix", got, o.m);
            if (R.chance(20) && !dfl) {
                MatrixXcf x = o.e.getEigenMatrix(n);
                for (size_t i = 0; i < d; i++) for (size_t j = 0; j < d; j++) if (std::abs(C(x((long)i, (long)j)) - o.m(i, j)) > 1e-5 * std::max(1., nrm(o.m.a))) vfail("getEigenMatrix entry %zu %zu", i, j);
            }
        } else if (k == 8) grow();
        else do_mv(false);
    }
}

// ---------------------------------------------------------------- measurement
static double n2(const Vec &v) { double s = 0; for (auto &x : v) s += std::norm(x); return s; }
static bool normalised(int n, St &s) {
    s = pickst(n);
    double k = std::sqrt(n2(s.v));
    if (!(k > 1e-6) || s.e.n == vNode::terminal) return false;
    s.e = scaled(s.e, 1 / k);
    s.v = scaled(s.v, 1 / k);
    return true;
}
static void gcall(bool force) { // garbage collection of everything held
    std::vector<vEdge> l;
    for (auto &p : PV) for (auto &s : p) l.push_back(s.e);
    auto r = gc(l, force);
    if (r.size() != l.size()) vfail("gc returns %zu states for %zu", r.size(), l.size());
    size_t i = 0;
    for (auto &p : PV) for (auto &s : p) s.e = r[i++];
    okn.clear();
}
static void shrink() { for (auto &p : PV) if (p.size() > 20) p.resize(20); }
static double chi2(const std::map<std::string, long> &cnt, const std::map<std::string, double> &pr, long N) {
    double x = 0;
    for (auto &k : pr) {
        double e = k.second * N;
        auto it = cnt.find(k.first);
        double o = it == cnt.end() ? 0 : (double)it->second;
        if (k.second < 1e-12) { if (o > 0 && k.second < 1e-18) return 1e9; continue; }
        x += (o - e) * (o - e) / std::max(e, 5.0);
    }
    return x;
}
static std::string bits(size_t i, int n) { std::string s; for (int q = n - 1; q >= 0; q--) s += (i >> q) & 1 ? '1' : '0'; return s; }
static void mode_prob() {
    warm(200);
    std::mt19937_64 mt(R.next());
    while (step(150)) {
        int k = R.below(12), n = 1 + R.below(4);
        St s;
        if (k < 4) {
            if (!normalised(n, s)) continue;
            curcase = "probabilities of " + strs(s.v);
            auto p = probabilities(s.e);
            if (p.size() != s.v.size()) vfail("probabilities has %zu entries for %d qubits", p.size(), n);
            for (size_t i = 0; i < p.size(); i++) if (!(std::abs(p[i] - std::norm(s.v[i])) <= 1e-8)) vfail("probabilities[%zu] is %.12g, expected %.12g", i, p[i], std::norm(s.v[i]));
        } else if (k < 8) {
            if (!normalised(n, s)) continue;
            int q = R.below(n);
            curcase = "measureOne(qubit " + std::to_string(q) + ") of " + strs(s.v);
            double want = 0;
            for (size_t i = 0; i < s.v.size(); i++) if (!((i >> q) & 1)) want += std::norm(s.v[i]);
            double got = measureOne(s.e, q, mt);
            if (!(std::abs(got - want) <= 1e-8)) vfail("probability of 0 on qubit %d is %.12g, expected %.12g", q, got, want);
            same("measureOne changed the state", den(s.e, n), s.v);
        } else if (k < 10) {
            if (!normalised(n, s)) continue;
            curcase = "measureAll (3000 samples) of " + strs(s.v);
            std::map<std::string, long> cnt;
            std::map<std::string, double> pr;
            for (size_t i = 0; i < s.v.size(); i++) pr[bits(i, n)] = std::norm(s.v[i]);
            vEdge e = s.e;
            for (int i = 0; i < 3000; i++) {
                std::string r = measureAll(e, false, mt);
                if (!pr.count(r)) vfail("measureAll returns \"%s\" for %d qubits", r.c_str(), n);
                if (pr[r] < 1e-20) vfail("measureAll returns \"%s\", which has probability zero", r.c_str());
                cnt[r]++;
            }
            same("measureAll without collapse changed the state", den(e, n), s.v);
            double x = chi2(cnt, pr, 3000);
            if (x > 45 + 3. * (double)s.v.size()) {
                std::string c; for (auto &y : cnt) c += y.first + ":" + std::to_string(y.second) + " ";
                vfail("measureAll frequencies do not follow the Born rule (chi2 %.1f with %zu outcomes): %s", x, s.v.size(), c.c_str());
            }
        } else if (k == 10) { shrink(); gcall(true); warm(40); }
        else { if (R.chance(50)) do_mv(false); else grow(); }
    }
}
static void mode_collapse() {
    warm(200);
    std::mt19937_64 mt(R.next());
    while (step(150)) {
        int k = R.below(12), n = 1 + R.below(4);
        St s;
        if (k < 6) {
            if (!normalised(n, s)) continue;
            int q = R.below(n);
            double p0 = 0;
            for (size_t i = 0; i < s.v.size(); i++) if (!((i >> q) & 1)) p0 += std::norm(s.v[i]);
            curcase = "measureOneCollapsing(qubit " + std::to_string(q) + ") of " + strs(s.v);
            std::map<std::string, long> cnt;
            std::map<std::string, double> pr{{"0", p0}, {"1", 1 - p0}};
            int N = R.chance(10) ? 2000 : 12;
            for (int t = 0; t < N; t++) {
                vEdge e = s.e;
                char r = measureOneCollapsing(e, q, mt);
                if (r != '0' && r != '1') vfail("measureOneCollapsing returns character %d", (int)r);
                double pb = r == '0' ? p0 : 1 - p0;
                if (pb < 1e-18) vfail("measureOneCollapsing returns an outcome of probability zero");
                cnt[std::string(1, r)]++;
                if (t < 6 && pb > 1e-6) {
                    Vec w = s.v;
                    for (size_t i = 0; i < w.size(); i++) w[i] = (int)((i >> q) & 1) == r - '0' ? w[i] / std::sqrt(pb) : 0;
                    wfV("measureOneCollapsing", e, n);
                    same("state after measureOneCollapsing", den(e, n), w, 1e2);
                    char r2 = measureOneCollapsing(e, q, mt);
                    if (r2 != r) vfail("measuring again gives a different outcome");
                    if (R.chance(30)) addst(n, e);
                }
            }
            same("measureOneCollapsing changed another state", den(s.e, n), s.v);
            if (N > 100 && chi2(cnt, pr, N) > 40) vfail("outcomes 0: %ld of %d, probability %.6g", cnt["0"], N, p0);
        } else if (k < 9) {
            if (!normalised(n, s)) continue;
            curcase = "measureAll(collapse) of " + strs(s.v);
            vEdge e = s.e;
            std::string r = measureAll(e, true, mt);
            if ((int)r.size() != n) vfail("measureAll returns \"%s\" for %d qubits", r.c_str(), n);
            size_t i = 0;
            for (char c : r) i = 2 * i + (c == '1');
            if (std::norm(s.v[i]) < 1e-20) vfail("measureAll returns \"%s\", which has probability zero", r.c_str());
            Vec w(s.v.size()), g = den(e, n);
            w[i] = 1;
            for (auto &x : g) x = std::abs(x);
            same("state after measureAll with collapse (magnitudes)", g, w);
            same("measureAll changed another state", den(s.e, n), s.v);
        } else if (k == 9) { shrink(); gcall(true); warm(40); }
        else if (k == 10) recheck();
        else { if (R.chance(50)) do_mv(false); else grow(); }
    }
}

// ---------------------------------------------------------------- garbage collection, serialisation
static void gcmatall(bool force) {
    std::vector<mEdge> l;
    for (auto &p : PM) for (auto &s : p) l.push_back(s.e);
    auto r = gc_mat(l, force);
    if (r.size() != l.size()) vfail("gc_mat returns %zu operators for %zu", r.size(), l.size());
    size_t i = 0;
    for (auto &p : PM) for (auto &s : p) s.e = r[i++];
    okn.clear();
}
static void allsame(const char *what) {
    for (int n = 1; n <= MAXN; n++) {
        for (auto &s : PV[n]) { wfV(what, s.e, n); same(what, den(s.e, n), s.v); }
        for (auto &s : PM[n]) { wfM(what, s.e, n); same(what, den(s.e, n), s.m); }
    }
}
#include "big.hpp"
static void mode_gc() {
    warm(150);
    while (step(60)) {
        int k = R.below(8);
        for (int i = 0; i < 12; i++) { int j = R.below(6); if (j == 0) do_mm(true); else if (j == 1) do_mv(true); else if (j == 2) do_vadd(true); else if (j == 3) do_madd(true); else grow(); }
        for (int n = 1; n <= MAXN; n++) { // keep the pools small and shuffled, with repeated entries
            if (PV[n].size() > 12) { for (int i = 0; i < 3; i++) std::swap(PV[n][R.below((int)PV[n].size())], PV[n][0]); PV[n].resize(12); }
            if (PM[n].size() > 12) { for (int i = 0; i < 3; i++) std::swap(PM[n][R.below((int)PM[n].size())], PM[n][0]); PM[n].resize(12); }
            if (!PV[n].empty() && R.chance(50)) PV[n].push_back(PV[n][R.below((int)PV[n].size())]);
            if (!PM[n].empty() && R.chance(50)) PM[n].push_back(PM[n][R.below((int)PM[n].size())]);
        }
        if (k < 3) {
            bool force = R.chance(70);
            if (!force) set_gc_thr(1 + R.below(3000), 1 << 16);
            curcase = std::string("gc(") + (force ? "forced" : "threshold") + ") of all states held";
            std::map<vNode *, std::vector<vNode **>> sh;
            std::vector<vEdge *> es; std::vector<vNode *> old;
            for (auto &p : PV) for (auto &s : p) { es.push_back(&s.e); old.push_back(s.e.n); }
            // an extra zero state in the list
            if (R.chance(30)) { int n = 1 + R.below(MAXN); PV[n].push_back(St{vEdge::zero, Vec((size_t)1 << n)}); es.clear(); old.clear(); for (auto &p : PV) for (auto &s : p) { es.push_back(&s.e); old.push_back(s.e.n); } }
            gcall(force);
            allsame("after gc");
            for (size_t i = 0; i < es.size(); i++) for (size_t j = i + 1; j < es.size(); j++) if (old[i] == old[j] && es[i]->n != es[j]->n) vfail("structure shared before gc is not shared afterwards");
        } else if (k < 5) {
            bool force = R.chance(70);
            if (!force) set_gc_thr(1 << 16, 1 + R.below(3000));
            curcase = std::string("gc_mat(") + (force ? "forced" : "threshold") + ") of all operators held";
            std::vector<mEdge *> es; std::vector<mNode *> old;
            for (auto &p : PM) for (auto &s : p) { es.push_back(&s.e); old.push_back(s.e.n); }
            gcmatall(force);
            allsame("after gc_mat");
            for (size_t i = 0; i < es.size(); i++) for (size_t j = i + 1; j < es.size(); j++) if (old[i] == old[j] && es[i]->n != es[j]->n) vfail("structure shared before gc_mat is not shared afterwards");
        } else if (k == 5) {
            int n = 1 + R.below(MAXN);
            St s = pickst(n);
            curcase = "encode/decode state " + strs(s.v);
            std::vector<vContent> t; std::unordered_map<vNode *, int> m;
            vNode_to_vec(s.e.n, t, m);
            if (get_nNodes(s.e) + 1 != (int)t.size() && get_nNodes(s.e) != (int)t.size()) vfail("get_nNodes is %d for a table of %zu rows", get_nNodes(s.e), t.size());
            vNode *b = vec_to_vNode(t, vUnique);
            if (b != s.e.n) vfail("decoding into the same node store gives another node");
            vNodeTable fresh(NQUBITS);
            vEdge e{s.e.w, vec_to_vNode(t, fresh, R.chance(50))};
            okn.clear();
            wfV("decoded state", e, n);
            same("decoded state", den(e, n), s.v);
            okn.clear();
        } else if (k == 6) {
            int n = 1 + R.below(MAXN);
            Op s = pickop(n);
            curcase = "encode/decode operator " + strs(s.m.a);
            std::vector<mContent> t; std::unordered_map<mNode *, int> m;
            mNode_to_vec(s.e.n, t, m);
            mNode *b = vec_to_mNode(t, mUnique);
            if (b != s.e.n) vfail("decoding into the same node store gives another node");
            mNodeTable fresh(NQUBITS);
            mEdge e{s.e.w, vec_to_mNode(t, fresh, R.chance(50))};
            okn.clear();
            wfM("decoded operator", e, n);
            same("decoded operator", den(e, n), s.m);
            okn.clear();
        } else {
            int n = 1 + R.below(MAXN);
            if (PV[n].empty()) continue;
            curcase = "gc of one state";
            St s = PV[n][R.below((int)PV[n].size())];
            for (auto &p : PV) p.clear();
            s.e = gc(s.e, true);
            okn.clear();
            wfV("after gc", s.e, n);
            same("after gc of one state", den(s.e, n), s.v);
            PV[n].push_back(s);
            warm(30);
            Op o = pickop(n);
            same("after gc", den(mv_multiply(o.e, s.e), n), mulV(o.m, s.v), nrm(o.m.a) * nrm(s.v) * 64);
            if (R.chance(50)) { mEdge g = gc_mat(o.e, true); for (auto &p : PM) p.clear(); okn.clear(); same("after gc_mat of one operator", den(g, n), o.m); PM[n].push_back(Op{g, o.m}); warm(30); }
        }
    }
}

// ---------------------------------------------------------------- memo tables
template <class E> static std::string ek(const E &e) { std::ostringstream o; o.precision(17); o << e.w.r << "," << e.w.i << "@" << (const void *)e.n; return o.str(); }
static void mode_memo() {
    warm(300);
    std::vector<mEdge> ms; std::vector<vEdge> vs;
    for (auto &p : PM) for (auto &o : p) if (o.e.n != mNode::terminal) ms.push_back(o.e);
    for (auto &p : PV) for (auto &o : p) if (o.e.n != vNode::terminal) vs.push_back(o.e);
    static const C ws[] = {1, -1, C(0, 1), 0.5, 2, C(0, -0.5), C(1, 1), 0.25};
    auto pm = [&]() { mEdge e = ms[R.below((int)ms.size())]; e.w = wc(ws[R.below(8)]); return e; };
    auto pv = [&]() { vEdge e = vs[R.below((int)vs.size())]; e.w = wc(ws[R.below(8)]); return e; };
    auto near = [&](const Complex &a) { return a; };
    (void)near;
    while (more(3)) {
        int q = 8;
        AddCache ac(q); MulCache mc(q);
        std::map<std::string, std::set<std::string>> ref;
        std::vector<std::string> order;
        auto chk = [&](const std::string &key, const std::string &got) {
            auto it = ref.find(key);
            if (it == ref.end() || !it->second.count(got)) {
                std::string s; if (it != ref.end()) for (auto &x : it->second) s += " " + x;
                curcase = "lookup " + key;
                vfail("memo table returns %s for operands for which%s was stored", got.c_str(), s.empty() ? " nothing" : s.c_str());
            }
        };
        struct K { int kind; mEdge a, b; vEdge x, y; };
        std::vector<K> keys;
        auto rk = [&]() { K k; k.kind = R.below(4); k.a = pm(); k.b = pm(); k.x = pv(); k.y = pv(); return k; };
        int steps = R.chance(20) ? 30000 : 1500;
        for (int s = 0; s < steps; s++) {
            K k = keys.empty() || R.chance(40) ? rk() : keys[keys.size() - 1 - R.below((int)std::min<size_t>(keys.size(), 400))];
            if (R.chance(15)) { // a relative of a stored key: one part replaced, or swapped
                K o = rk();
                switch (R.below(5)) { case 0: k.a = o.a; break; case 1: k.b = o.b; break; case 2: k.x = o.x; k.y.w = o.y.w; break; case 3: std::swap(k.a, k.b); std::swap(k.x, k.y); break; default: k.kind = o.kind; }
            }
            std::string key;
            auto pair2 = [](std::string a, std::string b) { if (b < a) std::swap(a, b); return a + " | " + b; };
            switch (k.kind) {
            case 0: key = "mm_add " + pair2(ek(k.a), ek(k.b)); break;
            case 1: key = "vv_add " + pair2(ek(k.x), ek(k.y)); break;
            case 2: { std::ostringstream o; o << "mm_mul " << (void *)k.a.n << " | " << (void *)k.b.n; key = o.str(); break; }
            default: { std::ostringstream o; o << "mv_mul " << (void *)k.a.n << " | " << (void *)k.x.n; key = o.str(); }
            }
            bool set = R.chance(45);
            curcase = (set ? "store " : "lookup ") + key;
            if (set) {
                mEdge rm = R.chance(10) ? mEdge::zero : pm(); vEdge rv = R.chance(10) ? vEdge::zero : pv();
                if (k.kind == 0) ac.set(k.a, k.b, rm);
                else if (k.kind == 1) ac.set(k.x, k.y, rv);
                else if (k.kind == 2) mc.set(k.a.n, k.b.n, rm);
                else mc.set(k.a.n, k.x.n, rv);
                ref[key].insert(k.kind == 0 || k.kind == 2 ? ek(rm) : ek(rv));
                keys.push_back(k);
            } else {
                if (k.kind == 0) { mEdge r = ac.find(k.a, k.b); if (r.n) chk(key, ek(r)); }
                else if (k.kind == 1) { vEdge r = ac.find(k.x, k.y); if (r.n) chk(key, ek(r)); }
                else if (k.kind == 2) { mEdge r = mc.find(k.a.n, k.b.n); if (r.n) chk(key, ek(r)); }
                else { vEdge r = mc.find(k.a.n, k.x.n); if (r.n) chk(key, ek(r)); }
            }
            if (R.below(steps) < 3) { curcase = "clearAll"; ac.clearAll(); mc.clearAll(); ref.clear(); }
        }
        for (int i = 0; i < 30; i++) { if (R.chance(50)) do_mv(true); else if (R.chance(50)) do_mm(true); else if (R.chance(50)) do_madd(true); else do_vadd(true); }
    }
}
// ---------------------------------------------------------------- node store
template <class N> static std::string nk(const N &n) { std::ostringstream o; o.precision(17); o << n.v; for (auto &c : n.children) o << ";" << (c.w.r + 0.0) << "," << (c.w.i + 0.0) << "@" << (void *)c.n; return o.str(); }
template <class N, class E> static void storerun(int q, int steps) {
    CHashTable<N> t(q);
    std::map<std::string, N *> ref;
    std::map<N *, std::string> stored;
    std::vector<N *> live{N::terminal};
    std::vector<std::string> keys;
    std::vector<std::pair<N *, std::string>> out; // handed out, not yet stored or returned
    static const C ws[] = {1, 0, -1, C(0, 1), 0.5, C(0.5, 0.5), 1, 0.25};
    std::vector<N> made;
    for (int s = 0; s < steps; s++) {
        int k = R.below(20);
        if (out.size() < 6 || k < 9) {
            curcase = "getNode";
            N *p = t.getNode();
            if (p == nullptr || p == N::terminal) vfail("getNode returns no usable memory");
            auto it = stored.find(p);
            if (it != stored.end()) vfail("getNode hands out the memory of a stored node");
            for (auto &o : out) {
                char *a = (char *)p, *b = (char *)o.first;
                if (std::abs(a - b) < (long)sizeof(N)) vfail("getNode hands out overlapping memory twice");
            }
            if (!made.empty() && R.chance(40)) { N &m = made[R.below((int)made.size())]; p->v = m.v; p->children = m.children; if (R.chance(20)) p->v = R.below(q); }
            else {
                p->v = R.below(q);
                for (auto &c : p->children) { c.w = wc(ws[R.below(8)]); c.n = live[R.chance(50) ? 0 : R.below((int)live.size())]; if (cc(c.w) == C(0)) { c.n = N::terminal; if (R.chance(20)) c.w = Complex(-0.0, 0.0); } }
                if (R.chance(5)) std::swap(p->children[0], p->children[1]);
            }
            out.push_back({p, nk(*p)});
        } else {
            int i = R.below((int)out.size());
            N *p = out[i].first;
            std::string key = out[i].second;
            if (nk(*p) != key) vfail("memory handed out was changed by another operation");
            out.erase(out.begin() + i);
            if (k < 17) {
                curcase = "lookup of " + key;
                N copy = *p;
                N *r = t.lookup(p);
                auto it = ref.find(key);
                if (it != ref.end()) { if (r != it->second) vfail("lookup does not return the stored node"); }
                else {
                    if (r != p) vfail("lookup of a new node returns another node (%s)", nk(*r).c_str());
                    ref[key] = r; stored[r] = key; if (live.size() < 40) live.push_back(r); else live[1 + R.below(39)] = r;
                    if (made.size() < 3000) made.push_back(copy); else made[R.below(3000)] = copy;
                }
                if (nk(*r) != key) vfail("lookup returns node %s", nk(*r).c_str());
            } else { curcase = "returnNode"; t.returnNode(p); }
        }
        if (R.below(400) == 0) for (auto &x : stored) if (nk(*x.first) != x.second) { curcase = "stored nodes"; vfail("stored node %s is now %s", x.second.c_str(), nk(*x.first).c_str()); }
    }
    for (auto &x : stored) if (nk(*x.first) != x.second) vfail("stored node %s is now %s", x.second.c_str(), nk(*x.first).c_str());
    // everything stored is still found
    for (auto &x : ref) {
        curcase = "lookup of " + x.first;
        N *p = t.getNode();
        if (stored.count(p)) vfail("getNode hands out the memory of a stored node");
        p->v = x.second->v; p->children = x.second->children;
        if (t.lookup(p) != x.second) vfail("a stored node is no longer found");
    }
}
static void mode_store() {
    while (more(4)) {
        int q = 1 + R.below(4), steps = R.chance(30) ? 12000 : 1500;
        if (R.chance(50)) storerun<vNode, vEdge>(q, steps); else storerun<mNode, mEdge>(q, steps);
    }
    for (int i = 0; i < 200; i++) { grow(); do_mv(true); do_mm(true); do_vadd(true); }
}

// ---------------------------------------------------------------- weights
static void mode_complex() {
    const double lim = 1e-9, tight = 1e-18;
    auto chkpair = [&](Complex a, Complex b) {
        std::ostringstream o; o.precision(17); o << "a=" << a << " b=" << b; curcase = o.str();
        bool e = a.isApproximatelyEqual(b), f = b.isApproximatelyEqual(a);
        if (e != f) vfail("comparison is not symmetric");
        double d = std::max(std::abs(a.r - b.r), std::abs(a.i - b.i));
        double sc = 1;
        if (e && d > lim * sc) vfail("weights that differ by %.3g are treated as equal", d);
        if (!a.isApproximatelyEqual(a)) vfail("a weight is not equal to itself");
        if (a.r == b.r && a.i == b.i && !e) vfail("identical weights are treated as different");
        if (d <= tight && !e) vfail("weights that differ by %.3g are treated as different", d);
        Complex z(0, 0), one(1, 0);
        if (a.isApproximatelyZero() != a.isApproximatelyEqual(z)) vfail("zero test disagrees with comparison with zero");
        if (a.isApproximatelyOne() != a.isApproximatelyEqual(one)) vfail("one test disagrees with comparison with one");
        mEdge ea{a, mNode::terminal}, eb{b, mNode::terminal};
        vEdge va{a, vNode::terminal}, vb{b, vNode::terminal};
        if ((ea == eb) != e || (va == vb) != e) vfail("comparing edges on the same node disagrees with comparing their weights");
        if ((ea != eb) == (ea == eb)) vfail("!= is not the negation of ==");
        mNode n1; n1.v = 0;
        mEdge ec{a, &n1};
        if (ec == ea) vfail("edges to different nodes are equal");
    };
    auto ar = [&](Complex a, Complex b) {
        std::ostringstream o; o.precision(17); o << "a=" << a << " b=" << b; curcase = o.str();
        C x = cc(a), y = cc(b);
        auto ok = [&](const char *n, C got, C want, double s) { if (!(std::abs(got - want) <= 1e-13 * s)) vfail("%s is %s, expected %s", n, str(got).c_str(), str(want).c_str()); };
        double ax = std::abs(x), ay = std::abs(y);
        ok("sum", cc(a + b), x + y, ax + ay); ok("difference", cc(a - b), x - y, ax + ay); ok("product", cc(a * b), x * y, ax * ay);
        if (ay > 1e-100) ok("quotient", cc(a / b), x / y, ax / ay);
        Complex t = a; t += b; ok("+=", cc(t), x + y, ax + ay); t = a; t -= b; ok("-=", cc(t), x - y, ax + ay); t = a; t *= b; ok("*=", cc(t), x * y, ax * ay);
        if (ay > 1e-100) { t = a; t /= b; ok("/=", cc(t), x / y, ax / ay); }
        t = a; t *= t; ok("square in place", cc(t), x * x, ax * ax);
        if (ax > 1e-100) { t = a; t /= t; ok("self quotient in place", cc(t), 1, 1); }
        t = a; t += t; ok("double in place", cc(t), x + x, ax);
        ok("mag2", a.mag2(), std::norm(x), ax * ax); ok("norm2", norm2(a), std::norm(x), ax * ax); ok("norm", norm(a), ax, ax);
        if (a.isZero() != (a.r == 0 && a.i == 0) || a.isOne() != (a.r == 1 && a.i == 0) || (a == b) != (a.r == b.r && a.i == b.i)) vfail("exact comparison is wrong");
    };
    static const double mags[] = {0, 1e-300, 1e-20, 1e-17, 1e-16, 1e-15, 1e-14, 1e-13, 2e-13, 2.3e-13, 3e-13, 1e-12, 1e-11, 1e-10, 9e-10, 1.1e-9, 2e-9, 1e-8, 1e-6, 1e-3, 0.5, 1, 1e3};
    static const double bases[] = {0, 1, -1, 0.5, S2, -S2, 1e-3, 1e-12, 3, 100};
    for (double b1 : bases) for (double b2 : bases) for (double d1 : mags) for (double d2 : mags) for (int s = 0; s < 4; s++)
        chkpair(Complex(b1, b2), Complex(b1 + (s & 1 ? -d1 : d1), b2 + (s & 2 ? -d2 : d2)));
    while (more(2000)) {
        auto rd = [&]() { double m = mags[R.below(23)] + 1e-3 * R.below(3); return (R.chance(50) ? -m : m) * (0.5 + R.u()); };
        Complex a(rd(), rd()), b(rd(), rd());
        if (R.chance(60)) b = Complex(a.r + rd(), a.i + rd());
        chkpair(a, b);
        auto tiny = [](double x) { return x != 0 && std::abs(x) < 1e-60; }; // squares would underflow
        if (!tiny(a.r) && !tiny(a.i) && !tiny(b.r) && !tiny(b.i)) ar(a, b);
        C x = rw(), y = rw();
        ar(wc(x), wc(y));
    }
}

int main(int argc, char **argv) {
    std::string mode = argc > 1 ? argv[1] : "";
    uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
    budget = argc > 3 ? atof(argv[3]) : 5;
    R.s = seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
    for (int i = 0; i < 8; i++) R.next();
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF}) signal(s, onsig);
    mute();
    tstart = now();
    arm(150);
    std::map<std::string, void (*)()> md{{"mv", mode_mv}, {"mm", mode_mm}, {"vv", mode_vv}, {"node", mode_node}, {"kron", mode_kron}, {"gate1", mode_gate1},
        {"gate2", mode_gate2}, {"large", mode_large}, {"lib", mode_lib}, {"readout", mode_readout}, {"prob", mode_prob}, {"collapse", mode_collapse},
        {"gc", mode_gc}, {"memo", mode_memo}, {"store", mode_store}, {"complex", mode_complex}};
    if (!md.count(mode)) { fprintf(stderr, "unknown mode\n"); return 2; }
    big = mode == "mv" ? big_mv : mode == "mm" ? big_mm : mode == "vv" ? big_vv : mode == "kron" ? big_kron : mode == "prob" ? big_prob : mode == "collapse" ? big_collapse : mode == "readout" ? big_readout : mode == "gc" ? big_gc : nullptr;
    try { md[mode](); } catch (const std::exception &e) { vfail("exception %s", e.what()); }
    fprintf(stderr, "OK mode=%s seed=%llu cases=%ld large=%ld\n", mode.c_str(), (unsigned long long)seed, cases, nbig);
    _exit(0);
}
