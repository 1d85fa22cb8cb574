// Registers too large for dense operators: states follow a gate sequence, the reference applies each gate to a dense vector.
struct G { std::vector<int> tg; std::vector<Vec> g; std::vector<std::pair<int, int>> ctl; mEdge e; };
static Vec applyG(const G &x, const Vec &v) {
    Vec r(v.size());
    for (size_t c = 0; c < v.size(); c++) {
        if (v[c] == C(0)) continue;
        bool ok = true;
        for (auto &k : x.ctl) if ((int)((c >> k.first) & 1) != k.second) ok = false;
        if (!ok) { r[c] += v[c]; continue; }
        size_t ci = 0, base = c;
        for (size_t j = 0; j < x.tg.size(); j++) { ci |= ((c >> x.tg[j]) & 1) << j; base &= ~((size_t)1 << x.tg[j]); }
        for (size_t ri = 0; ri < x.g.size(); ri++) {
            if (x.g[ri][ci] == C(0)) continue;
            size_t row = base;
            for (size_t j = 0; j < x.tg.size(); j++) row |= ((ri >> j) & 1) << x.tg[j];
            r[row] += x.g[ri][ci] * v[c];
        }
    }
    return r;
}
static std::string gname(const G &x) { std::string s = strs(x.tg) + cs(x.ctl); for (auto &r : x.g) s += strs(r); return s; }
static GateMatrix ug() { // unitary, including small rotations (small weights)
    static const double sm[] = {1e-3, 3e-3, 0.02, 0.1, 1e-4, 3.14, 3.1415};
    double a = R.chance(40) ? sm[R.below(7)] : R.u() * 6.3;
    switch (R.below(9)) {
    case 0: return Xmat; case 1: case 2: return Hmat; case 3: return Zmat; case 4: return Tmat; case 5: return Ymat;
    case 6: return GateMatrix{std::cos(a / 2), -std::sin(a / 2), std::sin(a / 2), std::cos(a / 2)};
    case 7: return GateMatrix{std::cos(a / 2), C(0, -std::sin(a / 2)), C(0, -std::sin(a / 2)), std::cos(a / 2)};
    default: return GateMatrix{1, 0, 0, std::polar(1., a)};
    }
}
static G bigG(int n, bool unitary = true) {
    G x;
    int k = R.below(10);
    if (k < 7 || n < 2) {
        int t = R.chance(30) ? (R.chance(50) ? 0 : n - 1) : R.below(n);
        GateMatrix g = unitary ? ug() : rg();
        x.tg = {t}; x.g = asv(g);
        if (k >= 3) { int m = 1 + R.below(std::min(3, n)); for (int i = 0; i < m && n > 1; i++) { int c = R.below(n); bool dup = c == t; for (auto &y : x.ctl) if (y.first == c) dup = true; if (!dup) x.ctl.push_back({c, R.chance(70)}); } }
        x.e = x.ctl.empty() ? makeGate(n, g, t) : makeGate(n, g, t, mkc(x.ctl));
    } else {
        int a = R.below(n), b = R.below(n);
        while (b == a) b = R.below(n);
        double th = R.u() * 6;
        TwoQubitGateMatrix m = k == 7 ? rzx_matrix(th) : k == 8 ? rxx_matrix(th) : TwoQubitGateMatrix{{{1, 0, 0, 0}, {0, 0, 1, 0}, {0, 1, 0, 0}, {0, 0, 0, 1}}};
        x.tg = {b, a}; x.g.assign(4, Vec(4));
        for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) x.g[i][j] = m[i][j];
        x.e = makeTwoQubitGate(n, m, a, b);
    }
    return x;
}
struct Big { int n; vEdge e; Vec v; std::string h; };
static int bign() { return R.chance(60) ? 6 + R.below(5) : 11 + R.below(4); }
// a state reached by a random circuit; the entangling depth is limited so that diagrams stay small on large registers
static Big bigstate(int n, int depth, bool check, const char *what = "mv_multiply") {
    Big b{n, makeZeroState(n), Vec((size_t)1 << n), ""};
    b.v[0] = 1;
    if (R.chance(20)) { b.e = makeOneState(n); b.v[0] = 0; b.v.back() = 1; }
    if (R.chance(40)) for (int q = 0; q < n; q++) if (R.chance(70)) { G x; GateMatrix g = Hmat; x.tg = {q}; x.g = asv(g); x.e = makeGate(n, g, q); b.e = mv_multiply(x.e, b.e); b.v = applyG(x, b.v); }
    for (int i = 0; i < depth; i++) {
        G x = bigG(n);
        b.h += gname(x) + "; ";
        curcase = std::string(what) + " after a circuit on " + std::to_string(n) + " qubits (last gate last): " + (b.h.size() > 3000 ? b.h.substr(b.h.size() - 3000) : b.h);
        b.e = mv_multiply(x.e, b.e);
        b.v = applyG(x, b.v);
        if (check && (i == depth - 1 || R.chance(25))) same(what, den(b.e, n), b.v, 10);
    }
    same(what, den(b.e, n), b.v, 10);
    b.v = den(b.e, n); // rounding does not accumulate
    return b;
}
static void colM(const mEdge &e, int l, size_t c, size_t r, C w, Vec &out) { // one column of an operator
    w *= cc(e.w);
    if (w == C(0)) return;
    if (l == 0) { if (e.n != mNode::terminal) vfail("operator has a node below qubit 0"); out[r] += w; return; }
    size_t b = (c >> (l - 1)) & 1;
    if (e.n == mNode::terminal || e.n->v < l - 1) { colM(mEdge{{1, 0}, e.n}, l - 1, c, r | (b << (l - 1)), w, out); return; }
    if (e.n->v != l - 1) vfail("operator node on qubit %d where at most %d is allowed", e.n->v, l - 1);
    for (size_t i = 0; i < 2; i++) colM(e.n->children[2 * i + b], l - 1, c, r | (i << (l - 1)), w, out);
}
static Vec col(const mEdge &e, int n, size_t c) { Vec v((size_t)1 << n); colM(e, n, c, 0, 1, v); return v; }
struct BigOp { int n; mEdge e; std::vector<G> gs; }; // product of the gates, first applied first
static Vec applyAll(const std::vector<G> &gs, Vec v) { for (auto &g : gs) v = applyG(g, v); return v; }
static BigOp bigop(int n, int k) {
    BigOp o{n, {}, {}};
    for (int i = 0; i < k; i++) { G x = bigG(n); o.e = i ? mm_multiply(x.e, o.e) : x.e; o.gs.push_back(x); }
    return o;
}
static std::string oname(const BigOp &o) { std::string s; for (auto &g : o.gs) s += gname(g) + "; "; return s; }
static void cols(const char *what, const mEdge &e, int n, std::function<Vec(const Vec &)> f, int k = 4) {
    for (int i = 0; i < k; i++) {
        size_t c = R.next() % ((size_t)1 << n);
        Vec v((size_t)1 << n); v[c] = 1;
        same(what, col(e, n, c), f(v), 10);
    }
}
static void big_mv() {
    int n = bign();
    Big b = bigstate(n, n > 10 ? 10 : 18, true);
    wfV("mv_multiply", b.e, n);
    BigOp o = bigop(n, 2);
    curcase += " then the product " + oname(o);
    same("mv_multiply", den(mv_multiply(o.e, b.e), n), applyAll(o.gs, b.v), 10);
}
static void big_mm() {
    int n = bign();
    BigOp a = bigop(n, 1 + R.below(3)), b = bigop(n, 1 + R.below(3));
    curcase = "mm_multiply on " + std::to_string(n) + " qubits of " + oname(a) + " and (right) " + oname(b);
    mEdge p = mm_multiply(a.e, b.e);
    wfM("mm_multiply", p, n);
    cols("mm_multiply (column)", p, n, [&](const Vec &v) { return applyAll(a.gs, applyAll(b.gs, v)); });
    curcase = "mm_add on " + std::to_string(n) + " qubits of " + oname(a) + " and " + oname(b);
    C w = rw();
    mEdge s = mm_add(a.e, scaled(b.e, w));
    wfM("mm_add", s, n);
    cols("mm_add (column)", s, n, [&](const Vec &v) { Vec x = applyAll(a.gs, v), y = applyAll(b.gs, v); for (size_t i = 0; i < x.size(); i++) x[i] += w * y[i]; return x; });
}
static void big_vv() {
    int n = bign();
    Big a = bigstate(n, 6, false), b = bigstate(n, 6, false);
    static const double sc[] = {1, 1e-2, 1e-5, -1, 1e3};
    C w = R.chance(50) ? C(sc[R.below(5)]) : rw();
    if (R.chance(20)) { // differ in a few amplitudes only
        b.e = a.e; b.v = a.v;
        G x; GateMatrix g = Zmat; x.tg = {R.below(n)}; x.g = asv(g); x.e = makeGate(n, g, x.tg[0]); b.e = mv_multiply(x.e, b.e); b.v = applyG(x, b.v);
    }
    curcase = "vv_add on " + std::to_string(n) + " qubits of circuit states " + a.h + " and " + str(w) + " times " + b.h;
    vEdge r = vv_add(a.e, scaled(b.e, w));
    Vec x = a.v;
    for (size_t i = 0; i < x.size(); i++) x[i] += w * b.v[i];
    wfV("vv_add", r, n);
    same("vv_add", den(r, n), x, 2 * std::abs(w));
}
static void big_kron() {
    int n = 2 + R.below(7), m = 2 + R.below(6);
    Big a = bigstate(n, 6, false), b = bigstate(m, 6, false);
    curcase = "vv_kronecker of circuit states on " + std::to_string(n) + " and " + std::to_string(m) + " qubits: " + a.h + " and " + b.h;
    vEdge r = vv_kronecker(a.e, b.e);
    Vec w;
    for (auto &x : a.v) for (auto &y : b.v) w.push_back(x * y);
    wfV("vv_kronecker", r, n + m);
    same("vv_kronecker", den(r, n + m), w);
    // operators of full height: a gate that is not the identity on every qubit
    auto full = [&](int k) { BigOp o{k, {}, {}}; for (int q = 0; q < k; q++) { G x; GateMatrix g = R.chance(50) ? Hmat : R.chance(50) ? Tmat : Xmat; x.tg = {q}; x.g = asv(g); x.e = makeGate(k, g, q); o.e = q ? mm_multiply(x.e, o.e) : x.e; o.gs.push_back(x); }
        if (k > 1 && R.chance(60)) { G x = bigG(k); mEdge t = mm_multiply(x.e, o.e); if (fullheight(t, k)) { o.e = t; o.gs.push_back(x); } } return o; };
    BigOp p = full(n), q = full(m);
    if (!fullheight(p.e, n) || !fullheight(q.e, m)) return;
    curcase = "mm_kronecker on " + std::to_string(n) + "+" + std::to_string(m) + " qubits of " + oname(p) + " and " + oname(q);
    mEdge k = mm_kronecker(p.e, q.e);
    for (int t = 0; t < 4; t++) {
        size_t c = R.next() % ((size_t)1 << n), d = R.next() % ((size_t)1 << m);
        Vec u((size_t)1 << n), v((size_t)1 << m), w2;
        u[c] = 1; v[d] = 1;
        u = applyAll(p.gs, u); v = applyAll(q.gs, v);
        for (auto &x : u) for (auto &y : v) w2.push_back(x * y);
        same("mm_kronecker (column)", col(k, n + m, (c << m) | d), w2);
    }
}
// a generator whose next uniform draw is below eps (low) or above 1-eps
static std::mt19937_64 extreme(bool low, double eps) {
    static std::mt19937_64 g[2][8]; static bool ok[2][8];
    int k = std::min(7, std::max(0, (int)std::ceil(-std::log10(eps))));
    k = std::min(k, 6);
    if (!ok[low][k]) {
        std::mt19937_64 a(12345 + k), b(12345 + k);
        double lim = std::pow(10., -k);
        long i = 0, at = 0;
        for (;; i++) { std::uniform_real_distribution<double> d(0.0, 1.0L); double u = d(b); if (low ? u < lim : u > 1 - lim) { at = i; break; } }
        a.discard((unsigned long long)at);
        g[low][k] = a; ok[low][k] = true;
    }
    return g[low][k];
}
static double probof(const Vec &v, int q, int b) { double p = 0; for (size_t i = 0; i < v.size(); i++) if ((int)((i >> q) & 1) == b) p += std::norm(v[i]); return p; }
static void renorm(Big &b) { double k = std::sqrt(n2(b.v)); b.e = scaled(b.e, 1 / k); b.v = scaled(b.v, 1 / k); }
static Big bigrare(int n) { // a state with rare branches, at any depth
    Big b = bigstate(n, 4, false);
    for (int i = 0; i < 3; i++) {
        static const double sm[] = {1e-2, 1e-3, 3e-4, 2e-2, 0.1};
        double a = sm[R.below(5)];
        G x; GateMatrix g{std::cos(a), -std::sin(a), std::sin(a), std::cos(a)};
        x.tg = {R.below(n)}; x.g = asv(g); x.e = makeGate(n, g, x.tg[0]);
        b.h += gname(x) + "; ";
        b.e = mv_multiply(x.e, b.e); b.v = applyG(x, b.v);
        G y = bigG(n); b.h += gname(y) + "; "; b.e = mv_multiply(y.e, b.e); b.v = applyG(y, b.v);
    }
    b.v = den(b.e, n);
    renorm(b);
    return b;
}
static void big_prob() {
    int n = R.chance(70) ? 3 + R.below(5) : 8 + R.below(4);
    std::mt19937_64 mt(R.next());
    Big b = R.chance(50) ? bigrare(n) : bigstate(n, 10, false);
    renorm(b);
    auto look = [&](const char *when) {
        curcase = std::string(when) + " circuit state on " + std::to_string(n) + " qubits: " + b.h;
        auto p = probabilities(b.e);
        if (p.size() != b.v.size()) vfail("probabilities has %zu entries for %d qubits", p.size(), n);
        for (size_t i = 0; i < p.size(); i++) if (!(std::abs(p[i] - std::norm(b.v[i])) <= 1e-11)) vfail("probabilities[%zu] is %.15g, expected %.15g", i, p[i], std::norm(b.v[i]));
        for (int q = 0; q < n; q++) { double g = measureOne(b.e, q, mt), w = probof(b.v, q, 0); if (!(std::abs(g - w) <= 1e-11)) vfail("probability of 0 on qubit %d is %.15g, expected %.15g", q, g, w); }
        std::vector<long> one(n); std::map<std::string, long> cnt;
        int N = 400;
        for (int t = 0; t < N; t++) {
            std::mt19937_64 x = extreme(R.chance(50), 1e-3);
            vEdge e = b.e;
            std::string s = measureAll(e, false, t < 360 ? mt : x);
            if ((int)s.size() != n) vfail("measureAll returns \"%s\" for %d qubits", s.c_str(), n);
            size_t i = 0; for (char c : s) i = 2 * i + (c == '1');
            if (std::norm(b.v[i]) < 1e-22) vfail("measureAll returns \"%s\", which has probability zero", s.c_str());
            if (t < 360) for (int q = 0; q < n; q++) one[q] += (i >> q) & 1;
        }
        for (int q = 0; q < n; q++) { double p1 = probof(b.v, q, 1), e = 360 * p1, sd = std::sqrt(360 * p1 * (1 - p1)); if (std::abs((double)one[q] - e) > 7 * sd + 4) vfail("measureAll gives 1 on qubit %d %ld of 360 times, probability %.6g", q, one[q], p1); }
        // the outcome a given draw selects at the root: below the probability of 0 gives 0
        for (double lim : {1e-1, 1e-2, 1e-3, 1e-4, 1e-5}) for (int lo = 0; lo < 2; lo++) {
            double p0 = probof(b.v, n - 1, 0);
            vEdge e = b.e;
            std::mt19937_64 x = extreme(lo, lim);
            std::string s = measureAll(e, false, x);
            if (lo && p0 > 1.001 * lim && s[0] != '0') vfail("measureAll: top qubit 1 for a draw below %.3g, probability of 0 is %.15g", lim, p0);
            if (!lo && 1 - p0 > 1.001 * lim && s[0] != '1') vfail("measureAll: top qubit 0 for a draw above 1-%.3g, probability of 1 is %.15g", lim, 1 - p0);
        }
        same("reading probabilities changed the state", den(b.e, n), b.v);
    };
    look("probabilities of");
    if (R.chance(40)) {
        shrink();
        std::vector<vEdge> l{b.e};
        for (auto &p : PV) for (auto &s : p) l.push_back(s.e);
        bool force = R.chance(60);
        if (!force) set_gc_thr(1, 1 << 16);
        auto r = gc(l, force);
        b.e = r[0];
        size_t i = 1;
        for (auto &p : PV) for (auto &s : p) s.e = r[i++];
        okn.clear();
        look("probabilities after gc of");
        BigOp o = bigop(n, 1);
        b.e = mv_multiply(o.e, b.e); b.v = applyAll(o.gs, b.v); b.h += " gc; " + oname(o);
        look("probabilities after gc and a gate of");
    }
}
static void big_collapse() {
    int n = R.chance(70) ? 3 + R.below(5) : 8 + R.below(4);
    std::mt19937_64 mt(R.next());
    Big b = R.chance(70) ? bigrare(n) : bigstate(n, 10, false);
    renorm(b);
    for (int t = 0; t < 6; t++) {
        int q = R.below(n);
        static const double lims[] = {1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6};
        double lim = lims[R.below(6)];
        bool ex = R.chance(70), lo = R.chance(50);
        std::mt19937_64 x = extreme(lo, lim);
        double p0 = probof(b.v, q, 0);
        curcase = "measureOneCollapsing(qubit " + std::to_string(q) + ") of a circuit state on " + std::to_string(n) + " qubits: " + b.h;
        vEdge e = b.e;
        char r = measureOneCollapsing(e, q, ex ? x : mt);
        if (r != '0' && r != '1') vfail("measureOneCollapsing returns character %d", (int)r);
        if (ex && lo && p0 > 1.001 * lim && r != '0') vfail("outcome 1 for a draw below %.3g, probability of 0 is %.15g", lim, p0);
        if (ex && !lo && 1 - p0 > 1.001 * lim && r != '1') vfail("outcome 0 for a draw above 1-%.3g, probability of 1 is %.15g", lim, 1 - p0);
        double pb = r == '0' ? p0 : probof(b.v, q, 1);
        if (pb < 1e-20) vfail("measureOneCollapsing returns an outcome of probability zero");
        if (pb < 1e-9) continue;
        Vec w = b.v;
        for (size_t i = 0; i < w.size(); i++) w[i] = (int)((i >> q) & 1) == r - '0' ? w[i] / std::sqrt(pb) : 0;
        wfV("measureOneCollapsing", e, n);
        same("state after measureOneCollapsing", den(e, n), w, 1e-2 / pb < 1e3 ? 1e2 : 1e4);
        same("measureOneCollapsing changed another state", den(b.e, n), b.v);
        std::mt19937_64 y = extreme(R.chance(50), 1e-6);
        vEdge e2 = e;
        if (measureOneCollapsing(e2, q, y) != r) vfail("measuring again gives a different outcome");
        if (R.chance(30)) { b.e = e; b.v = w; b.h += " measured q" + std::to_string(q) + "=" + r + "; "; }
    }
    curcase = "measureAll(collapse) of a circuit state on " + std::to_string(n) + " qubits: " + b.h;
    vEdge e = b.e;
    std::mt19937_64 x = extreme(R.chance(50), 1e-4);
    std::string r = measureAll(e, true, R.chance(50) ? x : mt);
    if ((int)r.size() != n) vfail("measureAll returns \"%s\" for %d qubits", r.c_str(), n);
    size_t i = 0; for (char c : r) i = 2 * i + (c == '1');
    if (std::norm(b.v[i]) < 1e-22) vfail("measureAll returns \"%s\", which has probability zero", r.c_str());
    Vec w(b.v.size()), g = den(e, n);
    w[i] = 1;
    for (auto &z : g) z = std::abs(z);
    same("state after measureAll with collapse (magnitudes)", g, w);
    same("measureAll changed another state", den(b.e, n), b.v);
}
static void checkbasis(int q, int b, const vEdge &e) {
    curcase = std::string(b ? "makeOneState(" : "makeZeroState(") + std::to_string(q) + ") later in the run";
    C w = cc(e.w);
    vNode *p = e.n;
    for (int l = q - 1; l >= 0; l--) {
        if (p == vNode::terminal || p->v != l) vfail("initial state has no node on qubit %d", l);
        if (!p->children[1 - b].w.isApproximatelyZero()) vfail("initial state has amplitude off its basis state");
        w *= cc(p->children[b].w);
        p = p->children[b].n;
    }
    if (p != vNode::terminal || std::abs(w - C(1)) > 1e-12) vfail("amplitude of the basis state is %s", str(w).c_str());
}
static void big_readout() {
    if (R.chance(40)) {
        if (R.chance(50)) {
            bool force = R.chance(50);
            if (!force) set_gc_thr(1, 1 << 16);
            shrink(); gcall(force);
            bigstate(4 + R.below(5), 12, false); // reuse the freed nodes
        }
        for (int t = 0; t < 5; t++) { int q = 1 + R.below(30); checkbasis(q, 0, makeZeroState(q)); checkbasis(q, 1, makeOneState(q)); }
        return;
    }
    int n = 5 + R.below(7);
    Big b = bigstate(n, 12, false);
    size_t d = 0;
    curcase = "getVector of a circuit state on " + std::to_string(n) + " qubits: " + b.h;
    Complex *g = b.e.getVector(&d);
    Vec got; for (size_t i = 0; i < d; i++) got.push_back(cc(g[i]));
    delete[] g;
    same("getVector", got, b.v);
    int m = 5 + R.below(4);
    BigOp o = bigop(m, 1 + R.below(3));
    curcase = "getMatrix on " + std::to_string(m) + " qubits of " + oname(o);
    Complex **x = o.e.getMatrix(&d, m);
    if (d != (size_t)1 << m) vfail("getMatrix dimension %zu", d);
    for (size_t c = 0; c < d; c++) if (R.chance(30)) {
        Vec v(d), k; v[c] = 1;
        for (size_t i = 0; i < d; i++) k.push_back(cc(x[i][c]));
        same("getMatrix (column)", k, applyAll(o.gs, v));
    }
    for (size_t i = 0; i < d; i++) delete[] x[i];
    delete[] x;
}
// garbage collection while probabilities and memo entries of earlier states are around
static void big_gc() {
    int n = 3 + R.below(7);
    std::mt19937_64 mt(R.next());
    std::vector<Big> l;
    int k = 1 + R.below(4);
    for (int i = 0; i < k; i++) { l.push_back(bigstate(n, 8, false)); renorm(l.back()); }
    for (auto &b : l) { curcase = "probabilities before gc of " + b.h; probabilities(b.e); measureOne(b.e, R.below(n), mt); vEdge e = b.e; measureAll(e, false, mt); }
    for (auto &p : PV) p.clear();
    int rounds = 1 + R.below(3);
    for (int r = 0; r < rounds; r++) {
        if (l.size() > 1 && R.chance(50)) l.erase(l.begin() + R.below((int)l.size()));
        for (auto &b : l) if (R.chance(50)) { BigOp o = bigop(n, 1); b.e = mv_multiply(o.e, b.e); b.v = applyAll(o.gs, b.v); b.h += oname(o); }
        std::vector<vEdge> es; for (auto &b : l) es.push_back(b.e);
        bool force = R.chance(60);
        if (!force) set_gc_thr(1 + R.below(300), 1 << 16);
        auto out = gc(es, force);
        okn.clear();
        if (out.size() != es.size()) vfail("gc returns %zu states for %zu", out.size(), es.size());
        for (size_t i = 0; i < l.size(); i++) { l[i].e = out[i]; l[i].h += " gc; "; }
        for (auto &b : l) {
            curcase = "after gc (" + std::to_string(l.size()) + " states), circuit state on " + std::to_string(n) + " qubits: " + b.h;
            wfV("after gc", b.e, n);
            same("after gc", den(b.e, n), b.v);
            if (R.chance(60)) {
                BigOp o = bigop(n, 2);
                b.e = mv_multiply(o.e, b.e); b.v = applyAll(o.gs, b.v); b.h += oname(o);
                same("mv_multiply after gc", den(b.e, n), b.v, 10);
                vEdge t = vv_add(b.e, b.e);
                same("vv_add after gc", den(t, n), scaled(b.v, 2), 10);
            }
            auto p = probabilities(b.e);
            for (size_t i = 0; i < p.size(); i++) if (!(std::abs(p[i] - std::norm(b.v[i])) <= 1e-9)) vfail("probabilities[%zu] is %.15g after gc, expected %.15g", i, p[i], std::norm(b.v[i]));
            for (int q = 0; q < n; q++) { double g = measureOne(b.e, q, mt), w = probof(b.v, q, 0); if (!(std::abs(g - w) <= 1e-9)) vfail("after gc the probability of 0 on qubit %d is %.15g, expected %.15g", q, g, w); }
            vEdge e = b.e; int q = R.below(n);
            char c = measureOneCollapsing(e, q, mt);
            double pb = probof(b.v, q, c - '0');
            if (pb < 1e-18) vfail("after gc measureOneCollapsing returns an outcome of probability zero");
            if (pb > 1e-6) { Vec w = b.v; for (size_t i = 0; i < w.size(); i++) w[i] = (int)((i >> q) & 1) == c - '0' ? w[i] / std::sqrt(pb) : 0; same("state after gc and measureOneCollapsing", den(e, n), w, 1e3); }
        }
    }
    if (R.chance(50)) {
        std::vector<BigOp> os; std::vector<mEdge> es;
        for (int i = 0; i < 3; i++) { os.push_back(bigop(n, 2)); es.push_back(os.back().e); }
        for (auto &p : PM) p.clear();
        auto out = gc_mat(es, true);
        okn.clear();
        for (int i = 0; i < 3; i++) os[i].e = out[i];
        for (auto &o : os) { curcase = "after gc_mat, product on " + std::to_string(n) + " qubits: " + oname(o); wfM("after gc_mat", o.e, n); cols("after gc_mat (column)", o.e, n, [&](const Vec &v) { return applyAll(o.gs, v); }, 3); }
        BigOp f = bigop(n, 1);
        curcase = "mm_multiply after gc_mat " + oname(os[0]) + " | " + oname(f);
        cols("mm_multiply after gc_mat", mm_multiply(f.e, os[0].e), n, [&](const Vec &v) { return applyAll(f.gs, applyAll(os[0].gs, v)); }, 3);
        same("mv_multiply after gc_mat", den(mv_multiply(os[1].e, l[0].e), n), applyAll(os[1].gs, l[0].v), 10);
    }
    for (int i = 0; i < 60; i++) grow();
}
