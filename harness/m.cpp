// Bounded stand-in for the distributed form: every process runs the same sequence of cases (same seed) on its slice and
// compares with the dense single-process semantics.
#include "common.hpp"
#include <map>
namespace bmpi = boost::mpi;

static Mat mat2(const GateMatrix &g) { Mat m(1); for (int i = 0; i < 4; i++) m.a[i] = g[i]; return m; }
struct Op { mEdge e; Mat m; int top; std::string s; };
static mEdge scaledE(mEdge e, C w) { e.w = wc(cc(e.w) * w); return e; }

// an operator on qubits 0..n-1 out of parts; identity levels are not stored
static mEdge rop(int n, int depth) {
    if (n == 0 || depth == 0) { C w = rw(); return mEdge{wc(w), mNode::terminal}; }
    if (R.chance(25)) return rop(n - 1, depth);
    std::array<mEdge, 4> c;
    int k = R.below(5);
    for (auto &x : c) x = mEdge::zero;
    if (k == 0) { c[0] = rop(n - 1, depth - 1); c[3] = rop(n - 1, depth - 1); }
    else if (k == 1) { c[1] = rop(n - 1, depth - 1); c[2] = rop(n - 1, depth - 1); }
    else if (k == 2) { c[0] = rop(n - 1, depth - 1); C w = rw(); c[3] = c[0]; c[R.chance(50) ? 1 : 2] = scaledE(c[0], w); }
    else for (auto &x : c) x = R.chance(30) ? mEdge::zero : rop(n - 1, depth - 1);
    return makeMEdge(n - 1, c);
}
static int topof(const mEdge &e) { return cc(e.w) == 0. ? -1 : (int)(e.n == mNode::terminal ? -1 : e.n->v); }
static GateMatrix rg() {
    switch (R.below(6)) {
    case 0: return Hmat;
    case 1: return Xmat;
    case 2: return Tmat;
    case 3: return rx(R.u() * 6);
    case 4: return u3(R.u() * 6, R.u() * 6, R.u() * 6);
    default: return ry(R.u() * 6);
    }
}
static Op pick(int n) {
    std::ostringstream o;
    mEdge e;
    switch (R.below(8)) {
    case 0: case 1: { int t = R.below(n); o << "makeGate on " << t; e = makeGate(n, rg(), t); break; }
    case 2: {
        if (n < 2) { e = makeGate(n, rg(), 0); o << "makeGate on 0"; break; }
        int t = R.below(n), c = R.below(n);
        while (c == t) c = R.below(n);
        o << "makeGate on " << t << " control " << c;
        e = makeGate(n, rg(), t, Controls{Control{(Qubit)c}});
        break;
    }
    case 3: {
        if (n < 2) { e = makeGate(n, rg(), 0); o << "makeGate on 0"; break; }
        int t = R.below(n), c = R.below(n);
        while (c == t) c = R.below(n);
        o << "SWAP " << t << "," << c;
        e = SWAP(n, t, c);
        break;
    }
    case 4: { int a = R.below(n), b = R.below(n); o << "product of gates on " << a << ", " << b; e = mm_multiply(makeGate(n, rg(), a), makeGate(n, rg(), b)); break; }
    case 5: {
        GateMatrix p{cf_zero, cf_zero, cf_zero, cf_zero};
        int t = R.below(n), b = R.below(2);
        p[b ? 3 : 0] = cf_one;
        o << "projector on " << t;
        e = makeGate(n, p, t);
        break;
    }
    default: o << "random operator"; e = rop(n, 1 + R.below(4));
    }
    Op r{e, den(e, n), topof(e), ""};
    o << " (root on qubit " << r.top << ")";
    r.s = o.str();
    return r;
}
static vEdge fromVec(const Vec &v, size_t lo, int n) {
    if (n == 0) return v[lo] == 0. ? vEdge::zero : vEdge{wc(v[lo]), vNode::terminal};
    vEdge a = fromVec(v, lo, n - 1), b = fromVec(v, lo + ((size_t)1 << (n - 1)), n - 1);
    bool z = true;
    for (size_t i = 0; i < (size_t)1 << n; i++) z = z && v[lo + i] == 0.;
    return z ? vEdge::zero : makeVEdge(n - 1, {a, b});
}
static Vec rvec(int n, bool normalise) {
    Vec v((size_t)1 << n);
    int k = R.below(4);
    for (;;) {
        double s = 0;
        for (auto &x : v) { x = k == 0 ? rw0() : k == 1 ? (R.chance(50) ? C(0) : C(1)) : k == 2 ? C(R.u() - .5, R.u() - .5) : C(0); }
        if (k == 3) v[R.below((int)v.size())] = 1;
        if (R.chance(30)) { size_t h = v.size() / 2, o = R.chance(50) ? h : 0; for (size_t i = 0; i < h; i++) v[o + i] = 0; }
        if (R.chance(20)) { size_t h = v.size() / 2; for (size_t i = 0; i < h; i++) v[h + i] = v[i]; }
        for (auto &x : v) s += std::norm(x);
        if (s == 0) continue;
        if (normalise) for (auto &x : v) x /= std::sqrt(s);
        return v;
    }
}
static Vec slice(const Vec &v, int rank, int l) { return Vec(v.begin() + ((size_t)rank << l), v.begin() + ((size_t)(rank + 1) << l)); }
static std::string bits(size_t i, int n) { std::string s; for (int q = n - 1; q >= 0; q--) s += (i >> q) & 1 ? '1' : '0'; return s; }
static double n2(const Vec &v) { double s = 0; for (auto &x : v) s += std::norm(x); return s; }
static double chi2(const std::map<std::string, long> &cnt, const std::map<std::string, double> &pr, long N) {
    double c = 0;
    for (auto &p : pr) { double e = p.second * N; auto it = cnt.find(p.first); double o = it == cnt.end() ? 0 : (double)it->second; if (e > 1e-9) c += (o - e) * (o - e) / e; }
    return c;
}

int main(int argc, char **argv) {
    bmpi::environment env(argc, argv);
    bmpi::communicator world;
    int seed = atoi(argv[1]);
    long want = atol(argv[2]);
    budget = atof(argv[3]);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGPROF}) signal(s, onsig);
    mute();
    int rank = world.rank(), W = world.size(), g = (int)std::lround(std::log2(W));
    R.s = 0x9E3779B97F4A7C15ULL * (uint64_t)(seed + 1);
    for (int i = 0; i < 20; i++) R.next();
    tstart = now();
    mEdge::zero; // keep the statics
    std::mt19937_64 mt(1000 + rank + seed);
    std::vector<std::pair<vEdge, Vec>> held;
    int heldn = 0;
    long n_mul = 0, n_blk = 0, n_meas = 0, n_seq = 0;
    for (long it = 0;; it++) {
        // every process has to stop at the same case
        int stop = it >= want || (it >= 40 && now() - tstart > budget);
        bmpi::broadcast(world, stop, 0);
        if (stop) break;
        arm(100);
        cases++;
        int n = g + 1 + R.below(3), l = n - g;
        std::ostringstream o;
        o << W << " processes, " << n << " qubits, process " << rank << ": ";
        int k = R.below(10);
        if (k < 2) { // blocks
            Op a = pick(n);
            int r = R.below(W), c = R.below(W);
            o << "getMPIGate(" << a.s << ", " << r << ", " << c << ")";
            curcase = o.str();
            mEdge b = getMPIGate(a.e, r, c, W, n);
            Mat m(l);
            for (size_t i = 0; i < m.d(); i++) for (size_t j = 0; j < m.d(); j++) m(i, j) = a.m(((size_t)r << l) + i, ((size_t)c << l) + j);
            wfM("getMPIGate", b, l);
            same("getMPIGate", den(b, l), m);
            same("getMPIGate changed its operand", den(a.e, n), a.m);
            if (a.top == n - 1) { mEdge b2 = getMPIGate(a.e, r, c, W); same("getMPIGate without a size", den(b2, l), m); }
            n_blk++;
        } else if (k < 6) { // products, also in sequence
            Vec v = rvec(n, false);
            int len = 1 + R.below(4);
            vEdge s = fromVec(v, (size_t)rank << l, l);
            o << "product:";
            for (int t = 0; t < len; t++) {
                Op a = pick(n);
                int lo = std::max(a.top, 0), big = lo + R.below(n - lo);
                bool bc = R.chance(40);
                o << " " << (bc ? "broadcast " : "ring ") << a.s << " largest " << big;
                curcase = o.str();
                Vec w = slice(v, rank, l);
                vEdge x = bc ? mv_multiply_MPI_bcast3(a.e, s, world, n, big) : mv_multiply_MPI(a.e, s, world, n, big);
                same("the state given to the distributed product changed", den(s, l), w);
                v = mulV(a.m, v);
                wfV("distributed product", x, l);
                same("distributed product", den(x, l), slice(v, rank, l), nrm(v));
                same("distributed product changed the operator", den(a.e, n), a.m);
                s = x;
                double m = nrm(v);
                if (m < 1e-4 || !std::isfinite(m)) break; // cancellation: only rounding is left
                if (m > 1e3 || m < 1e-2) { // rescale, the same on every process
                    for (auto &y : v) y /= m;
                    s.w = wc(cc(s.w) / m);
                }
                n_mul++;
            }
        } else if (k == 6) { // initial states
            o << "initial states";
            curcase = o.str();
            Vec z((size_t)1 << n), one((size_t)1 << n);
            z[0] = 1;
            one[one.size() - 1] = 1;
            vEdge a = makeZeroStateMPI(n, world), b = makeOneStateMPI(n, world);
            wfV("makeZeroStateMPI", a, l);
            wfV("makeOneStateMPI", b, l);
            same("makeZeroStateMPI", den(a, l), slice(z, rank, l));
            same("makeOneStateMPI", den(b, l), slice(one, rank, l));
        } else { // read-out
            Vec v = rvec(n, true);
            vEdge s = fromVec(v, (size_t)rank << l, l);
            if (R.chance(50)) { // via a product, as a run does
                int t = R.below(n);
                mEdge h = makeGate(n, Hmat, t);
                v = mulV(den(h, n), v);
                s = mv_multiply_MPI(h, s, world, n, t);
            }
            Vec w = slice(v, rank, l);
            std::ostringstream sv;
            for (size_t i = 0; i < v.size(); i++) if (v[i] != 0.) sv << " " << bits(i, n) << ":" << str(v[i]);
            o << "state" << sv.str() << " ";
            int q = R.below(n), kk = R.below(4);
            double p0 = 0;
            for (size_t i = 0; i < v.size(); i++) if (!((i >> q) & 1)) p0 += std::norm(v[i]);
            if (kk == 0) {
                o << "probabilitiesMPI";
                curcase = o.str();
                auto p = probabilitiesMPI(world, s);
                if (p.size() != v.size()) vfail("probabilitiesMPI: %zu probabilities for %zu basis states", p.size(), v.size());
                for (size_t i = 0; i < p.size(); i++) if (!(std::abs(p[i] - std::norm(v[i])) < 1e-9)) vfail("probabilitiesMPI: basis state %s has probability %.12g, expected %.12g", bits(i, n).c_str(), p[i], std::norm(v[i]));
            } else if (kk == 1) {
                o << "measureOneMPI qubit " << q;
                curcase = o.str();
                double p = measureOneMPI(world, s, q, n, mt);
                if (!(std::abs(p - p0) < 1e-9)) vfail("measureOneMPI: probability of 0 for qubit %d is %.12g, expected %.12g", q, p, p0);
            } else if (kk == 2) {
                long N = R.chance(10) ? 600 : 6, c0 = 0;
                bool keep = R.chance(10);
                o << "measureOneCollapsingMPI qubit " << q << (keep ? " without collapse" : "");
                curcase = o.str();
                for (long i = 0; i < N; i++) {
                    vEdge x = s;
                    char r = keep ? measureOneCollapsingMPI(world, x, q, n, mt, false) : measureOneCollapsingMPI(world, x, q, n, mt, true);
                    std::vector<char> all;
                    bmpi::all_gather(world, r, all);
                    for (char y : all) if (y != r) vfail("measureOneCollapsingMPI: the processes report different outcomes");
                    if (r != '0' && r != '1') vfail("measureOneCollapsingMPI: outcome %d", r);
                    double pr = r == '0' ? p0 : 1 - p0;
                    if (pr < 1e-12) vfail("measureOneCollapsingMPI: outcome %c of probability %.3g", r, pr);
                    c0 += r == '0';
                    Vec e = v;
                    if (!keep) for (size_t y = 0; y < e.size(); y++) e[y] = (int)((y >> q) & 1) == r - '0' ? e[y] / std::sqrt(pr) : C(0);
                    wfV("measureOneCollapsingMPI", x, l);
                    same("measureOneCollapsingMPI: state after the measurement", den(x, l), slice(e, rank, l), 1 / std::sqrt(pr));
                    if (i == 0) same("measureOneCollapsingMPI changed the state it was given", den(s, l), w);
                }
                if (N > 100 && std::abs(c0 - N * p0) > 6.5 * std::sqrt(N * p0 * (1 - p0)) + 1) vfail("measureOneCollapsingMPI: outcome 0 appeared %ld times in %ld, probability %.6g", c0, N, p0);
            } else {
                long N = R.chance(15) ? 1500 : 10;
                o << "measureAllMPI";
                curcase = o.str();
                std::map<std::string, long> cnt;
                std::map<std::string, double> pr;
                for (size_t i = 0; i < v.size(); i++) if (std::norm(v[i]) > 1e-14) pr[bits(i, n)] = std::norm(v[i]);
                for (long i = 0; i < N; i++) {
                    std::string r = measureAllMPI(world, s, false, mt);
                    if (i < 3) {
                        std::vector<std::string> all;
                        bmpi::all_gather(world, r, all);
                        for (auto &y : all) if (y != r) vfail("measureAllMPI: the processes report different outcomes");
                    }
                    if (!pr.count(r)) vfail("measureAllMPI: outcome %s is impossible", r.c_str());
                    cnt[r]++;
                }
                same("measureAllMPI changed the state", den(s, l), w);
                if (N > 100) {
                    double df = (double)pr.size() - 1, x = chi2(cnt, pr, N);
                    // small expected counts: bound by a generous tail
                    double mn = 1;
                    for (auto &y : pr) mn = std::min(mn, y.second);
                    if (mn * N > 4 && x > df + 9 * std::sqrt(2 * df + 1) + 40) vfail("measureAllMPI: frequencies do not fit the state (chi2 %.3g with %.0f degrees of freedom)", x, df);
                }
            }
            n_meas++;
        }
    }
    world.barrier();
    if (rank == 0) fprintf(stderr, "cases=%ld blocks=%ld products=%ld readouts=%ld\n", cases, n_blk, n_mul, n_meas);
    return 0;
}
