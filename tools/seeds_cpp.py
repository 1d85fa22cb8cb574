from seedlib import seed
D = "src/dd.cpp"
HEAD = '#include "dd.cpp"\n#include <cstdio>\nstatic double df(std::complex<double> a, std::complex<double> b){return std::abs(a-b);}\n#define BAD(...) do{fprintf(stderr,__VA_ARGS__);fputc(10,stderr);return 1;}while(0)\n'

seed("c01-shared-halves", "C01", [(D, """    std::array<vEdge, 2> edges;

    for (auto i = 0; i < 2; i++) {
#ifdef isMT
        std::vector<boost::fibers::future<vEdge>> products;
""", """    std::array<vEdge, 2> edges;

#ifndef isMT
    // The operator does not touch this qubit and both halves of the state
    // share their node: apply it only once.
    if (lv < current_var && current_var >= 12 &&
        rnode->getEdge(0).n == rnode->getEdge(1).n && !rnode->getEdge(0).isTerminal()) {
        vEdge half = mv_multiply2(lcopy, {{1.0, 0.0}, rnode->getEdge(0).n}, current_var - 1);
        vEdge other = half;
        other.w = half.w * rnode->getEdge(1).w;
        result = makeVEdge(current_var, {half, other});
        _mCache.set(lhs.n, rhs.n, result);
        result.w = result.w * lhs.w * rhs.w;
        if (result.w.isApproximatelyZero()) return vEdge::zero;
        return result;
    }
#endif

    for (auto i = 0; i < 2; i++) {
#ifdef isMT
        std::vector<boost::fibers::future<vEdge>> products;
""")], "a register of at least 13 qubits whose top qubit is in a product state with the larger amplitude on |1>, then a gate on a lower qubit",
"the amplitudes of the |0> half are wrong: its weight is taken to be one", cpp=HEAD + """
int main(){
  int n=14; vEdge s=makeZeroState(n);
  for(int i=0;i<n;i++) s=mv_multiply(makeGate(n,ry(2.0+0.1*i),i),s);
  s=mv_multiply(makeGate(n,rx(0.3),0),s);
  size_t d; auto v=s.getVector(&d);
  double nn=0; for(size_t i=0;i<d;i++) nn+=v[i].mag2();
  if(std::abs(nn-1)>1e-9) BAD("norm %.12g",nn);
  std::complex<double> w=1; for(int i=1;i<n;i++) w*=std::cos((2.0+0.1*i)/2);
  std::complex<double> q0=std::cos(1.)*std::cos(.15)-std::complex<double>(0,1)*std::sin(.15)*std::sin(1.);
  if(df({v[0].r,v[0].i},w*q0)>1e-9) BAD("amplitude 0: %g %g",v[0].r,v[0].i);
  return 0; }
""")

seed("c02-key-order", "C02", [(D, """    mEdge result;
    result = _mCache.find(lhs.n, rhs.n);
    if (result.n != nullptr) {""", """    mEdge result;
    // the taller operand selects the row of the memo table
    const mNode *kl = lhs.n, *kr = rhs.n;
    if (lhs.getVar() < rhs.getVar()) std::swap(kl, kr);
    result = _mCache.find(kl, kr);
    if (result.n != nullptr) {"""),
 (D, """    result = makeMEdge(current_var, edges);
    _mCache.set(lhs.n, rhs.n, result);

    result.w = result.w * lhs.w * rhs.w;
    if (result.w.isApproximatelyZero()) return mEdge::zero;""", """    result = makeMEdge(current_var, edges);
    _mCache.set(kl, kr, result);

    result.w = result.w * lhs.w * rhs.w;
    if (result.w.isApproximatelyZero()) return mEdge::zero;""")],
 "the product A*B of a tall and a low operator that do not commute, followed by B*A in the same process", "B*A returns the memoised A*B", cpp=HEAD + """
int main(){
  int n=3; mEdge a=makeGate(n,Xmat,2,Controls{Control{0,Control::Type::pos}}), b=makeGate(n,Xmat,0);
  mEdge ab=mm_multiply(a,b), ba=mm_multiply(b,a);
  auto A=a.getEigenMatrix(n),B=b.getEigenMatrix(n);
  if((ab.getEigenMatrix(n)-A*B).norm()>1e-9) BAD("AB");
  if((ba.getEigenMatrix(n)-B*A).norm()>1e-9) BAD("BA");
  return 0; }
""")

seed("c03-small-operand", "C03", [(D, """vEdge vv_add2(const vEdge &lhs, const vEdge &rhs, int32_t current_var) {
    if (lhs.w.isApproximatelyZero()) {
        if (rhs.w.isApproximatelyZero()) {
            return vEdge::zero;
        }
        return rhs;
    } else if (rhs.w.isApproximatelyZero()) {
        return lhs;
    }
""", """vEdge vv_add2(const vEdge &lhs, const vEdge &rhs, int32_t current_var) {
    // one multiplication less per test than comparing both components
    const bool lhsZero = lhs.w.mag2() <= Complex::TOLERANCE;
    const bool rhsZero = rhs.w.mag2() <= Complex::TOLERANCE;
    if (lhsZero) {
        if (rhsZero) {
            return vEdge::zero;
        }
        return rhs;
    } else if (rhsZero) {
        return lhs;
    }
""")], "adding a state whose weight is around 1e-7", "operands with a weight below 4.8e-7 (instead of 2.3e-13) are dropped", cpp=HEAD + """
int main(){
  vEdge a=makeZeroState(3), b=makeOneState(3); b.w=Complex(4e-7,0);
  vEdge c=vv_add(a,b); size_t d; auto v=c.getVector(&d);
  if(std::abs(v[7].r-4e-7)>1e-12||std::abs(v[0].r-1)>1e-12) BAD("%g",v[7].r);
  return 0; }
""")

seed("c04-zero-keeps-node", "C04", [(D, """        if (r.isApproximatelyZero()) {
            e.n->children[i] = mEdge::zero;
        } else {""", """        if (r.isApproximatelyZero()) {
            e.n->children[i].w = {0.0, 0.0};
        } else {""")], "building an operator node from a part that has weight zero but still refers to a node",
 "zero parts are not the unique zero edge, so equal operators get different nodes", cpp=HEAD + """
int main(){
  mEdge x=makeGate(1,Xmat,0), z=x; z.w=Complex(0,0);
  mEdge h=makeGate(1,Hmat,0);
  mEdge a=makeMEdge(1,{h,mEdge::zero,mEdge::zero,x}), b=makeMEdge(1,{h,z,mEdge::zero,x});
  if(a.n!=b.n) BAD("same operator, different nodes");
  return 0; }
""")

seed("c05-add-partial-compare", "C05", [("include/cache.hpp", "if(e.valid && e.lhs.v == l && e.rhs.v ==r){", "if(e.valid && e.lhs.v == l && e.rhs.v.n ==r.n){")],
 "two additions with the same left state and a right state that differs in its weight only, whose hash values fall into the same bucket",
 "the memoised sum of the other pair is returned", cpp=HEAD + """
int main(){
  int n=2; vEdge a=makeZeroState(n), b=mv_multiply(makeGate(n,Hmat,0),makeOneState(n));
  for(int round=0;round<2;round++) for(int i=1;i<6000;i++){ double w=1+i/4096.; vEdge c=b; c.w=b.w*Complex(w,0);
    vEdge s=vv_add(a,c); size_t d; auto v=s.getVector(&d); double e=std::sqrt(.5)*w;
    if(std::abs(std::abs(v[2].r)-e)>1e-9||std::abs(v[0].r-1)>1e-9) BAD("i=%d got %g expected %g",i,v[2].r,e); delete[] v; }
  return 0; }
""")

seed("c06-move-to-front", "C06", [("include/table.hpp", """                assert(current->v == node->v);

                returnNode(node);
""", """                assert(current->v == node->v);

                returnNode(node);
#ifndef isMT
                // move the node to the front of its chain
                T *head = _tables[v]._table[key].node;
                if (current != head) {
                    current->next->previous = current->previous;
                    current->next = nullptr;
                    current->previous = head;
                    head->next = current;
                    _tables[v]._table[key].node = current;
                }
#endif
""")], "a collision chain of at least four nodes looked up in an order that moves neighbouring nodes to the front",
 "a node whose neighbour was moved keeps a stale forward link; a later move drops nodes from the chain, so a live node is stored a second time", cpp=HEAD + """
#include <vector>
int main(){
  // about four nodes per bucket
  const int N=2000000; std::vector<vNode*> p(N);
  auto mk=[&](int i){ return makeVEdge(0,{vEdge{{1.0,0.0},vNode::terminal},vEdge{{(1+i)/(double)(2*N),0.25},vNode::terminal}}).n; };
  for(int i=0;i<N;i++) p[i]=mk(i);
  unsigned long s=12345; 
  for(int r=0;r<3*N;r++){ s=s*6364136223846793005ULL+1442695040888963407ULL; int i=(s>>33)%N; if(mk(i)!=p[i]) BAD("node %d stored twice",i); }
  for(int i=0;i<N;i++) if(mk(i)!=p[i]) BAD("node %d stored twice",i);
  return 0; }
""")

seed("c07-negctrl-above", "C07", [(D, """                e = makeMEdge(z,
                              {makeIdent(z - 1), mEdge::zero, mEdge::zero, e});
            ++it;
        } else {
            e = makeMEdge(z, {e, mEdge::zero, mEdge::zero, e});
        }
    }

    return e;
}

mEdge makeTwoQubitGate(QubitCount q, TwoQubitGateMatrix g, Qubit target0,
                       Qubit target1) {""", """                e = makeMEdge(z, {makeIdent(z - 1), mEdge::zero, mEdge::zero,
                                  e}),
                ++it;
        } else {
            e = makeMEdge(z, {e, mEdge::zero, mEdge::zero, e});
        }
    }

    return e;
}

mEdge makeTwoQubitGate(QubitCount q, TwoQubitGateMatrix g, Qubit target0,
                       Qubit target1) {""")], "a negative control above the target together with another control above it",
 "controls above the negative one are ignored", cpp=HEAD + """
int main(){
  int n=4; mEdge e=makeGate(n,Xmat,0,Controls{Control{1,Control::Type::neg},Control{3,Control::Type::pos}});
  auto m=e.getEigenMatrix(n);
  for(int c=0;c<16;c++){ int r=(!(c>>1&1)&&(c>>3&1))?c^1:c; for(int i=0;i<16;i++) if(df(m(i,c),i==r?1.:0.)>1e-9) BAD("(%d,%d)",i,c); }
  return 0; }
""")

seed("c08-negctrl-below", "C08", [(D, """                        edges_4x4[b1][b0] = makeMEdge(
                            z, {edges_4x4[b1][b0], mEdge::zero, mEdge::zero,
                                (b1 == b0) ? makeIdent(z - 1) : mEdge::zero});""", """                        edges_4x4[b1][b0] = makeMEdge(
                            z, {edges_4x4[b1][b0], mEdge::zero, mEdge::zero,
                                (i % 5 == 0 || i == 6) ? makeIdent(z - 1) : mEdge::zero});""")],
 "a two-qubit gate with a negative control below both targets", "an extra off-diagonal identity block appears where the control is not satisfied", cpp=HEAD + """
int main(){
  int n=3; TwoQubitGateMatrix g=rxx_matrix(0.7); mEdge e=makeTwoQubitGate(n,g,2,1,Controls{Control{0,Control::Type::neg}});
  auto m=e.getEigenMatrix(n);
  for(int c=0;c<8;c++) for(int r=0;r<8;r++){ std::complex<double> w=0; if((c&1)!=(r&1)) w=0; else if(c&1) w=c==r; else w=g[r>>1][c>>1];
    if(df(m(r,c),w)>1e-5) BAD("(%d,%d)",r,c); }
  return 0; }
""")

seed("c09-unsorted-targets", "C09", [(D, """    // swap rows and columns
    std::vector<std::vector<std::complex<double>>> g_tmp;
    for (int i = 0; i < rows; i++) {
        g_tmp.push_back(g[conversionMap[i]]);
    }
    for (int i = 0; i < rows; i++) {
        for (int j = 0; j < rows; j++) {
            g[i][j] = g_tmp[i][conversionMap[j]];
        }
    }
""", """    // swap rows and columns (nothing to do when the targets are in order)
    if (targets.front() > targets.back()) {
        std::vector<std::vector<std::complex<double>>> g_tmp;
        for (int i = 0; i < rows; i++) {
            g_tmp.push_back(g[conversionMap[i]]);
        }
        for (int i = 0; i < rows; i++) {
            for (int j = 0; j < rows; j++) {
                g[i][j] = g_tmp[i][conversionMap[j]];
            }
        }
    }
""")], "a unitary on at least three qubits whose target list is unsorted although its first entry is smaller than its last, e.g. [0,2,1]... [1,0,2]",
 "the matrix is applied to the sorted targets instead of the listed ones", cpp=HEAD + """
int main(){
  int k=3; ComplexMatrix g(8,std::vector<std::complex<double>>(8)),h; for(int i=0;i<8;i++)for(int j=0;j<8;j++) g[i][j]={i*8.+j+1,i-j*1.}; h=g;
  std::vector<Qubit> t={1,0,2}; mEdge e=makeLargeGate(3,h,t); auto m=e.getEigenMatrix(3);
  auto ix=[&](int x){int r=0; for(int b=0;b<3;b++) r|=(x>>t[b]&1)<<b; return r;};
  for(int r=0;r<8;r++)for(int c=0;c<8;c++) if(df(m(r,c),g[ix(r)][ix(c)])>1e-9) BAD("(%d,%d)",r,c);
  return 0; }
""")

seed("c10-ry-reduced-angle", "C10", [(D, """    std::complex<double> i1 = {std::cos(angle / 2), 0};
    std::complex<double> i2 = {-std::sin(angle / 2), 0};
    std::complex<double> i3 = {std::sin(angle / 2), 0};
    return GateMatrix{i1, i2, i3, i1};""", """    // keep large angles accurate
    if (std::abs(angle) > 2 * PI) {
        angle = std::remainder(angle, 2 * PI);
    }
    std::complex<double> i1 = {std::cos(angle / 2), 0};
    std::complex<double> i2 = {-std::sin(angle / 2), 0};
    std::complex<double> i3 = {std::sin(angle / 2), 0};
    return GateMatrix{i1, i2, i3, i1};""")],
 "a rotation about y by more than a full turn (visible as a sign, for example under a control)", "the rotation has the wrong sign for half of these angles", cpp=HEAD + """
int main(){ for(double t: {0.4,7.0,-8.5,13.0}){ GateMatrix m=ry(t); if(df(m[0],std::cos(t/2))>1e-9||df(m[1],-std::sin(t/2))>1e-9||df(m[2],std::sin(t/2))>1e-9||df(m[3],std::cos(t/2))>1e-9) BAD("ry(%g)",t); }
  int n=2; vEdge s=mv_multiply(makeGate(n,Hmat,0),makeZeroState(n)); Controls c; c.emplace(Control{0,Control::Type::pos}); s=mv_multiply(makeGate(n,ry(7.0),1,c),s);
  size_t d; auto v=s.getVector(&d); if(std::abs(v[1].r-std::cos(3.5)/std::sqrt(2.))>1e-9) BAD("controlled ry"); return 0; }
""")

seed("c11-shared-half-copy", "C11", [(D, """    vNode *node = edge.getNode();
    fillVector(node->getEdge(0), (row << 1) | 0, wp, left - 1, m);
    fillVector(node->getEdge(1), (row << 1) | 1, wp, left - 1, m);
}""", """    vNode *node = edge.getNode();
    fillVector(node->getEdge(0), (row << 1) | 0, wp, left - 1, m);
    // long vectors: both halves are multiples of each other, copy instead of
    // descending again
    if (left >= 11 && node->getEdge(0).n == node->getEdge(1).n &&
        !node->getEdge(0).w.isApproximatelyZero() &&
        !node->getEdge(1).w.isApproximatelyZero()) {
        const std::size_t half = (std::size_t)1 << (left - 1);
        const double f = std::sqrt(node->getEdge(1).w.mag2() / node->getEdge(0).w.mag2());
        std_complex *lo = m + ((row << 1) << (left - 1));
        for (std::size_t i = 0; i < half; i++) {
            lo[half + i] = lo[i] * std_complex{f, 0.0};
        }
        return;
    }
    fillVector(node->getEdge(1), (row << 1) | 1, wp, left - 1, m);
}""")], "a register of at least 11 qubits whose halves (at a high qubit) differ only in a phase", "the amplitudes of the upper half lose their phase in the array read-out", cpp=HEAD + """
int main(){
  int n=12; vEdge s=makeZeroState(n); for(int q=0;q<n;q++) s=mv_multiply(makeGate(n,Hmat,q),s); s=mv_multiply(makeGate(n,Zmat,n-1),s);
  size_t d; auto v=s.getVector(&d); if(d!=4096) BAD("size");
  for(size_t i=0;i<d;i++){ double w=(i>>11)?-1/64.:1/64.; if(std::abs(v[i].r-w)>1e-9||std::abs(v[i].i)>1e-9) BAD("amplitude %zu is %g",i,v[i].r); }
  return 0; }
""")

seed("c12-negligible-branch", "C12", [(D, """            const double tmp1 = prob * ptr->children.at(1).w.mag2();

            if (visited.find(ptr->children.at(1).n) != visited.end()) {""", """            const double tmp1 = prob * ptr->children.at(1).w.mag2();

            // branches that carry next to nothing are not worth following
            if (tmp1 < 1e-4) {
                continue;
            }

            if (visited.find(ptr->children.at(1).n) != visited.end()) {""")],
 "a state in which a qubit above the measured one is |1> with probability below 1e-4, the measured qubit being correlated with it", "the probability of the measured qubit is off by up to 1e-4", cpp=HEAD + """
int main(){
  std::mt19937_64 mt(1); int n=2; vEdge s=makeZeroState(n); double t=2*std::asin(std::sqrt(8e-5));
  s=mv_multiply(makeGate(n,ry(t),1),s); s=mv_multiply(CX(n,0,1),s);
  double p=measureOne(s,0,mt); if(std::abs(p-(1-8e-5))>1e-9) BAD("%.12g",p); return 0; }
""")

seed("c13-certain-outcome", "C13", [(D, """    mEdge measurementGate =
        makeGate(rootEdge.getVar() + 1, measurementMatrix, index);

    vEdge e = mv_multiply(measurementGate, rootEdge);

    std_complex c = {std::sqrt(1.0 / normalizationFactor), 0};""", """    // the outcome was (all but) certain: the state stays as it is
    if (normalizationFactor > 1.0 - 1e-4) {
        return result;
    }

    mEdge measurementGate =
        makeGate(rootEdge.getVar() + 1, measurementMatrix, index);

    vEdge e = mv_multiply(measurementGate, rootEdge);

    std_complex c = {std::sqrt(1.0 / normalizationFactor), 0};""")],
 "measuring a qubit whose more likely outcome has a probability between 0.9999 and 1", "the state is not projected, the other outcome keeps an amplitude of up to 0.01", cpp=HEAD + """
int main(){
  std::mt19937_64 mt(1); int n=2; vEdge s=makeZeroState(n); s=mv_multiply(makeGate(n,ry(0.015),0),s);
  char c=measureOneCollapsing(s,0,mt); size_t d; auto v=s.getVector(&d); if(c!='0') return 0;
  if(std::abs(v[1].r)>1e-9||std::abs(v[0].r-1)>1e-9) BAD("%g %g",v[0].r,v[1].r); return 0; }
""")

seed("c14-kron-memo", "C14", [(D, """    std::array<mEdge, 4> edges;
    mEdge x;
    mNode *lnode = lhs.getNode();

    Qubit lv = lhs.getVar();
    Qubit rv = rhs.getVar();
    for (auto i = 0; i < 4; i++) {
        x = lnode->getEdge(i);
        x.w = lhs.w * x.w;
        edges[i] = mm_kronecker2(x, rhs);
    }

    mEdge ret = makeMEdge(lv + rv + 1, edges);
    return ret;""", """    std::array<mEdge, 4> edges;
    mEdge x;
    mNode *lnode = lhs.getNode();

    Qubit lv = lhs.getVar();
    Qubit rv = rhs.getVar();
#ifndef isMT
    mEdge memo = _mCache.find(lhs.n, rhs.n);
    if (memo.n != nullptr && !rhs.isTerminal() && memo.getVar() == lv + rv + 1) {
        memo.w = memo.w * lhs.w * rhs.w;
        return memo;
    }
#endif
    for (auto i = 0; i < 4; i++) {
        x = lnode->getEdge(i);
        x.w = lhs.w * x.w;
        edges[i] = mm_kronecker2(x, rhs);
    }

    mEdge ret = makeMEdge(lv + rv + 1, edges);
#ifndef isMT
    if (!rhs.isTerminal() && lhs.w.isApproximatelyOne() && rhs.w.isApproximatelyOne())
        _mCache.set(lhs.n, rhs.n, ret);
#endif
    return ret;""")], "the Kronecker product of two operators followed by their matrix product (both normalised)", "the matrix product returns the memoised Kronecker product", cpp=HEAD + """
int main(){
  mEdge a=makeGate(2,Xmat,1,Controls{Control{0,Control::Type::pos}}), b=makeGate(2,Xmat,0,Controls{Control{1,Control::Type::pos}});
  mEdge p0=mm_multiply(a,b); auto A=a.getEigenMatrix(2),B=b.getEigenMatrix(2); if((p0.getEigenMatrix(2)-A*B).norm()>1e-9) BAD("before");
  mEdge c=makeGate(2,Zmat,1,Controls{Control{0,Control::Type::pos}});
  mEdge k=mm_kronecker(a,c); mEdge p=mm_multiply(a,c); auto C=c.getEigenMatrix(2);
  if(p.getVar()>1) BAD("product of two-qubit operators on qubit %d",p.getVar());
  if((p.getEigenMatrix(2)-A*C).norm()>1e-9) BAD("after");
  return 0; }
""")

seed("c15-stale-probabilities", "C15", [(D, """    probs.clear();
    std::vector<std::vector<vContent>> v;""", """    std::vector<std::vector<vContent>> v;"""), (D, """    if (nNodes > GC_SIZE) {
        GC_SIZE *= 2;
    }""", """    if (nNodes > GC_SIZE) {
        GC_SIZE *= 2;
        probs.clear();
    }""")], "measuring, collecting garbage, then measuring a state whose nodes reuse released addresses", "probabilities of released nodes are used for new nodes at the same address", cpp=HEAD + """
int main(){
  std::mt19937_64 mt(1); int n=3;
  for(int r=0;r<40;r++){ vEdge s=makeZeroState(n); for(int i=0;i<n;i++) s=mv_multiply(makeGate(n,ry(0.1+0.37*r+i),i),s);
    s=mv_multiply(CX(n,0,2),s); size_t d; auto v=s.getVector(&d);
    for(int q=0;q<n;q++){ double w=0; for(size_t i=0;i<d;i++) if(!(i>>q&1)) w+=v[i].mag2(); double p;
      try{ p=measureOne(s,q,mt);}catch(std::exception&e){BAD("round %d: %s",r,e.what());}
      if(std::abs(p-w)>1e-9) BAD("round %d qubit %d: %.9g expected %.9g",r,q,p,w);} 
    auto pr=probabilities(s); for(size_t i=0;i<d;i++) if(std::abs(pr[i]-v[i].mag2())>1e-9) BAD("round %d",r);
    delete[] v; vEdge k=gc(makeZeroState(1),true); }
  return 0; }
""")

seed("c24-relative-tolerance", "C24", [("include/dd.h", """        if (std::abs(r - rhs.r) <= TOLERANCE &&
            std::abs(i - rhs.i) <= TOLERANCE)
            return true;
""", """        const double scale = std::max(1.0, mag2());
        if (std::abs(r - rhs.r) <= TOLERANCE * scale &&
            std::abs(i - rhs.i) <= TOLERANCE * scale)
            return true;
""")], "weights of magnitude well above one (about 100 and more)", "the comparison becomes asymmetric and loose for large weights", cpp=HEAD + """
int main(){ Complex a(1000,0), b(1000+1e-7,0), c(1,0), d(1e4,3); if(a.isApproximatelyEqual(b)) BAD("too loose"); return 0; }
""")
