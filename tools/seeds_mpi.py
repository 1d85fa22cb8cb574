from seedlib import seed
D = "src/dd.cpp"
SH = """#!/bin/bash
# run with cwd = repository root after the build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/dm.XXXXXX) && trap 'rm -rf "$T"' EXIT
mkdir "$T/inc"
for f in include/*.h include/*.hpp; do
  [ -f "$f" ] && sed -E -e 's/(NBUCKETS *= *)[^;,]+;/\\1509;/' -e 's/(INITIAL_ALLOCATION_SIZE *= *)[^;,]+;/\\116;/' -e 's/(INITIAL_ALLOCATION_SIZE_CACHE *= *)[^;,]+;/\\116;/' \\
    -e 's/(#define +NBUCKETS +).*/\\1509/' -e 's/(#define +INITIAL_ALLOCATION_SIZE +).*/\\116/' -e 's/(#define +INITIAL_ALLOCATION_SIZE_CACHE +).*/\\116/' "$f" > "$T/inc/$(basename $f)"
done
mpicxx -std=gnu++17 -O1 -w -DisMPI -I"$T/inc" -Isrc -I/usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" -lboost_mpi -lboost_serialization -lpthread || exit 3
export TMPDIR="$T" OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl_vader_single_copy_mechanism=none
cd "$T" && timeout 120 mpirun --oversubscribe --bind-to none --mca mpi_yield_when_idle 1 --mca btl self,vader -np NP ./demo
"""
HEAD = '''#include "dd.cpp"
#include <cstdio>
namespace bmpi = boost::mpi;
#define BAD(...) do{fprintf(stderr,__VA_ARGS__);fputc(10,stderr);world.abort(1);}while(0)
static std::vector<std::complex<double>> full(bmpi::communicator &world, vEdge e, int l) {
  std::vector<std::complex<double>> v((size_t)1 << l);
  if (e.n != vNode::terminal) { size_t d; std_complex *p = e.getVector(&d); for (size_t i = 0; i < d; i++) v[i] = {p[i].r, p[i].i}; }
  std::vector<std::vector<std::complex<double>>> a;
  std::vector<double> f; for (auto &x : v) { f.push_back(x.real()); f.push_back(x.imag()); }
  std::vector<std::vector<double>> g; bmpi::all_gather(world, f, g);
  std::vector<std::complex<double>> r; for (auto &x : g) for (size_t i = 0; i < x.size(); i += 2) r.push_back({x[i], x[i + 1]});
  return r; }
'''

seed("c20-rank-digits", "C20", [(D, """        int tmp = target_rank;
        for (int i = pre_length - 1; i >= 0; i--) {
            if (tmp / (int)pow(2, i) >= 1) {
                tmp -= (int)pow(2, i);
                result += '1';
            } else {
                result += '0';
            }
        }
        result += vec_strings[target_rank];""", """        for (int i = 0; i < pre_length; i++) {
            result += (target_rank >> i) & 1 ? '1' : '0';
        }
        result += vec_strings[target_rank];""")], "at least four processes and a state that is not symmetric in the qubits that select the process",
"sampled outcomes have the qubits that select the process in reverse order", sh=SH.replace("NP", "4"), files={"demo.cpp": HEAD + """
int main(int argc, char **argv){ bmpi::environment env(argc, argv); bmpi::communicator world; std::mt19937_64 mt(5);
  int n=4; vEdge s=makeZeroStateMPI(n,world);
  s=mv_multiply_MPI(makeGate(n,Xmat,3),s,world,n,3);
  for(int i=0;i<5;i++){ std::string r=measureAllMPI(world,s,false,mt); if(r!="1000") BAD("outcome %s, expected 1000",r.c_str()); }
  return 0; }
"""})

seed("c20-own-slice-norm", "C20", [(D, """    mEdge measurementGate = makeGate(n_qubits, measurementMatrix, index);
    vEdge e =
        mv_multiply_MPI(measurementGate, rootEdge, world, n_qubits, index);""", """    if (index >= local_size) {
        // the qubit selects the process: no exchange of slices is needed
        const double p_kept = result == '0' ? pzero : pone;
        if (p_kept > 0) {
            rootEdge.w = rootEdge.w * std_complex(std::sqrt(1.0 / p_kept), 0);
        } else {
            rootEdge = vEdge::zero;
        }
        return result;
    }
    mEdge measurementGate = makeGate(n_qubits, measurementMatrix, index);
    vEdge e =
        mv_multiply_MPI(measurementGate, rootEdge, world, n_qubits, index);""")], "at least four processes, so that more than one slice survives the measurement of a qubit that selects the process",
"every surviving slice is normalised on its own instead of the whole state", sh=SH.replace("NP", "4"), files={"demo.cpp": HEAD + """
int main(int argc, char **argv){ bmpi::environment env(argc, argv); bmpi::communicator world; std::mt19937_64 mt(5);
  int n=4; vEdge s=makeZeroStateMPI(n,world);
  for(int q=0;q<n;q++) s=mv_multiply_MPI(makeGate(n,ry(0.4+0.3*q),q),s,world,n,q);
  char r=measureOneCollapsingMPI(world,s,3,n,mt,true);
  auto v=full(world,s,n-2); double t=0; for(auto&x:v) t+=std::norm(x);
  if(std::abs(t-1)>1e-9) BAD("norm after the measurement: %g",t);
  return 0; }
"""})
