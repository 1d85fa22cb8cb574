"""What decides each property: contracts (own functions, closure) and the bounded stand-in / replay search."""

# property -> dict(contracts=[(tu, name)], deps=[(tu, name)], modes=[harness modes], level, note)
DD = lambda *n: [("dd", x) for x in n]
GL = lambda *n: [("glue", x) for x in n]
LIB = "rx ry rz u3 u1 u2 u p r rxx_matrix ryy_matrix rzz_matrix rzx_matrix swap_matrix iswap_matrix RX RY RZ CX makeSwap SWAP ISWAP CSWAP RXX RYY RZZ RZX".split()
CONSTS = "I H X Y Z S Sdag T Tdag SX SXdag V Vdag".split()
CPLX = ["vp_" + k for k in ("add sub mul addto subto multo div divto add_self sub_self mul_self div_self convert mag2 norm2 norm real imag eq zero one zero_agrees "
                            "one_agrees symmetric exact exact_std exactzero exactone").split()]
PLAN = {
    "C01": dict(contracts=DD("mv_multiply", "mv_multiply2"), deps=DD("vv_add2", "makeVEdge"), modes=["mv"]),
    "C02": dict(contracts=DD("mm_multiply", "mm_multiply2", "mm_add", "mm_add2"), deps=DD("makeMEdge"), modes=["mm"]),
    "C03": dict(contracts=DD("vv_add", "vv_add2"), deps=DD("makeVEdge"), modes=["vv"]),
    "C04": dict(contracts=DD("makeMEdge", "makeVEdge"), deps=[], modes=["node"]),
    "C05": dict(contracts=DD("AddCache", "MulCache", "AddCache::getBucket", "MulCache::getBucket", "AddCache::clearAll", "MulCache::clearAll"), deps=DD("mm_add2", "vv_add2", "mm_multiply2", "mv_multiply2"), modes=["memo"]),
    "C06": dict(contracts=DD(*[f"CHashTable<{k}Node>::{f}" for k in "mv" for f in ("getNode", "returnNode", "lookup", "register_wo_lookup")],
                           *[f % (k + "Node") for k in "mv" for f in ("%s::operator==", "std::hash<%s>")]), deps=[], modes=["store"]),
    "C07": dict(contracts=DD("makeGate", "makeGate/plain"), deps=DD("makeMEdge"), modes=["gate1"]),
    "C08": dict(contracts=DD("makeTwoQubitGate", "makeTwoQubitGate/plain"), deps=DD("makeMEdge"), modes=["gate2"], psecs=600),
    "C09": dict(contracts=DD("makeLargeGate/blocks", "makeLargeGate/list", "makeLargeGate/rejects", "makeLargeGate/default"), deps=DD("makeMEdge"), modes=["large"], psecs=600),
    "C10": dict(contracts=DD(*LIB) + GL(*["vp_const_" + k for k in CONSTS]), deps=DD("makeGate", "makeGate/plain", "makeTwoQubitGate/plain", "mm_multiply"), modes=["lib"]),
    "C11": dict(contracts=DD("makeZeroState", "makeOneState", "fillVector", "vEdge::getVector", "fillMatrix", "mEdge::getMatrix"), deps=DD("makeVEdge"), modes=["readout"]),
    "C12": dict(contracts=DD("assignProbabilities", "probabilities", "measureAll/draw", "determineMeasurementProbabilities", "measureOne"), deps=[], modes=["prob"]),
    "C13": dict(contracts=DD("measureOneCollapsing", "measureAll/collapse"), deps=DD("determineMeasurementProbabilities", "mv_multiply", "makeGate/plain", "makeVEdge"), modes=["collapse"]),
    "C14": dict(contracts=DD("mm_kronecker", "mm_kronecker2", "vv_kronecker", "vv_kronecker2"), deps=DD("makeMEdge", "makeVEdge"), modes=["kron"]),
    "C15": dict(contracts=DD("vNode_to_vec", "mNode_to_vec", "vec_to_vNode", "vec_to_mNode", "gc/all", "gc/one", "gc_mat/all", "gc_mat/one"), deps=[], modes=["gc"]),
    "C24": dict(contracts=GL(*CPLX), deps=[], modes=["complex"]),
    "C16": dict(contracts=[], deps=[], modes=[], py=["circ"], pyc=["evaluate/gates"]),
    "C17": dict(contracts=[], deps=[], modes=[], py=["bits"], pyc=["evaluate/memory", "evaluate/probabilities", "evaluate/distribution", "evaluate/gates", "validate"]),
    "C18": dict(contracts=[], deps=[], modes=[], py=["dyn"], pyc=["evaluate/dynamic/1", "evaluate/dynamic/2", "evaluate/dynamic/3", "evaluate/dynamic/4", "validate"]),
    "C19": dict(contracts=[], deps=[], modes=[], py=["swap"], pycsecs=400,
                pyc=["evaluate/mpi/v2/unitary", "evaluate/mpi/v2/three", "evaluate/mpi/dynamic/v1", "evaluate/mpi/v1", "evaluate/mpi/v2", "evaluate/mpi/v1/qdd", "evaluate/mpi/v2/qdd",
                     "evaluate/mpi/dynamic/v2", "evaluate/mpi/v1/pairs", "evaluate/mpi/noswap", "swap/restore", "swap/v1", "swap/v2"], pyct=["evaluate/mpi/v1/three"]),
    "C20": dict(contracts=[("mpi", "getMPIGate"), ("mpi", "getMPIGate/default")], deps=[], modes=[], mpi=[2, 4, 8], level="exploration"),
    "C21": dict(contracts=[], deps=[], modes=[], py=["opts"], pyc=["validate", "options", "run/internal", "run/experiment", "run"]),
    "C22": dict(contracts=[], deps=[], modes=[], py=["est", "samp"]),
    "C23": dict(contracts=[], deps=[], modes=[], py=["merge"], pyc=["merge"]),
}
