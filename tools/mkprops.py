#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
        mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=None)))

prop("C01", "Applying an operator to a state gives the exact matrix-vector product",
 "For every operator and every state the simulator can hold, applying the operator yields the state whose amplitudes are the matrix-vector product of the two, up to rounding. This holds for operators that act as the identity on some qubits (and are therefore stored without those qubits), for the zero operator and the zero state, and whatever operations were carried out earlier in the process.",
 ["inputs","histories"], "every operator/state pair of up to the maximal qubit count, every prior history of operations and memo-table contents",
 "The tests apply a few dozen fixed gates to a few basis states of at most 5 qubits; the claim is over all diagrams (including skipped identity levels) and all memo-table contents.",
 ["src/dd.cpp","include/dd.h","include/cache.hpp"],
 [("recursive product over four quadrants with memoisation","src/dd.cpp mv_multiply2"),("identity levels are skipped","src/dd.cpp makeMEdge")],
 [("multiplication memo table","maps a pair of nodes to the normalised product","include/cache.hpp MulCache")],
 ["mv_multiply","pyQDD.mv_multiply","getEigenVector"])
prop("C02", "Composing operators gives the exact matrix product, adding them the sum",
 "For every pair of operators, multiplying them yields the operator whose matrix is the product in the stated order (left times right), and adding them yields the operator whose matrix is the sum, up to rounding. Both hold when the two operands are stored with different heights because identity qubits were stripped, when one of them is zero or a multiple of the identity, and whatever was computed before.",
 ["inputs","histories"], "every pair of operators, every prior history of memo-table contents",
 "Tests multiply a handful of fixed gates; operands of different stripped height meet in only one or two of them.",
 ["src/dd.cpp","include/cache.hpp"],
 [("recursive product and sum","src/dd.cpp mm_multiply2, mm_add2")], [("memo tables","keyed by node pair / edge pair","include/cache.hpp")],
 ["mm_multiply","mm_add","getEigenMatrix"])
prop("C03", "Adding two states gives the exact vector sum",
 "For every two states of the same qubit count, adding them yields the state whose amplitudes are the sums of the amplitudes of the two, up to rounding. This includes a zero operand on either side, operands that share parts of their representation, sums that cancel completely or partly, and any earlier history of additions.",
 ["inputs","histories"], "every pair of states of equal size, every prior history",
 "Only a few additions of basis states are tested; cancellation and shared substructure with a warm memo table are not.",
 ["src/dd.cpp","include/cache.hpp"], [("recursive addition with memo table","src/dd.cpp vv_add2")], [("addition memo table","keyed by pairs of weighted edges","include/cache.hpp AddCache")], ["vv_add"])
prop("C04", "Building a diagram node preserves the value and is canonical",
 "Building a node for a qubit from its parts yields an edge denoting exactly the block matrix (or block vector) made of those parts. Values are stored canonically: the weights in a node are normalised so that the largest has value one, parts of weight zero are the unique zero edge, a node that is the identity on its qubit is never stored, and building the same value twice gives the same node and weight.",
 ["inputs","histories"], "every tuple of child edges, every prior content of the node store",
 "Tests only look at amplitudes of final results; canonicity is what all the memo tables rely on, and no test checks it for arbitrary weights.",
 ["src/dd.cpp","include/dd.h","include/table.hpp"], [("normalisation and identity stripping","src/dd.cpp normalizeM, normalizeV, makeMEdge, makeVEdge")], [("node store","set of all live nodes","include/table.hpp CHashTable")], ["makeMEdge","makeVEdge"])
prop("C05", "Memo tables only ever return the result of the very operation asked for",
 "A lookup in the memo tables for products and sums either reports a miss or returns a result that was stored for exactly those two operands (in either order for sums) and for that kind of operation. No stored result survives the clearing of the tables, and collisions, replacement and growth of a table never mix up entries.",
 ["histories","inputs"], "every sequence of stores, lookups and clears, every pair of operands, all hash values",
 "Hash collisions, bucket replacement and chunk growth are practically never reached by the small circuits of the tests.",
 ["include/cache.hpp","src/dd.cpp"], [("bucketed tables with operand comparison on lookup","include/cache.hpp AddCache, MulCache")], [("tables","one per operation kind and qubit","include/cache.hpp")], ["mv_multiply","mm_multiply","vv_add"])
prop("C06", "The node store never duplicates, loses or aliases a live node",
 "Looking up a node in the store returns the stored node with the same qubit and the same children if there is one, and otherwise stores the new node; no later operation changes what is stored. Memory handed out for a new node is never memory of a stored node, and returning an unused node never touches a stored one.",
 ["histories","inputs"], "every sequence of allocations, lookups and returns, all hash values and chain lengths",
 "Long collision chains and reuse of returned nodes need large or adversarial histories that the tests do not create.",
 ["include/table.hpp","include/dd.h"], [("chained hash table with free list and chunked allocation","include/table.hpp CHashTable")], [("bucket chains","newest node first, linked to older ones","include/table.hpp"),("free list","returned nodes","include/table.hpp")], ["makeMEdge","makeVEdge"])
prop("C07", "A one-qubit gate with any controls has exactly the right matrix",
 "For every register size, target qubit, 2x2 matrix and set of positive or negative control qubits (none of which is the target), the constructed gate operator applies the 2x2 matrix to the target exactly on the basis states in which every control is satisfied, and is the identity on all others.",
 ["inputs"], "every register size, target, matrix and control set, with controls below, above and around the target",
 "Tests build a few gates with at most two controls on up to 5 qubits; negative controls and mixed control positions are hardly covered.",
 ["src/dd.cpp","qdd/bindings.cpp"], [("bottom-up construction with a sorted control set","src/dd.cpp makeGate")], [], ["makeGate","pyQDD.makeGate"])
prop("C08", "A two-qubit gate with any controls has exactly the right matrix",
 "For every register size, ordered pair of distinct targets, 4x4 matrix and set of positive or negative controls disjoint from the targets, the constructed gate operator applies the 4x4 matrix to the two targets, the first being the more significant index bit, exactly when all controls are satisfied, and is the identity otherwise.",
 ["inputs"], "every register size, both target orders, every matrix and control set (below, between and above the targets)",
 "Tests use symmetric matrices mostly and few control positions; target order and controls between the targets are rarely exercised.",
 ["src/dd.cpp","qdd/bindings.cpp"], [("bottom-up construction of sixteen, then four, then one edge","src/dd.cpp makeTwoQubitGate")], [], ["makeTwoQubitGate","pyQDD.makeTwoQubitGate"])
prop("C09", "A general unitary is placed on exactly the requested qubits in order",
 "For every 2^k x 2^k matrix and every ordered list of k distinct target qubits of a register, the constructed operator applies the matrix to those qubits, the first listed being the least significant index bit, and is the identity on all other qubits. Matrices whose size does not fit the target list are rejected with an error.",
 ["inputs"], "every matrix size k >= 0, target list (sorted or not, with gaps) and register size",
 "Tests use one and two qubit unitaries on a few target lists.",
 ["src/dd.cpp"], [("index conversion and recursive construction","src/dd.cpp makeLargeGate")], [], ["makeLargeGate","pyQDD.unitary"])
prop("C10", "Every gate of the gate library has its textbook matrix",
 "Each named fixed gate (I, H, X, Y, Z, S, T, SX, V, their adjoints, swap, iswap) and each parameterised gate (rx, ry, rz, p, u1, u2, u3, u, r, rxx, ryy, rzz, rzx) has, for all parameter values, the matrix that Qiskit defines for it. The convenience constructors for whole-register rotation, CX, swap and controlled-swap operators use the matching matrix on the matching qubits.",
 ["inputs"], "all parameter values (all reals), all qubit positions",
 "Tests sample a handful of angles and compare sampled counts, which hides phases and signs.",
 ["include/common.h","src/dd.cpp","qdd/bindings.cpp"], [("gate matrix functions and constants","src/dd.cpp, include/common.h")], [], ["pyQDD.rxmat","pyQDD.u3","pyQDD.rzxmat","pyQDD.SWAP","pyQDD.makeGate"])
prop("C11", "Initial states and state/operator read-out are exact",
 "The all-zeros and all-ones states have amplitude one at exactly that basis state for every register size. Reading out a state or operator returns, at every index, the value the diagram denotes (qubit 0 is the least significant bit), including operators and states with skipped or zero parts, and a global phase multiplies every amplitude by that phase.",
 ["inputs"], "every register size, every diagram, every index",
 "Read-out is the observation instrument of all other tests, which look at small dense states only.",
 ["src/dd.cpp","qdd/bindings.cpp"], [("recursive fill of the output array","src/dd.cpp fillVector, fillMatrix, makeZeroState, makeOneState"),("global phase","qdd/bindings.cpp applyGlobal")], [], ["pyQDD.getVector","getEigenVector","getEigenMatrix","pyQDD.makeZeroState"])
prop("C12", "Reported probabilities and sampled outcomes follow the Born rule",
 "For every normalised state, the reported probability vector contains the squared magnitude of each amplitude at its index, and the reported probability of reading 0 on a qubit is the total squared magnitude of the amplitudes with that bit 0. A sampled measurement of all qubits picks each bit string with exactly its Born probability given uniform random numbers, and writes qubit 0 as the last character.",
 ["inputs","histories"], "every state, every qubit, every random draw, any earlier measurements of other states",
 "Tests compare a few sampled histograms with wide tolerances.",
 ["src/dd.cpp"], [("downward and upward probability propagation","src/dd.cpp assignProbabilities, probabilities, measureAll, determineMeasurementProbabilities, measureOne")], [("probability memo","norm of every visited node","src/dd.cpp probs")], ["pyQDD.measureAll","pyQDD.probabilities","pyQDD.measureOne"])
prop("C13", "Measurement collapses the state to the renormalised outcome",
 "Measuring one qubit with collapse returns an outcome with its Born probability and leaves the state projected onto that outcome and rescaled to norm one; no other state held by the user changes. Measuring all qubits with collapse leaves the basis state whose bit string was returned.",
 ["inputs","histories"], "every state, qubit and outcome",
 "Tests collapse a few Bell-like states and check the counts, not the remaining state.",
 ["src/dd.cpp"], [("projector application and rescaling","src/dd.cpp measureOneCollapsing, measureAll")], [], ["pyQDD.measureOneCollapsing","pyQDD.measureAll"])
prop("C14", "Tensor products of diagrams are exact",
 "For every two states, and for every two operators that are stored at full height, the tensor product has as matrix (or vector) the Kronecker product of the two, the left operand taking the more significant qubits, and tensoring with a scalar scales.",
 ["inputs"], "every pair of diagrams",
 "Tests tensor two or three fixed single-qubit gates.",
 ["src/dd.cpp"], [("recursion over the left operand","src/dd.cpp mm_kronecker2, vv_kronecker2")], [], ["mm_kronecker","vv_kronecker"])
prop("C15", "Garbage collection and node serialisation preserve every kept diagram",
 "Collecting garbage while holding any list of states (or of operators) returns diagrams denoting exactly the same states (operators) in the same order, with structure shared between them, and later operations on them give the same results as without the collection. Encoding a diagram into a flat table and decoding it, in the same or another process, gives a diagram of the same value.",
 ["inputs","histories"], "every list of diagrams (including shared, zero and scalar ones), every point of a history at which collection is triggered",
 "One or two fixed states are round-tripped; collection thresholds are rarely reached in tests.",
 ["src/dd.cpp","include/table.hpp","include/cache.hpp"], [("post-order table encoding and decoding","src/dd.cpp vNode_to_vec, vec_to_vNode, mNode_to_vec, vec_to_mNode"),("replacement of the node store and clearing of all memo tables","src/dd.cpp gc, gc_mat")], [("memo tables and probability memo","must not outlive the nodes they refer to","src/dd.cpp")], ["pyQDD.gc","pyQDD.gc_mat"])
prop("C16", "The backend applies every supported instruction with Qiskit's meaning",
 "For every circuit made of supported instructions, the backend evolves the state by the unitary that Qiskit defines for each instruction, in program order, with each operand qubit in its role (control, target, order of targets) and each parameter in its place, and finally the circuit's global phase. Unsupported instructions are rejected with an error instead of being skipped.",
 ["programs","inputs"], "every instruction class, operand assignment, parameter value and instruction sequence",
 "Tests compare counts for a few circuits per gate; phases, operand roles and orderings are only partly observable in counts.",
 ["qdd/qdd_backend.py"], [("dispatch from instruction class to gate constructor","qdd/qdd_backend.py _evaluate_circuit and the gate dictionaries")], [], ["QddBackend.run","statevector_simulator"])
prop("C17", "Counts, memory and probabilities refer to the right classical bits",
 "For every circuit whose measurements are final, every reported outcome string has, for each classical bit, the sampled value of the qubit last measured into it (0 if none), classical bit 0 rightmost, and counts add up to the number of shots and agree with the per-shot memory. Result headers describe the registers of the circuit that was run.",
 ["programs","inputs"], "every assignment of qubits to classical bits and registers, including partial, permuted and repeated ones",
 "Tests mostly use measure_all or identity assignments.",
 ["qdd/qdd_backend.py","qdd/circuit_property.py"], [("final mapping from classical bits to qubits","qdd/qdd_backend.py _validate_and_get_circuit_property, _evaluate_circuit, _create_experiment_header")], [], ["Result.get_counts","Result.get_memory"])
prop("C18", "Mid-circuit measurement, reset and classical control act shot by shot",
 "For every circuit with measurements followed by other operations, resets, or classically conditioned operations, each shot runs the whole program from the initial state, a conditioned operation takes effect exactly if the classical bit or register has the stated value at that moment, reset leaves the qubit in state zero, and the reported bits are those written in that shot. A circuit is evolved only once for all shots only if its final state does not depend on any measurement outcome.",
 ["programs","inputs"], "every interleaving of gates, measurements, resets and conditions on bits and registers (in any position of the bit list)",
 "Tests contain a handful of dynamic circuits with a single register.",
 ["qdd/qdd_backend.py"], [("classification of the circuit and per-shot execution","qdd/qdd_backend.py _validate_and_get_circuit_property, _evaluate_circuit")], [], ["QddBackend.run"])
prop("C19", "Moving qubits between nodes never changes the computed state",
 "Whenever the distributed simulator exchanges qubit positions to make an operation local, the applied exchanges and the recorded qubit positions stay in agreement, the recorded positions remain a permutation, all qubits of the next operation are local afterwards, and at the end every qubit is returned to its own position.",
 ["programs","configurations"], "every circuit, number of processes, current position map and exchange strategy",
 "The existing tests run the distributed mode without qubit exchange at all.",
 ["qdd/qdd_backend.py"], [("exchange strategies and restoration","qdd/qdd_backend.py do_swap_v1, do_swap_v2, restore_swap")], [("position map","circuit qubit to simulator qubit","qdd/qdd_backend.py map_after_swap")], ["QddBackend.run(use_mpi=True)"])
prop("C20", "The distributed simulation computes what the single-process one computes",
 "For every power-of-two number of processes, the slice of an operator used by a process is the corresponding block of its matrix, and applying an operator to a distributed state gives every process its slice of the single-process result. Distributed probabilities, sampled outcomes and single-qubit measurements refer to the whole distributed state, including qubits that select the process.",
 ["inputs","configurations"], "every operator (including ones stored without their identity qubits), state, process count and qubit",
 "Tests run two and four processes on a few fixed gates.",
 ["src/dd.cpp","qdd/bindings.cpp"], [("block selection","src/dd.cpp getMPIGate"),("ring and broadcast multiplication","src/dd.cpp mv_multiply_MPI, mv_multiply_MPI_bcast3"),("distributed measurement","src/dd.cpp measureAllMPI, measureOneMPI, measureOneCollapsingMPI, probabilitiesMPI")], [], ["mv_multiply_MPI","measureOneCollapsingMPI"])
prop("C21", "Invalid runs are refused and valid options take effect",
 "A run is accepted only if the shot count is absent or an integer from 1 to the maximum, the circuit fits the qubit limit, and (for the sampling backend) it contains a measurement; a refused run returns a failed job carrying the error rather than wrong data. Every recognised option given to a run or set on the backend is the one used, with run options taking precedence, and every circuit in a batch gets its own parameter binding and its own result in order.",
 ["inputs","configurations"], "every option combination, shot count, batch and binding list",
 "Tests check two invalid shot counts and defaults.",
 ["qdd/qdd_backend.py"], [("validation and option merging","qdd/qdd_backend.py run, _run_internal, _validate_run_options, _validate_and_get_circuit_property, _run_experiment")], [], ["QddBackend.run"])
prop("C22", "Primitives return the quantities Qiskit defines",
 "For every list of circuits, observables and parameter values, the estimator returns for each entry the coefficient-weighted sum over the observable's Pauli terms of the mean outcome parity on that term's qubits (one for the identity term), computed from the run of that circuit with that entry's parameters. The sampler returns for each entry the distribution over that circuit's classical bits for that entry's parameters.",
 ["inputs","programs"], "every observable, grouping of terms, batch of circuits and parameter lists",
 "Tests use one circuit and a two-qubit observable without parameters or with a single binding.",
 ["qdd/qdd_estimator.py","qdd/qdd_sampler.py"], [("basis grouping, bookkeeping of experiments, parity arithmetic","qdd/qdd_estimator.py"),("experiment manager and post-processing","qdd/qdd_sampler.py")], [], ["Estimator.run","Sampler.run"])
prop("C23", "Merging a circuit into one operator gives the circuit's unitary",
 "For every circuit of supported unitary instructions, merging it yields the operator whose matrix is the product of the instruction unitaries in program order times the global phase, and using the merged operator as a single instruction gives the same state as running the circuit. Measurements and barriers are ignored and unsupported instructions are refused.",
 ["programs","inputs"], "every circuit of supported instructions",
 "One test merges two small circuits.",
 ["qdd/qdd_backend.py","qdd/qdd_gate.py"], [("operator accumulation","qdd/qdd_backend.py merge_circuit")], [], ["QddBackend.merge_circuit","QDDGate"])
prop("C24", "Weights are compared with a tolerance that is tight and symmetric",
 "Two weights that differ by more than one part in a billion in either component are never treated as equal, and identical weights always are; the zero and one tests agree with that comparison, and complex arithmetic on weights (sum, difference, product, quotient, squared magnitude) is the exact complex operation up to rounding.",
 ["inputs"], "all pairs of finite weights",
 "Tests never probe weights near the tolerance.",
 ["include/dd.h"], [("component-wise comparison and arithmetic","include/dd.h Complex")], [], ["Complex"])
prop("C25", "Parallel execution gives the same results as sequential execution",
 "With any number of worker threads, every simulation returns the same state as single-threaded execution, and no schedule of the workers loses, duplicates or corrupts a node, a memo entry or a queued task.",
 ["schedules"], "all interleavings of all worker threads",
 "Tests run a few circuits with eight threads; they cannot cover interleavings.",
 ["src/task.cpp","include/table.hpp","include/cache.hpp","src/dd.cpp"], [("fiber scheduler and per-bucket locks","src/task.cpp, include/table.hpp")], [], ["pyQDD.initMT"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
