From b12865237e42a0010640681d17817144950a7064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 01/20] fix: makeLargeGate read past the target list when
 building the index conversion map

The loop that builds conversionMap ran over the matrix rows instead of the
targets, reading target_compresed out of bounds and growing the map to 2^rows
entries (16 GB for a 5-qubit unitary).
---
 src/dd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 8527000..9a3491a 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -532,7 +532,7 @@ mEdge makeLargeGate(QubitCount q, ComplexMatrix &g,
         [&targets](size_t a, size_t b) { return targets[a] < targets[b]; });
     std::vector<std::size_t> conversionMap;
     conversionMap.push_back(0);
-    for (int i = 0; i < rows; i++) {
+    for (int i = 0; i < targets.size(); i++) {
         size_t addition = 1 << target_compresed[i];
         int rep = conversionMap.size();
         for (int j = 0; j < rep; j++) {
-- 
2.43.0


From 93fb6f8d7548c17dc24718701b561ce554476c7e Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 02/20] fix: a register condition compared bit k of the value
 with the wrong bit when the register does not start at classical bit 0

---
 qdd/qdd_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 269829b..f159e0b 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -718,9 +718,9 @@ class QddBackend(BackendV1):
                         if val_cbit[self.get_cID(classical)] != str(int(val)):
                             skip = True
                     else:
-                        for clbit in classical:
+                        for k, clbit in enumerate(classical):
                             idx = self.get_cID(clbit)
-                            if val_cbit[idx] != str((val >> idx) & 1):
+                            if val_cbit[idx] != str((val >> k) & 1):
                                 skip = True
                                 break
                 if skip:
-- 
2.43.0


From f066a2b59ce1b5a13e31e06685a419f83a2c204d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 03/20] fix: a conditional measurement was treated as an
 unconditional final measurement

---
 qdd/qdd_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index f159e0b..592b078 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -1098,6 +1098,8 @@ class QddBackend(BackendV1):
                 # (Multi-target measurements (Measure([...], [...]) is decomposed to single-target measurement gates.)
                 clbit_final_values[cargs[0]] = qargs[0]
                 measured_qubits |= set(qargs)
+                if inst.condition is not None:
+                    stable_final_state = False
             elif (
                 inst.condition is not None
                 or any(qubit in measured_qubits for qubit in qargs)
-- 
2.43.0


From a3039a9a9ab7192f98083b09a03be723664a55c7 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 04/20] fix: the sampler failed for several parameter values of
 the same circuit

---
 qdd/qdd_sampler.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/qdd/qdd_sampler.py b/qdd/qdd_sampler.py
index 2a2ec1d..dc4d955 100755
--- a/qdd/qdd_sampler.py
+++ b/qdd/qdd_sampler.py
@@ -206,15 +206,10 @@ class _ExperimentManager:
         experiment_circuit: QuantumCircuit,
     ):
         """append experiments"""
-        if parameter_bind and key in self.keys:
-            key_index = self.keys.index(key)
-            for k, vs in self.parameter_binds[key_index].items():
-                vs.append(parameter_bind[k])
-            self._input_indices[key_index].append(self._num_experiment)
-        else:
-            self.experiment_circuits.append(experiment_circuit)
-            self.keys.append(key)
-            self.parameter_binds.append({k: v for k, v in parameter_bind.items()})
-            self._input_indices.append([self._num_experiment])
+        # The backend takes one parameter binding per circuit, so that every entry is an experiment of its own.
+        self.experiment_circuits.append(experiment_circuit)
+        self.keys.append(key)
+        self.parameter_binds.append({k: v for k, v in parameter_bind.items()})
+        self._input_indices.append([self._num_experiment])
 
         self._num_experiment += 1
-- 
2.43.0


From be87870f0bf41f18b7e83947d3af3baae8ac0e96 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 05/20] fix: the estimator failed or skipped circuits if an
 observable has identity terms only, or ungrouped ones

---
 qdd/qdd_estimator.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 936c456..080f65c 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -214,9 +214,15 @@ class Estimator(BaseEstimator):
                 pauli_list = sum(
                     [self._observables[obs_ind].paulis for obs_ind in obs_indices]
                 ).unique()
-                if self._abelian_grouping:
+                # Identity terms need no run.
+                non_identity = (pauli_list.x | pauli_list.z).any(axis=1)
+                if not non_identity.any():
+                    pauli_lists = []
+                elif self._abelian_grouping:
+                    pauli_list = pauli_list[non_identity]
                     pauli_lists = pauli_list.group_commuting(qubit_wise=True)
                 else:
+                    pauli_list = pauli_list[non_identity]
                     pauli_lists = [PauliList(pauli) for pauli in pauli_list]
                 obs_map = defaultdict(list)
                 for obs_ind in obs_indices:
@@ -225,12 +231,12 @@ class Estimator(BaseEstimator):
                             if pauli in pauli_list:
                                 obs_map[obs_ind].append(basis_ind)
                                 break
+                        else:
+                            obs_map[obs_ind].append(None)
                 obs_maps[circ_ind] = obs_map
                 bases = [_paulis2basis(pauli_list) for pauli_list in pauli_lists]
-                if (
-                    len(bases) == 1 and not bases[0].x.any() and not bases[0].z.any()
-                ):  # identity
-                    break
+                if not bases:  # identity
+                    continue
                 meas_circuits = [
                     self._create_meas_circuit(basis, circ_ind) for basis in bases
                 ]
@@ -301,6 +307,8 @@ class Estimator(BaseEstimator):
             self._validate_parameter_length(param_val, circ_ind)
             parameter = self._parameters[circ_ind]
             for basis_ind in obs_maps[circ_ind][obs_ind]:
+                if basis_ind is None:  # identity
+                    continue
                 if (
                     circ_ind in exp_map
                     and basis_ind in exp_map[circ_ind]
-- 
2.43.0


From 1e3a71735169564b89d8634cc11658e6a9df9db8 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 06/20] fix: the estimator mixed up the results and parameter
 values of different measurement bases

---
 qdd/qdd_estimator.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 080f65c..e9ff5d2 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -324,20 +324,15 @@ class Estimator(BaseEstimator):
 
     @staticmethod
     def _flatten(experiments_dict, exp_map):
-        experiments_unsorted = {}
         experiments_list = []
         parameter_binds = []
-        for circ_ind in experiments_dict:
-            indices = []
+        for circ_ind in exp_map:
             for i, (parameters, param_vals) in exp_map[circ_ind].items():
                 for param_val in param_vals:
-                    experiments_unsorted[i] = experiments_dict[circ_ind][i]
-                    indices.append(i)
+                    experiments_list.append(experiments_dict[circ_ind][i])
                     parameter_binds.extend(
                         [{param: param_val[i] for i, param in enumerate(parameters)}]
                     )
-            for i in sorted(indices):
-                experiments_list.append(experiments_unsorted[i])
 
         return experiments_list, parameter_binds
 
@@ -388,7 +383,7 @@ class Estimator(BaseEstimator):
 
         result_index = 0
         for _circ_ind, basis_map in exp_map.items():
-            for _basis_ind, (_, (_, param_vals)) in enumerate(basis_map.items()):
+            for _basis_ind, (_, param_vals) in basis_map.items():
                 if circ_ind == _circ_ind and basis_ind == _basis_ind:
                     result_index += param_vals.index(param_val)
                     return result_index
-- 
2.43.0


From e353af2a0d9ddbea774fc56c7fcf97d48d04ee00 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 07/20] fix: Estimator(approximation=True) without run options
 raised TypeError

---
 qdd/qdd_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index e9ff5d2..1192690 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -113,7 +113,7 @@ class Estimator(BaseEstimator):
         if transpile_options is not None:
             self._transpile_options.update_options(**transpile_options)
         self._approximation = approximation
-        if self._approximation and "shots" in run_options:
+        if self._approximation and run_options and "shots" in run_options:
             self._approximation_shots = run_options["shots"]
         else:
             self._approximation_shots = None
-- 
2.43.0


From 52fdd9f8684c4a05cb2f1939e3c62fa2ff2202f1 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 08/20] fix: exact probabilities (shots=None) were indexed by
 qubits instead of the classical bits measured into

---
 qdd/qdd_backend.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 592b078..5c9221a 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -1018,9 +1018,18 @@ class QddBackend(BackendV1):
                             prob[i] *= 1 - prob_cbit[j]
                         else:
                             prob[i] *= prob_cbit[j]
+            measured = []
+            if circ_prop.stable_final_state:
+                measured = [
+                    (map_after_swap[self.get_qID(qubit)], self.get_cID(cbit))
+                    for cbit, qubit in circ_prop.clbit_final_values.items()
+                ]
             probabilities = {}
             for i, p in enumerate(prob):
-                probabilities[i] = p
+                if measured:
+                    # from the value of the qubits to the value of the classical bits they are measured into
+                    i = sum(((i >> qid) & 1) << cid for qid, cid in measured)
+                probabilities[i] = probabilities.get(i, 0) + p
             result_data: Dict[str, Any] = {"probabilities": probabilities}
             if self._save_SV:
                 result_data["statevector"] = (
-- 
2.43.0


From d1824cee0b4dc891b02755c219017002c2d138a3 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 09/20] fix: the shot count set on the backend was not
 validated, non-integers were accepted

---
 qdd/qdd_backend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 5c9221a..bb15fd5 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -5,6 +5,7 @@ import sys
 import uuid
 import dataclasses
 from collections import Counter
+from numbers import Integral
 from warnings import warn
 import time
 
@@ -321,7 +322,7 @@ class QddBackend(BackendV1):
             return QddFailedJob(self, job_id, result)
 
     def _run_internal(self, qiskit_circs: List[QiskitCircuit], **run_options) -> JobV1:
-        self._validate_run_options(run_options)
+        self._validate_run_options({"shots": self.options.shots, **run_options})
         actual_options = {
             "shots": run_options.get("shots", self.options.shots),
             "memory": run_options.get("memory", self.options.memory),
@@ -1153,7 +1154,7 @@ class QddBackend(BackendV1):
             shots = run_options["shots"]
             if shots is not None:
                 max_shots = QddBackend._DEFAULT_CONFIG["max_shots"]
-                if not (0 < shots <= max_shots):
+                if not (isinstance(shots, Integral) and 0 < shots <= max_shots):
                     raise RuntimeError(
                         f"Shots={shots} is specified, but #shots must be positive and <= {max_shots}"
                         f" when using {QddBackend.__name__}."
-- 
2.43.0


From a172fea5ad627db6c85d581f768549a9533d7c4c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 10/20] fix: circuits without a parameter binding were silently
 dropped from a batch

---
 qdd/qdd_backend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index bb15fd5..1e36907 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -343,6 +343,11 @@ class QddBackend(BackendV1):
         if ("parameter_binds" in run_options) and (
             run_options["parameter_binds"] is not None
         ):
+            if len(run_options["parameter_binds"]) != len(qiskit_circs):
+                raise RuntimeError(
+                    f"{len(run_options['parameter_binds'])} parameter bindings are specified"
+                    f" for {len(qiskit_circs)} circuits."
+                )
             param_bound_qiskit_circs = []
             for qiskit_circ, binds in zip(qiskit_circs, run_options["parameter_binds"]):
                 param_bound_qiskit_circs.append(qiskit_circ.assign_parameters(binds))
-- 
2.43.0


From fece9007f1e5b9e0cc53ea18146e9c66809e301a Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 11/20] fix: the option seed_simulator had no effect

---
 qdd/bindings.cpp   | 3 +++
 qdd/qdd_backend.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index 0f8c115..54cbe21 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -29,6 +29,8 @@ std::map<std::string, GateMatrix> gateMap{
 std::random_device rd;
 std::mt19937_64 mt(rd());
 
+void set_seed(uint64_t seed) { mt.seed(seed); }
+
 std::pair<vEdge, std::string> _measureAll(vEdge &rootEdge, bool collapse) {
     std::string result = measureAll(rootEdge, collapse, mt);
     return std::pair<vEdge, std::string>(rootEdge, result);
@@ -270,6 +272,7 @@ PYBIND11_MODULE(pyQDD, m) {
     // Measure
     m.def("measureAll", _measureAll)
         .def("measureOneCollapsing", _measureOneCollapsing);
+    m.def("set_seed", set_seed);
     m.def("getVector", _getVector);
     m.def("probabilities", _probabilities);
     m.def("measureOne", _measureOne);
diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 1e36907..b386cf2 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -382,6 +382,9 @@ class QddBackend(BackendV1):
             nt = pyQDD.initMT(experiments.options["n_threads"])
             print(nt, "threads")
 
+        if experiments.options["seed_simulator"] is not None:
+            pyQDD.set_seed(experiments.options["seed_simulator"])
+
         results = [
             self._evaluate_circuit(circ, circ_prop, experiments.options)
             for circ, circ_prop in zip(experiments.circs, experiments.circuit_props)
-- 
2.43.0


From c337dba2e14e4fea70a56586a55c74da869f2280 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 12/20] fix: merge_circuit ignored unsupported and conditional
 instructions and failed for unitary gates

---
 qdd/qdd_backend.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index b386cf2..8ddfd11 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -446,6 +446,10 @@ class QddBackend(BackendV1):
             if qiskit_gate_type == Measure:
                 continue
             assert len(cargs) == 0
+            if i.condition is not None:
+                raise RuntimeError(
+                    f"Conditional instruction {i.name} cannot be merged into an operator."
+                )
 
             if qiskit_gate_type in _supported_qiskit_gates:
                 if qiskit_gate_type in _qiskit_gates_1q:
@@ -490,18 +494,18 @@ class QddBackend(BackendV1):
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qiskit_gates_unitary:
                     matrix = i.to_matrix()
-                    targets = qargs
+                    targets = [self.get_qID(q) for q in qargs]
                     gate = pyQDD.unitary(n_qubit, matrix, targets)
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qdd_gate:
                     gate = i.params[0]
                     current = pyQDD.mm_multiply(gate, current)
-                else:
-                    raise RuntimeError(
-                        f"Unsupported gate or instruction:"
-                        f" type={qiskit_gate_type.__name__}, name={i.name}."
-                        f" It needs to transpile the circuit before evaluating it."
-                    )
+            else:
+                raise RuntimeError(
+                    f"Unsupported gate or instruction:"
+                    f" type={qiskit_gate_type.__name__}, name={i.name}."
+                    f" It needs to transpile the circuit before evaluating it."
+                )
 
             count += 1
             if self.options.show_progress and count % self.options.show_progress_frequency == 0:
-- 
2.43.0


From 3b3ee82d4343a9152b6f905ddbaec9a45a7c36e1 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 13/20] fix: open controls (ctrl_state) were treated as
 ordinary controls

---
 qdd/qdd_backend.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 8ddfd11..8e11611 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -13,7 +13,7 @@ from qiskit.providers import BackendV1, JobV1, Options, Provider
 from qiskit.providers.models import BackendConfiguration
 from qiskit import QuantumCircuit as QiskitCircuit
 from qiskit.result import Result
-from qiskit.circuit import Barrier, Clbit, Measure, Qubit, Reset
+from qiskit.circuit import Barrier, Clbit, ControlledGate, Measure, Qubit, Reset
 import qiskit.circuit.library as qiskit_gates
 from qiskit.circuit.library import Initialize
 from qiskit.transpiler import CouplingMap
@@ -430,6 +430,16 @@ class QddBackend(BackendV1):
     def get_cID(self, cbit):
         return self.cbitmap[cbit]
 
+    @staticmethod
+    def _apply_ctrl_state(gate, inst, n_qubit, controls):
+        """Makes the gate act on |0> of those controls that are open (ctrl_state)."""
+        if isinstance(inst, ControlledGate):
+            for j, control in enumerate(controls[: inst.num_ctrl_qubits]):
+                if not (inst.ctrl_state >> j) & 1:
+                    x = pyQDD.makeGate(n_qubit, "X", control)
+                    gate = pyQDD.mm_multiply(x, pyQDD.mm_multiply(gate, x))
+        return gate
+
     def merge_circuit(self, circ: QiskitCircuit, gc_freq=20):
         n_qubit = circ.num_qubits
         n_cbit = circ.num_clbits
@@ -475,6 +485,7 @@ class QddBackend(BackendV1):
                     gate = pyQDD.makeGate(
                         n_qubit, matrix, self.get_qID(qargs[-1]), controls
                     )
+                    gate = self._apply_ctrl_state(gate, i, n_qubit, controls)
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qiskit_gates_2q:
                     controls = []
@@ -491,6 +502,7 @@ class QddBackend(BackendV1):
                         self.get_qID(qargs[-2]),
                         controls,
                     )
+                    gate = self._apply_ctrl_state(gate, i, n_qubit, controls)
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qiskit_gates_unitary:
                     matrix = i.to_matrix()
@@ -800,6 +812,7 @@ class QddBackend(BackendV1):
                             map_after_swap[self.get_qID(qargs[-1])],
                             controls,
                         )
+                        gate = self._apply_ctrl_state(gate, i, n_qubit, controls)
                         current = (
                             pyQDD.mv_multiply(gate, current)
                             if use_mpi == False
@@ -840,6 +853,7 @@ class QddBackend(BackendV1):
                             map_after_swap[self.get_qID(qargs[-2])],
                             controls,
                         )
+                        gate = self._apply_ctrl_state(gate, i, n_qubit, controls)
                         current = (
                             pyQDD.mv_multiply(gate, current)
                             if use_mpi == False
-- 
2.43.0


From dd5c1abc7c27f690f7c052c3ff42e02279540cf1 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 14/20] fix: the qubit exchange looked at the wrong
 instructions and positions, so that the next operation was not always local

---
 qdd/qdd_backend.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 8e11611..1ccd301 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -728,6 +728,7 @@ class QddBackend(BackendV1):
             global_set, local_set = self.get_initial_qmap(circ.num_qubits, size_global)
             global_list = sorted(list(global_set))
             local_list = sorted(list(local_set))
+            map_after_swap = {x: x for x in range(circ.num_qubits)}
             count = 0
             val_cbit = ["0"] * n_cbit
             current = (
@@ -735,7 +736,7 @@ class QddBackend(BackendV1):
                 if use_mpi == False
                 else pyQDD.makeZeroStateMPI(n_qubit)
             )
-            for i, qargs, cargs in circ.data:
+            for pos, (i, qargs, cargs) in enumerate(circ.data):
                 skip = False
                 if i.condition is not None:
                     classical, val = i.condition
@@ -765,22 +766,23 @@ class QddBackend(BackendV1):
                     use_mpi
                     and use_auto_swap
                     and not all(
-                        [(map_after_swap[self.get_qID(i)] in local_set) for i in qargs]
+                        [(self.get_qID(i) in local_set) for i in qargs]
                     )
                     and swap_ver == "v2"
                 ):
                     current, global_set, local_set, map_after_swap = self.do_swap_v2(
-                        MPI, current, circ, count, local_set, map_after_swap, use_bcast
+                        MPI, current, circ, pos, local_set, map_after_swap, use_bcast
                     )
                 elif (
                     use_mpi
                     and use_auto_swap
+                    and swap_ver != "v2"
                     and not all(
-                        [(map_after_swap[self.get_qID(i)] in local_list) for i in qargs]
+                        [(self.get_qID(i) in local_list) for i in qargs]
                     )
                 ):
                     current, global_list, local_list, map_after_swap = self.do_swap_v1(
-                        MPI, current, circ, count, local_list, map_after_swap, use_bcast
+                        MPI, current, circ, pos, local_list, map_after_swap, use_bcast
                     )
 
                 if qiskit_gate_type in _supported_qiskit_gates:
@@ -910,6 +912,9 @@ class QddBackend(BackendV1):
                             current, map_after_swap = self.restore_swap(
                                MPI, current, circ, map_after_swap, use_bcast
                             )
+                            global_set, local_set = self.get_initial_qmap(n_qubit, size_global)
+                            global_list = sorted(list(global_set))
+                            local_list = sorted(list(local_set))
                         current = (pyQDD.mv_multiply(gate, current) if use_mpi == False
                              else (pyQDD.mv_multiply_MPI(gate, current, n_qubit, max([map_after_swap[self.get_qID(i)] for i in qargs]),) if use_bcast == False
                              else pyQDD.mv_multiply_MPI_bcast(gate, current, n_qubit, max([map_after_swap[self.get_qID(i)] for i in qargs]),)))
-- 
2.43.0


From bd3fbe88af9774c8bd6c8b003467b4e694a81f13 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 15/20] fix: a barrier after a measurement made the circuit
 count as dynamic, with wrong exact probabilities (shots=None)

---
 qdd/qdd_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 1ccd301..112173e 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -1141,7 +1141,7 @@ class QddBackend(BackendV1):
                 measured_qubits |= set(qargs)
                 if inst.condition is not None:
                     stable_final_state = False
-            elif (
+            elif inst.base_class != Barrier and (
                 inst.condition is not None
                 or any(qubit in measured_qubits for qubit in qargs)
                 or inst.base_class == Reset
-- 
2.43.0


From 82e13dbab353ded18bcafbeb07896be7cd21d7c3 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 16/20] fix: classical bits without a measurement counted as 1
 in the exact probabilities of dynamic circuits

---
 qdd/qdd_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 112173e..f494873 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -723,7 +723,7 @@ class QddBackend(BackendV1):
         if circ_prop.stable_final_state == False and isinstance(options["shots"], int):
             reps = options["shots"]
 
-        prob_cbit = [0] * n_cbit
+        prob_cbit = [1] * n_cbit  # probability of 0
         for shot in range(reps):
             global_set, local_set = self.get_initial_qmap(circ.num_qubits, size_global)
             global_list = sorted(list(global_set))
-- 
2.43.0


From a57557c9cb26c3461f14219971f6edee13f7d360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:04 +0000
Subject: [PATCH 17/20] fix: the blocks of an operator for distributed products
 ignored that identity nodes are not stored

---
 include/dd.h |  3 ++-
 src/dd.cpp   | 32 +++++++++++++++++++++++---------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/dd.h b/include/dd.h
index 500ed13..06c758b 100644
--- a/include/dd.h
+++ b/include/dd.h
@@ -454,7 +454,8 @@ mEdge makeLargeGate(QubitCount q, ComplexMatrix &g, const std::vector<Qubit> &ta
 mEdge makeLargeGate(ComplexMatrix &g, const Qubit level, const std::size_t rowStart, const std::size_t rowEnd,
                     const std::size_t colStart, const std::size_t colEnd, const std::vector<bool> skip, const Qubit target_min);
 
-mEdge getMPIGate(mEdge root, int row, int col, int world_size);
+mEdge getMPIGate(mEdge root, int row, int col, int world_size,
+                 int total_qubits = -1);
 
 mEdge mm_add(const mEdge &lhs, const mEdge &rhs);
 mEdge mm_multiply(const mEdge &lhs, const mEdge &rhs);
diff --git a/src/dd.cpp b/src/dd.cpp
index 9a3491a..6257774 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -601,8 +601,15 @@ mEdge makeLargeGate(ComplexMatrix &g, const Qubit level,
 }
 
 #ifdef isMPI
-mEdge getMPIGate(mEdge root, int row, int col, int world_size) {
-    if (root.isTerminal() || world_size <= 1) {
+mEdge getMPIGate(mEdge root, int row, int col, int world_size,
+                 int total_qubits) {
+    if (world_size <= 1 || root.w.isApproximatelyZero()) {
+        return root;
+    }
+    if (total_qubits < 0) {
+        total_qubits = root.getVar() + 1;
+    }
+    if (total_qubits == 0) {
         return root;
     }
 
@@ -624,9 +631,16 @@ mEdge getMPIGate(mEdge root, int row, int col, int world_size) {
     if (col >= border) {
         index += 1;
     }
-    mEdge tmp = root.getNode()->children[index];
-    tmp.w *= root.w;
-    return getMPIGate(tmp, row % border, col % border, border);
+    mEdge tmp = root;
+    if (root.getVar() == total_qubits - 1) {
+        tmp = root.getNode()->children[index];
+        tmp.w *= root.w;
+    } else if (index == 1 || index == 2) {
+        // Identity nodes are not stored
+        return mEdge::zero;
+    }
+    return getMPIGate(tmp, row % border, col % border, border,
+                      total_qubits - 1);
 }
 #endif
 
@@ -687,7 +701,7 @@ vEdge mv_multiply_MPI(mEdge lhs, vEdge rhs, bmpi::communicator &world,
     std::unordered_map<vNode *, int> rhs_map;
 
     send_data.first = rhs.w;
-    mEdge gate = getMPIGate(lhs, row, row, world_size);
+    mEdge gate = getMPIGate(lhs, row, row, world_size, total_qubits);
     vEdge result = mv_multiply(gate, rhs);
     if (largest_qubit < total_qubits - int(log2(world_size))) {
         return result;
@@ -705,7 +719,7 @@ vEdge mv_multiply_MPI(mEdge lhs, vEdge rhs, bmpi::communicator &world,
         send_reqs.push_back(world.isend(right_neighbor, i, send_data));
         world.recv(left_neighbor, i, recv_data);
         int col = (row - i + world.size()) % small_world_size + offset;
-        gate = getMPIGate(lhs, row, col, world_size);
+        gate = getMPIGate(lhs, row, col, world_size, total_qubits);
         // bmpi::wait_all(std::begin(recv_reqs), std::end(recv_reqs));
         vEdge received = {recv_data.first,
                           vec_to_vNode(recv_data.second, vUnique)};
@@ -827,7 +841,7 @@ vEdge mv_multiply_MPI_bcast3(mEdge lhs, vEdge rhs, bmpi::communicator &world,
     int right_neighbor = (world.rank() + 1) % world_size;
 
     // calculate initial result
-    mEdge gate = getMPIGate(lhs, row, row, world_size);
+    mEdge gate = getMPIGate(lhs, row, row, world_size, total_qubits);
     vEdge result = mv_multiply(gate, rhs);
     if (largest_qubit < total_qubits - int(log2(world_size))) {
         return result;
@@ -845,7 +859,7 @@ vEdge mv_multiply_MPI_bcast3(mEdge lhs, vEdge rhs, bmpi::communicator &world,
         } else {
             std::pair<std_complex, std::vector<vContent>> recv_data;
             bmpi::broadcast(world, recv_data, i);
-            gate = getMPIGate(lhs, row, i, world_size);
+            gate = getMPIGate(lhs, row, i, world_size, total_qubits);
             vEdge received = {recv_data.first,
                               vec_to_vNode(recv_data.second, vUnique)};
             result = vv_add(result, mv_multiply(gate, received));
-- 
2.43.0


From 6ab4e4c54f6545ba67d5b2e34d5309006e42235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:04 +0000
Subject: [PATCH 18/20] fix: distributed measurement took the wrong bit of the
 rank for qubits that select the process

---
 src/dd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 6257774..03772e9 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1754,7 +1754,7 @@ char measureOneCollapsingMPI(bmpi::communicator &world, vEdge &rootEdge,
     double p_each = assignProbabilities(rootEdge);
 
     if (index >= local_size) {
-        int id = (rank << index) & (1 << index);
+        int id = (rank >> (index - local_size)) & 1;
         if (id == 0) {
             pzero = p_each;
         } else {
@@ -1825,7 +1825,7 @@ double measureOneMPI(bmpi::communicator &world, vEdge &rootEdge,
     double p_each = assignProbabilities(rootEdge);
 
     if (index >= local_size) {
-        int id = (rank << index) & (1 << index);
+        int id = (rank >> (index - local_size)) & 1;
         if (id == 0) {
             pzero = p_each;
         } else {
-- 
2.43.0


From 40901b8bcaaf4684d95e608d6649c5b7856d5568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:32 +0000
Subject: [PATCH 19/20] fix: distributed probabilities were misaligned if the
 slice of a process is zero

---
 src/dd.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dd.cpp b/src/dd.cpp
index 03772e9..e731973 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1561,6 +1561,11 @@ std::vector<double> probabilitiesMPI(bmpi::communicator &world,
                       num = num * each_prob / all_prob;
                   });
 
+    // The slice of a process may be zero, without the nodes of its qubits
+    const std::size_t size = bmpi::all_reduce(
+        world, each_result.size(), bmpi::maximum<std::size_t>());
+    each_result.resize(size, 0.0);
+
     std::vector<std::vector<double>> all_result;
     bmpi::all_gather(world, each_result, all_result);
     auto final_result = flatten(all_result);
-- 
2.43.0


From 3a7155c03b24663cb0263d70f0a2dace516e67ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:02 +0000
Subject: [PATCH 20/20] fix: makeLargeGate accepted a 1x1 matrix with a
 non-empty target list

---
 src/dd.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index e731973..f08fddb 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -513,15 +513,15 @@ mEdge makeLargeGate(QubitCount q, ComplexMatrix &g,
         throw std::invalid_argument("The matrix must be square.");
     }
 
-    if (rows == 1) {
-        return mEdge{{g[0][0].real(), g[0][0].imag()}, mNode::terminal};
-    }
-
     if (int(log2(rows)) != targets.size()) {
         throw std::invalid_argument(
             "The number of targets is incompatible with the matrix size.");
     }
 
+    if (rows == 1) {
+        return mEdge{{g[0][0].real(), g[0][0].imag()}, mNode::terminal};
+    }
+
     // make conversion map of indices
     std::vector<size_t> target_compresed;
     for (int i = 0; i < targets.size(); i++) {
-- 
2.43.0

