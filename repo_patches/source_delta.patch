From c08e476b36af2d8c7645155ab7cdbc1ca778683d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:16 +0000
Subject: [PATCH 01/36] fix: reset the CZ circuit before the last interaction
 layer of the XZZX QEC round

---
 surface_sim/circuit_blocks/rot_surface_code_xzzx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
index 9c5df8b..f713fa5 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
@@ -196,7 +196,7 @@ def qec_round_iterator(
     yield model.tick()
 
     # g
-    cz_circit = Circuit()
+    cz_circuit = Circuit()
     interacted_qubits = set()
     for stab_type in stab_types:
         stab_qubits = layout.get_qubits(role="anc", stab_type=stab_type)
-- 
2.43.0


From d9fb2dc39171c0ea01b6e4bd282c615aad909ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:10 +0000
Subject: [PATCH 02/36] fix: relate measured stabilizer generators in the right
 order and modulo 2 when building detectors

---
 surface_sim/detectors/detectors.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index ad4f015..fb3c46e 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -541,14 +541,16 @@ def _get_ancilla_meas_for_detectors(
     """
     # matrix inversion is not possible in xarray,
     # thus go to np.ndarrays with correct order of columns and rows.
+    # The generators are related modulo 2, thus invert them in GF(2).
     anc_qubits = curr_gen.stab_gen.values.tolist()
-    curr_gen_arr = curr_gen.sel(stab_gen=anc_qubits).values
-    basis_arr = basis.sel(stab_gen=anc_qubits).values
-    prev_gen_arr = prev_gen.sel(stab_gen=anc_qubits).values
-
-    # convert self.prev_gen and self.curr_gen to the frame basis
-    curr_gen_arr = curr_gen_arr @ np.linalg.inv(basis_arr)
-    prev_gen_arr = prev_gen_arr @ np.linalg.inv(basis_arr)
+    curr_gen_arr = GF2(curr_gen.sel(stab_gen=anc_qubits).values)
+    basis_arr = GF2(basis.sel(stab_gen=anc_qubits).values)
+    prev_gen_arr = GF2(prev_gen.sel(stab_gen=anc_qubits).values)
+
+    # express the frame basis as a product of the generators that have been
+    # measured in the current and in the previous rounds
+    curr_gen_arr = basis_arr @ np.linalg.inv(curr_gen_arr)
+    prev_gen_arr = basis_arr @ np.linalg.inv(prev_gen_arr)
 
     # get all outcomes that need to be XORed
     detectors = {}
-- 
2.43.0


From 3cca9766b63cf912a1d7e4dbb3a9b9c76b879123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:42 +0000
Subject: [PATCH 03/36] fix: only compare ancilla outcomes measured since the
 activation of each ancilla

---
 surface_sim/detectors/detectors.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index fb3c46e..a6d94ed 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -558,14 +558,18 @@ def _get_ancilla_meas_for_detectors(
         c_gen_inds = np.where(c_gen)[0]
         p_gen_inds = np.where(p_gen)[0]
 
-        targets = [(anc_qubits[ind], -1) for ind in c_gen_inds]
-        if num_rounds[anc_qubit] >= 2:
-            targets += [(anc_qubits[ind], -2) for ind in p_gen_inds]
-
-        if not anc_reset_curr and num_rounds[anc_qubit] >= 2:
-            targets += [(anc_qubits[ind], -2) for ind in c_gen_inds]
-        if not anc_reset_prev and num_rounds[anc_qubit] >= 3:
-            targets += [(anc_qubits[ind], -3) for ind in p_gen_inds]
+        c_gen_ancs = [anc_qubits[ind] for ind in c_gen_inds]
+        p_gen_ancs = [anc_qubits[ind] for ind in p_gen_inds]
+
+        # an outcome from a previous round is only available if that ancilla
+        # has been measured since its activation
+        targets = [(anc, -1) for anc in c_gen_ancs]
+        targets += [(anc, -2) for anc in p_gen_ancs if num_rounds[anc] >= 2]
+
+        if not anc_reset_curr:
+            targets += [(anc, -2) for anc in c_gen_ancs if num_rounds[anc] >= 2]
+        if not anc_reset_prev:
+            targets += [(anc, -3) for anc in p_gen_ancs if num_rounds[anc] >= 3]
 
         detectors[anc_qubit] = targets
 
-- 
2.43.0


From 26a4943473d545bcfbe49e9b78fb1f2e6f30a4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:37 +0000
Subject: [PATCH 04/36] fix: keep the stabilizer generators invertible when
 deactivating detectors

---
 surface_sim/detectors/detectors.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index a6d94ed..19b41c9 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -134,19 +134,21 @@ class Detectors:
 
             self.anc_qubits[anc] = False
 
-            # set the generators to the identity for the deactivated ancillas.
-            # See #149 for more information.
-            for other_anc in self.anc_qubit_labels:
-                anc_ind = self.anc_qubit_labels.index(anc)
-                other_anc_ind = self.anc_qubit_labels.index(other_anc)
-                if other_anc == anc:
-                    self.curr_gen.loc[dict(stab_gen=anc, basis=anc_ind)] = 1
-                    self.prev_gen.loc[dict(stab_gen=anc, basis=anc_ind)] = 1
-                else:
-                    self.curr_gen.loc[dict(stab_gen=other_anc, basis=anc_ind)] = 0
-                    self.curr_gen.loc[dict(stab_gen=anc, basis=other_anc_ind)] = 0
-                    self.prev_gen.loc[dict(stab_gen=other_anc, basis=anc_ind)] = 0
-                    self.prev_gen.loc[dict(stab_gen=anc, basis=other_anc_ind)] = 0
+        # Set the generators to the identity for the deactivated ancillas.
+        # See #149 for more information.
+        # This cannot be done on the accumulated generators because the resulting
+        # matrices could be singular. Only the transformation since the last
+        # measured round matters, thus the generators are expressed relative to it.
+        labels = list(self.anc_qubit_labels)
+        inds = [labels.index(anc) for anc in anc_qubits]
+        prev_gen = GF2(self.prev_gen.sel(stab_gen=labels).values)
+        curr_gen = GF2(self.curr_gen.sel(stab_gen=labels).values)
+        rel_gen = (curr_gen @ np.linalg.inv(prev_gen)).view(np.ndarray)
+        rel_gen[inds, :] = 0
+        rel_gen[:, inds] = 0
+        rel_gen[inds, inds] = 1
+        self.prev_gen = deepcopy(self.init_gen)
+        self.curr_gen = self.init_gen.copy(data=rel_gen.astype(np.int64))
 
         return
 
-- 
2.43.0


From 25e2c4298e7d08f1b067a014cdd5c6eb6af01850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:34 +0000
Subject: [PATCH 05/36] fix: validate detector requests completely and before
 changing any state

---
 surface_sim/detectors/detectors.py | 31 +++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index 19b41c9..e2a30c5 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -103,15 +103,16 @@ class Detectors:
             raise TypeError(
                 f"'anc_qubits' must be an Iterable, but {type(anc_qubits)} was given."
             )
-        if set(anc_qubits) > set(self.anc_qubits):
+        anc_qubits = list(anc_qubits)
+        if not (set(anc_qubits) <= set(self.anc_qubits)):
             raise ValueError(
                 "Elements in 'anc_qubits' are not ancilla qubits in this object."
             )
-
         for anc in anc_qubits:
             if self.anc_qubits[anc]:
                 raise ValueError(f"Ancilla {anc} was already active.")
 
+        for anc in anc_qubits:
             self.anc_qubits[anc] = True
             self.num_rounds[anc] = 0
 
@@ -123,15 +124,16 @@ class Detectors:
             raise TypeError(
                 f"'anc_qubits' must be an Iterable, but {type(anc_qubits)} was given."
             )
-        if set(anc_qubits) > set(self.anc_qubits):
+        anc_qubits = list(anc_qubits)
+        if not (set(anc_qubits) <= set(self.anc_qubits)):
             raise ValueError(
                 "Elements in 'anc_qubits' are not ancilla qubits in this object."
             )
-
         for anc in anc_qubits:
             if not self.anc_qubits[anc]:
-                raise ValueError(f"Ancilla {anc} was already active.")
+                raise ValueError(f"Ancilla {anc} was not active.")
 
+        for anc in anc_qubits:
             self.anc_qubits[anc] = False
 
         # Set the generators to the identity for the deactivated ancillas.
@@ -178,7 +180,7 @@ class Detectors:
             )
         if any(not isinstance(s, Iterable) for s in new_stab_gens.values()):
             raise TypeError("Elements in 'new_stab_gens' must be lists.")
-        if set(new_stab_gens) > set(self.anc_qubit_labels):
+        if not (set(new_stab_gens) <= set(self.anc_qubit_labels)):
             raise ValueError(
                 "Elements in 'new_stab_gens' are not ancilla qubits in this Detectors class."
             )
@@ -307,8 +309,8 @@ class Detectors:
             anc_qubits = self.curr_gen.stab_gen.values.tolist()
         anc_qubits = [a for a in anc_qubits if self.anc_qubits[a]]
 
-        self.total_num_rounds += 1
-        self.num_rounds = {
+        total_num_rounds = self.total_num_rounds + 1
+        num_rounds = {
             anc: self.num_rounds[anc] + 1 if active else self.num_rounds[anc]
             for anc, active in self.anc_qubits.items()
         }
@@ -320,7 +322,7 @@ class Detectors:
                 self.curr_gen,
                 self.prev_gen,
                 basis=basis,
-                num_rounds=self.num_rounds,
+                num_rounds=num_rounds,
                 anc_reset_curr=anc_reset,
                 anc_reset_prev=anc_reset,
             )
@@ -329,7 +331,7 @@ class Detectors:
             detectors = {}
             for anc in anc_detector_labels:
                 dets = [(anc, -1)]
-                if meas_comp + self.num_rounds[anc] >= 0:
+                if meas_comp + num_rounds[anc] >= 0:
                     dets.append((anc, meas_comp))
                 detectors[anc] = dets
 
@@ -344,13 +346,15 @@ class Detectors:
             else:
                 # create the detector but make it be always 0
                 detectors_rec = []
-            coords = [*self.anc_coords[anc], self.total_num_rounds - 1]
+            coords = [*self.anc_coords[anc], total_num_rounds - 1]
             instr = stim.CircuitInstruction(
                 "DETECTOR", gate_args=coords, targets=detectors_rec
             )
             detectors_stim.append(instr)
 
-        # update generators
+        # update rounds and generators
+        self.total_num_rounds = total_num_rounds
+        self.num_rounds = num_rounds
         self.prev_gen = deepcopy(self.curr_gen)
 
         return detectors_stim
@@ -408,7 +412,8 @@ class Detectors:
             raise TypeError(
                 f"'anc_support' must be a dict, but {type(anc_support)} was given."
             )
-        if set(anc_support) < set(reconstructable_stabs):
+        reconstructable_stabs = list(reconstructable_stabs)
+        if not (set(reconstructable_stabs) <= set(anc_support)):
             raise ValueError(
                 "Elements in 'reconstructable_stabs' must be present in 'anc_support'."
             )
-- 
2.43.0


From 7b8119232fd09bdea568b5991e1ea73230b6a59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:40 +0000
Subject: [PATCH 06/36] fix: resolve parent parameters for the same qubits in
 Setup.param

---
 surface_sim/setup/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/setup/setup.py b/surface_sim/setup/setup.py
index 7dd8f72..5ad80e2 100644
--- a/surface_sim/setup/setup.py
+++ b/surface_sim/setup/setup.py
@@ -226,7 +226,7 @@ class Setup:
             return self._eval_param_val(val)
 
         if param in self.PARENTS:
-            return self.param(self.PARENTS[param])
+            return self.param(self.PARENTS[param], *qubits)
 
         if qubits:
             qubit_str = ", ".join(qubits)
-- 
2.43.0


From 5f958bd45b3b59099bbb24895c3cf75cb2d57326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:08 +0000
Subject: [PATCH 07/36] fix: allow setting a parameter of a qubit without
 previous parameters

---
 surface_sim/setup/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/setup/setup.py b/surface_sim/setup/setup.py
index 5ad80e2..1adc671 100644
--- a/surface_sim/setup/setup.py
+++ b/surface_sim/setup/setup.py
@@ -196,7 +196,7 @@ class Setup:
         else:
             if any(not isinstance(q, str) for q in qubits):
                 raise TypeError("All qubits must be str.")
-            self._qubit_params[qubits][param] = param_val
+            self._qubit_params.setdefault(qubits, {})[param] = param_val
 
     def param(self, param: str, *qubits: str) -> float:
         """Returns the value of the given parameter for the specified qubit(s).
-- 
2.43.0


From 81ebb27afd2ea097e04b39bf707014f1fcd80d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:38 +0000
Subject: [PATCH 08/36] fix: return an independent dictionary in Setup.to_dict

---
 surface_sim/setup/setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_sim/setup/setup.py b/surface_sim/setup/setup.py
index 1adc671..dbbc449 100644
--- a/surface_sim/setup/setup.py
+++ b/surface_sim/setup/setup.py
@@ -98,11 +98,11 @@ class Setup:
 
         setup["name"] = self.name
         setup["description"] = self.description
-        setup["gate_durations"] = self._gate_durations
+        setup["gate_durations"] = deepcopy(self._gate_durations)
 
         qubit_params = []
         if self._global_params:
-            qubit_params.append(self._global_params)
+            qubit_params.append(deepcopy(self._global_params))
 
         for qubits, params in self._qubit_params.items():
             params_copy = deepcopy(params)
-- 
2.43.0


From 88cbb30389b16d555a0cd107c3ef632ff1389789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:52 +0000
Subject: [PATCH 09/36] fix: measure in the Y basis in
 BiasedCircuitNoiseModel.measure_y

---
 surface_sim/models/library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_sim/models/library.py b/surface_sim/models/library.py
index 209532f..9696bf2 100644
--- a/surface_sim/models/library.py
+++ b/surface_sim/models/library.py
@@ -411,9 +411,9 @@ class BiasedCircuitNoiseModel(Model):
             self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
-                circ.append(CircuitInstruction("MX", [ind], [prob]))
+                circ.append(CircuitInstruction("MY", [ind], [prob]))
             else:
-                circ.append(CircuitInstruction("MX", [ind]))
+                circ.append(CircuitInstruction("MY", [ind]))
 
         return circ
 
-- 
2.43.0


From 5948f785357f06c21c298a004674a36731277e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:20 +0000
Subject: [PATCH 10/36] fix: use qubit indices and assignment errors in the
 asymmetric measurements of DecoherenceNoiseModel

---
 surface_sim/models/library.py | 42 ++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/surface_sim/models/library.py b/surface_sim/models/library.py
index 9696bf2..480b387 100644
--- a/surface_sim/models/library.py
+++ b/surface_sim/models/library.py
@@ -561,8 +561,18 @@ class DecoherenceNoiseModel(Model):
             for qubit in qubits:
                 self.add_meas(qubit)
 
-                circ.append(CircuitInstruction(name, targets=[qubit]))
-                circ += self.idle(qubit, duration)
+                if self.param("assign_error_flag", qubit):
+                    prob = self.param("assign_error_prob", qubit)
+                    circ.append(
+                        CircuitInstruction(
+                            name, targets=self.get_inds([qubit]), gate_args=[prob]
+                        )
+                    )
+                else:
+                    circ.append(
+                        CircuitInstruction(name, targets=self.get_inds([qubit]))
+                    )
+                circ += self.idle([qubit], duration)
         return circ
 
     def measure_x(self, qubits: Iterable[str]) -> Circuit:
@@ -593,8 +603,18 @@ class DecoherenceNoiseModel(Model):
             for qubit in qubits:
                 self.add_meas(qubit)
 
-                circ.append(CircuitInstruction(name, targets=[qubit]))
-                circ += self.idle(qubit, duration)
+                if self.param("assign_error_flag", qubit):
+                    prob = self.param("assign_error_prob", qubit)
+                    circ.append(
+                        CircuitInstruction(
+                            name, targets=self.get_inds([qubit]), gate_args=[prob]
+                        )
+                    )
+                else:
+                    circ.append(
+                        CircuitInstruction(name, targets=self.get_inds([qubit]))
+                    )
+                circ += self.idle([qubit], duration)
         return circ
 
     def measure_y(self, qubits: Iterable[str]) -> Circuit:
@@ -625,8 +645,18 @@ class DecoherenceNoiseModel(Model):
             for qubit in qubits:
                 self.add_meas(qubit)
 
-                circ.append(CircuitInstruction(name, targets=[qubit]))
-                circ += self.idle(qubit, duration)
+                if self.param("assign_error_flag", qubit):
+                    prob = self.param("assign_error_prob", qubit)
+                    circ.append(
+                        CircuitInstruction(
+                            name, targets=self.get_inds([qubit]), gate_args=[prob]
+                        )
+                    )
+                else:
+                    circ.append(
+                        CircuitInstruction(name, targets=self.get_inds([qubit]))
+                    )
+                circ += self.idle([qubit], duration)
         return circ
 
     def reset(self, qubits: Iterable[str]) -> Circuit:
-- 
2.43.0


From aa8ef8c2a0cbe2c1996cc595f48c9ece30f8867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:13 +0000
Subject: [PATCH 11/36] fix: reject unknown ancillas in 'anc_detectors' before
 building the circuit

---
 surface_sim/circuit_blocks/rot_surface_code_css.py   | 12 ++++++------
 .../circuit_blocks/rot_surface_code_css_pipelined.py | 12 ++++++------
 surface_sim/circuit_blocks/rot_surface_code_xzzx.py  | 12 ++++++------
 .../circuit_blocks/rot_surface_code_xzzx_google.py   |  6 +++++-
 .../rot_surface_code_xzzx_pipelined.py               | 12 ++++++------
 surface_sim/circuit_blocks/unrot_surface_code_css.py | 12 ++++++------
 surface_sim/circuit_blocks/util.py                   |  4 ++--
 surface_sim/util/circuit_operations.py               |  4 ++--
 8 files changed, 39 insertions(+), 35 deletions(-)

diff --git a/surface_sim/circuit_blocks/rot_surface_code_css.py b/surface_sim/circuit_blocks/rot_surface_code_css.py
index 55f09fd..faa1e7a 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_css.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_css.py
@@ -66,18 +66,18 @@ def qec_round(
 
     https://doi.org/10.1103/PhysRevApplied.8.034021
     """
+    anc_qubits = layout.get_qubits(role="anc")
+    if anc_detectors is None:
+        anc_detectors = anc_qubits
+    if not (set(anc_detectors) <= set(anc_qubits)):
+        raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
+
     circuit = sum(
         qec_round_iterator(model=model, layout=layout, anc_reset=anc_reset),
         start=Circuit(),
     )
 
     # add detectors
-    anc_qubits = layout.get_qubits(role="anc")
-    if anc_detectors is None:
-        anc_detectors = anc_qubits
-    if set(anc_detectors) > set(anc_qubits):
-        raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
-
     circuit += detectors.build_from_anc(
         model.meas_target, anc_reset, anc_qubits=anc_detectors
     )
diff --git a/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py b/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py
index 43a8907..6850a63 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py
@@ -66,18 +66,18 @@ def qec_round(
 
     https://doi.org/10.1103/PhysRevApplied.8.034021
     """
+    anc_qubits = layout.get_qubits(role="anc")
+    if anc_detectors is None:
+        anc_detectors = anc_qubits
+    if not (set(anc_detectors) <= set(anc_qubits)):
+        raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
+
     circuit = sum(
         qec_round_iterator(model=model, layout=layout, anc_reset=anc_reset),
         start=Circuit(),
     )
 
     # add detectors
-    anc_qubits = layout.get_qubits(role="anc")
-    if anc_detectors is None:
-        anc_detectors = anc_qubits
-    if set(anc_detectors) > set(anc_qubits):
-        raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
-
     circuit += detectors.build_from_anc(
         model.meas_target, anc_reset, anc_qubits=anc_detectors
     )
diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
index f713fa5..3e14c31 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
@@ -59,18 +59,18 @@ def qec_round(
 
     https://doi.org/10.1103/PhysRevApplied.8.034021
     """
+    anc_qubits = layout.get_qubits(role="anc")
+    if anc_detectors is None:
+        anc_detectors = anc_qubits
+    if not (set(anc_detectors) <= set(anc_qubits)):
+        raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
+
     circuit = sum(
         qec_round_iterator(model=model, layout=layout, anc_reset=anc_reset),
         start=Circuit(),
     )
 
     # add detectors
-    anc_qubits = layout.get_qubits(role="anc")
-    if anc_detectors is None:
-        anc_detectors = anc_qubits
-    if set(anc_detectors) > set(anc_qubits):
-        raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
-
     circuit += detectors.build_from_anc(
         model.meas_target, anc_reset, anc_qubits=anc_detectors
     )
diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
index 384bb93..ebb0df9 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
@@ -63,7 +63,7 @@ def qec_round_with_log_meas(
         )
     if anc_detectors is None:
         anc_detectors = layout.get_qubits(role="anc")
-    if set(anc_detectors) > set(layout.get_qubits(role="anc")):
+    if not (set(anc_detectors) <= set(layout.get_qubits(role="anc"))):
         raise ValueError("Some of the given 'anc_qubits' are not ancilla qubits.")
 
     anc_qubits = layout.get_qubits(role="anc")
@@ -244,6 +244,10 @@ def qec_round(
 
     data_qubits = layout.get_qubits(role="data")
     anc_qubits = layout.get_qubits(role="anc")
+    if anc_detectors is None:
+        anc_detectors = anc_qubits
+    if not (set(anc_detectors) <= set(anc_qubits)):
+        raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
 
     # a-h
     circuit = coherent_qec_part(model=model, layout=layout)
diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py
index 8e30bca..fabb3fb 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py
@@ -60,18 +60,18 @@ def qec_round(
 
     https://doi.org/10.1103/PhysRevApplied.8.034021
     """
+    anc_qubits = layout.get_qubits(role="anc")
+    if anc_detectors is None:
+        anc_detectors = anc_qubits
+    if not (set(anc_detectors) <= set(anc_qubits)):
+        raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
+
     circuit = sum(
         qec_round_iterator(model=model, layout=layout, anc_reset=anc_reset),
         start=Circuit(),
     )
 
     # add detectors
-    anc_qubits = layout.get_qubits(role="anc")
-    if anc_detectors is None:
-        anc_detectors = anc_qubits
-    if set(anc_detectors) > set(anc_qubits):
-        raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
-
     circuit += detectors.build_from_anc(
         model.meas_target, anc_reset, anc_qubits=anc_detectors
     )
diff --git a/surface_sim/circuit_blocks/unrot_surface_code_css.py b/surface_sim/circuit_blocks/unrot_surface_code_css.py
index 3f9872b..3c22ea5 100644
--- a/surface_sim/circuit_blocks/unrot_surface_code_css.py
+++ b/surface_sim/circuit_blocks/unrot_surface_code_css.py
@@ -68,18 +68,18 @@ def qec_round(
 
     https://doi.org/10.1103/PhysRevApplied.8.034021
     """
+    anc_qubits = layout.get_qubits(role="anc")
+    if anc_detectors is None:
+        anc_detectors = anc_qubits
+    if not (set(anc_detectors) <= set(anc_qubits)):
+        raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
+
     circuit = sum(
         qec_round_iterator(model=model, layout=layout, anc_reset=anc_reset),
         start=Circuit(),
     )
 
     # add detectors
-    anc_qubits = layout.get_qubits(role="anc")
-    if anc_detectors is None:
-        anc_detectors = anc_qubits
-    if set(anc_detectors) > set(anc_qubits):
-        raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
-
     circuit += detectors.build_from_anc(
         model.meas_target, anc_reset, anc_qubits=anc_detectors
     )
diff --git a/surface_sim/circuit_blocks/util.py b/surface_sim/circuit_blocks/util.py
index fda1c87..3f0d9b7 100644
--- a/surface_sim/circuit_blocks/util.py
+++ b/surface_sim/circuit_blocks/util.py
@@ -56,7 +56,7 @@ def log_meas(
     anc_qubits = layout.get_qubits(role="anc")
     if anc_detectors is None:
         anc_detectors = anc_qubits
-    if set(anc_detectors) > set(anc_qubits):
+    if not (set(anc_detectors) <= set(anc_qubits)):
         raise ValueError("Some of the given 'anc_qubits' are not ancilla qubits.")
 
     circuit = sum(
@@ -499,7 +499,7 @@ def log_meas_xzzx(
 
     if anc_detectors is None:
         anc_detectors = layout.get_qubits(role="anc")
-    if set(anc_detectors) > set(layout.get_qubits(role="anc")):
+    if not (set(anc_detectors) <= set(layout.get_qubits(role="anc"))):
         raise ValueError("Some of the given 'anc_qubits' are not ancilla qubits.")
 
     circuit = sum(
diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index c9fd819..6f4c650 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -170,7 +170,7 @@ def merge_qec_rounds(
         )
     if anc_detectors is not None:
         anc_qubits = [l.get_qubits(role="anc") for l in layouts]
-        if set(anc_detectors) > set(sum(anc_qubits, start=[])):
+        if not (set(anc_detectors) <= set(sum(anc_qubits, start=[]))):
             raise ValueError("Some elements in 'anc_detectors' are not ancilla qubits.")
 
     circuit = stim.Circuit()
@@ -274,7 +274,7 @@ def merge_log_meas(
 
     if anc_detectors is not None:
         anc_qubits = [l.get_qubits(role="anc") for l in layouts]
-        if set(anc_detectors) > set(sum(anc_qubits, start=[])):
+        if not (set(anc_detectors) <= set(sum(anc_qubits, start=[]))):
             raise ValueError("Some elements in 'anc_detectors' are not ancilla qubits.")
 
     circuit = stim.Circuit()
-- 
2.43.0


From 780effbf4c53e8740d02f4c087fa4262e8ebe18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:53 +0000
Subject: [PATCH 12/36] fix: deactivate the detectors of the measured layouts
 in merge_log_meas

---
 surface_sim/util/circuit_operations.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index 6f4c650..4182ddc 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -324,4 +324,10 @@ def merge_log_meas(
             )
             circuit.append(instr)
 
+    # deactivate detectors
+    anc_qubits = set(a for l in layouts for a in l.get_qubits(role="anc"))
+    detectors.deactivate_detectors(
+        [a for a, active in detectors.anc_qubits.items() if active and a in anc_qubits]
+    )
+
     return circuit
-- 
2.43.0


From 74859561dc9363f2fbcda9c8454b38c5be8d4d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:34 +0000
Subject: [PATCH 13/36] fix: alternate the CNOT orientation in every gate of
 repeated_cnot_experiment

---
 surface_sim/experiments/rot_surface_code_css.py   | 6 +++---
 surface_sim/experiments/unrot_surface_code_css.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/surface_sim/experiments/rot_surface_code_css.py b/surface_sim/experiments/rot_surface_code_css.py
index 3d0b794..cf64200 100644
--- a/surface_sim/experiments/rot_surface_code_css.py
+++ b/surface_sim/experiments/rot_surface_code_css.py
@@ -308,9 +308,9 @@ def repeated_cnot_experiment(
     for k in range(num_cnot_gates):
         if (cnot_orientation == "alternating") and (k % 2 == 1):
             # change control and target of t-CNOT
-            layout_c, layout_t = layout_t, layout_c
-
-        experiment += log_trans_cnot(model, layout_c, layout_t, detectors)
+            experiment += log_trans_cnot(model, layout_t, layout_c, detectors)
+        else:
+            experiment += log_trans_cnot(model, layout_c, layout_t, detectors)
 
         for _ in range(num_rounds_per_gate):
             experiment += merge_qec_rounds(
diff --git a/surface_sim/experiments/unrot_surface_code_css.py b/surface_sim/experiments/unrot_surface_code_css.py
index 360672a..8be8b72 100644
--- a/surface_sim/experiments/unrot_surface_code_css.py
+++ b/surface_sim/experiments/unrot_surface_code_css.py
@@ -403,9 +403,9 @@ def repeated_cnot_experiment(
     for k in range(num_cnot_gates):
         if (cnot_orientation == "alternating") and (k % 2 == 1):
             # change control and target of t-CNOT
-            layout_c, layout_t = layout_t, layout_c
-
-        experiment += log_trans_cnot(model, layout_c, layout_t, detectors)
+            experiment += log_trans_cnot(model, layout_t, layout_c, detectors)
+        else:
+            experiment += log_trans_cnot(model, layout_c, layout_t, detectors)
 
         for _ in range(num_rounds_per_gate):
             experiment += merge_qec_rounds(
-- 
2.43.0


From c1eb785214c7919161096e5a8aad7271212b4886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:34 +0000
Subject: [PATCH 14/36] fix: reject the first non-existing measurement index in
 Model.meas_target

---
 surface_sim/models/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/models/model.py b/surface_sim/models/model.py
index 3034282..1315e93 100644
--- a/surface_sim/models/model.py
+++ b/surface_sim/models/model.py
@@ -84,7 +84,7 @@ class Model(object):
         rounds (or some linear combination of syndrome outcomes).
         """
         num_meas_qubit = len(self._meas_order[qubit])
-        if (rel_meas_ind > num_meas_qubit) or (rel_meas_ind < -num_meas_qubit):
+        if (rel_meas_ind >= num_meas_qubit) or (rel_meas_ind < -num_meas_qubit):
             raise ValueError(
                 f"{qubit} has only {num_meas_qubit} measurements, but {rel_meas_ind} was accessed."
             )
-- 
2.43.0


From dbbabb09fd51c3c8a5581160a654f9ea17c90b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:51 +0000
Subject: [PATCH 15/36] fix: do not record measurements of a rejected request
 in the noise models

---
 surface_sim/models/library.py | 48 +++++++++++++++--------------------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/surface_sim/models/library.py b/surface_sim/models/library.py
index 480b387..f46806c 100644
--- a/surface_sim/models/library.py
+++ b/surface_sim/models/library.py
@@ -558,20 +558,16 @@ class DecoherenceNoiseModel(Model):
         else:
             duration = self.gate_duration(name)
 
-            for qubit in qubits:
+            for qubit, ind in zip(qubits, self.get_inds(qubits)):
                 self.add_meas(qubit)
 
                 if self.param("assign_error_flag", qubit):
                     prob = self.param("assign_error_prob", qubit)
                     circ.append(
-                        CircuitInstruction(
-                            name, targets=self.get_inds([qubit]), gate_args=[prob]
-                        )
+                        CircuitInstruction(name, targets=[ind], gate_args=[prob])
                     )
                 else:
-                    circ.append(
-                        CircuitInstruction(name, targets=self.get_inds([qubit]))
-                    )
+                    circ.append(CircuitInstruction(name, targets=[ind]))
                 circ += self.idle([qubit], duration)
         return circ
 
@@ -600,20 +596,16 @@ class DecoherenceNoiseModel(Model):
         else:
             duration = self.gate_duration(name)
 
-            for qubit in qubits:
+            for qubit, ind in zip(qubits, self.get_inds(qubits)):
                 self.add_meas(qubit)
 
                 if self.param("assign_error_flag", qubit):
                     prob = self.param("assign_error_prob", qubit)
                     circ.append(
-                        CircuitInstruction(
-                            name, targets=self.get_inds([qubit]), gate_args=[prob]
-                        )
+                        CircuitInstruction(name, targets=[ind], gate_args=[prob])
                     )
                 else:
-                    circ.append(
-                        CircuitInstruction(name, targets=self.get_inds([qubit]))
-                    )
+                    circ.append(CircuitInstruction(name, targets=[ind]))
                 circ += self.idle([qubit], duration)
         return circ
 
@@ -642,20 +634,16 @@ class DecoherenceNoiseModel(Model):
         else:
             duration = self.gate_duration(name)
 
-            for qubit in qubits:
+            for qubit, ind in zip(qubits, self.get_inds(qubits)):
                 self.add_meas(qubit)
 
                 if self.param("assign_error_flag", qubit):
                     prob = self.param("assign_error_prob", qubit)
                     circ.append(
-                        CircuitInstruction(
-                            name, targets=self.get_inds([qubit]), gate_args=[prob]
-                        )
+                        CircuitInstruction(name, targets=[ind], gate_args=[prob])
                     )
                 else:
-                    circ.append(
-                        CircuitInstruction(name, targets=self.get_inds([qubit]))
-                    )
+                    circ.append(CircuitInstruction(name, targets=[ind]))
                 circ += self.idle([qubit], duration)
         return circ
 
@@ -966,24 +954,30 @@ class NoiselessModel(Model):
         return circ
 
     def measure(self, qubits: Iterable[str]) -> Circuit:
+        qubits = list(qubits)
+        inds = self.get_inds(qubits)
         circ = Circuit()
-        for qubit in qubits:
+        for qubit, ind in zip(qubits, inds):
             self.add_meas(qubit)
-            circ.append(CircuitInstruction("M", self.get_inds([qubit])))
+            circ.append(CircuitInstruction("M", [ind]))
         return circ
 
     def measure_x(self, qubits: Iterable[str]) -> Circuit:
+        qubits = list(qubits)
+        inds = self.get_inds(qubits)
         circ = Circuit()
-        for qubit in qubits:
+        for qubit, ind in zip(qubits, inds):
             self.add_meas(qubit)
-            circ.append(CircuitInstruction("MX", self.get_inds([qubit])))
+            circ.append(CircuitInstruction("MX", [ind]))
         return circ
 
     def measure_y(self, qubits: Iterable[str]) -> Circuit:
+        qubits = list(qubits)
+        inds = self.get_inds(qubits)
         circ = Circuit()
-        for qubit in qubits:
+        for qubit, ind in zip(qubits, inds):
             self.add_meas(qubit)
-            circ.append(CircuitInstruction("MY", self.get_inds([qubit])))
+            circ.append(CircuitInstruction("MY", [ind]))
         return circ
 
     def reset(self, qubits: Iterable[str]) -> Circuit:
-- 
2.43.0


From 791ea7566b345ced02d2c278ab108289dae5bc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:02 +0000
Subject: [PATCH 16/36] fix: order the coordinates when indexing them for the
 expansion matrix

---
 surface_sim/layouts/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/layouts/layout.py b/surface_sim/layouts/layout.py
index cb790a5..5415d5b 100644
--- a/surface_sim/layouts/layout.py
+++ b/surface_sim/layouts/layout.py
@@ -549,7 +549,7 @@ def index_coords(coords: list[int], reverse: bool = False) -> tuple[list[int], i
     tuple[list[int], int]
         The list of indexed coordinates and the number of unique coordinates.
     """
-    unique_vals = set(coords)
+    unique_vals = sorted(set(coords))
     num_unique_vals = len(unique_vals)
 
     if reverse:
-- 
2.43.0


From f1562637f09b24e05cd02978f6873f84146cdbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:34 +0000
Subject: [PATCH 17/36] fix: idle the data qubits that do not take part in the
 logical gates of the XZZX blocks

---
 surface_sim/circuit_blocks/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/surface_sim/circuit_blocks/util.py b/surface_sim/circuit_blocks/util.py
index 3f0d9b7..be7541f 100644
--- a/surface_sim/circuit_blocks/util.py
+++ b/surface_sim/circuit_blocks/util.py
@@ -591,6 +591,7 @@ def log_x_xzzx_iterator(model: Model, layout: Layout) -> Iterator[Circuit]:
     """
     anc_qubits = layout.get_qubits(role="anc")
     data_qubits = layout.get_qubits(role="data")
+    qubits = anc_qubits + data_qubits
 
     log_qubit_label = layout.get_logical_qubits()[0]
     log_x_qubits = layout.log_x[log_qubit_label]
@@ -606,7 +607,8 @@ def log_x_xzzx_iterator(model: Model, layout: Layout) -> Iterator[Circuit]:
     pauli_z = set(d for d in log_x_qubits if d in rot_qubits)
     pauli_x = set(log_x_qubits) - pauli_z
 
-    yield model.x_gate(pauli_x) + model.z_gate(pauli_z) + model.idle(anc_qubits)
+    idle_qubits = set(qubits) - set(log_x_qubits)
+    yield model.x_gate(pauli_x) + model.z_gate(pauli_z) + model.idle(idle_qubits)
     yield model.tick()
 
 
@@ -626,6 +628,7 @@ def log_z_xzzx_iterator(model: Model, layout: Layout) -> Iterator[Circuit]:
     """
     anc_qubits = layout.get_qubits(role="anc")
     data_qubits = layout.get_qubits(role="data")
+    qubits = anc_qubits + data_qubits
 
     log_qubit_label = layout.get_logical_qubits()[0]
     log_z_qubits = layout.log_z[log_qubit_label]
@@ -641,7 +644,8 @@ def log_z_xzzx_iterator(model: Model, layout: Layout) -> Iterator[Circuit]:
     pauli_x = set(d for d in log_z_qubits if d in rot_qubits)
     pauli_z = set(log_z_qubits) - pauli_x
 
-    yield model.x_gate(pauli_x) + model.z_gate(pauli_z) + model.idle(anc_qubits)
+    idle_qubits = set(qubits) - set(log_z_qubits)
+    yield model.x_gate(pauli_x) + model.z_gate(pauli_z) + model.idle(idle_qubits)
     yield model.tick()
 
 
-- 
2.43.0


From 804e99426816b83a08be55273f9630e53205bda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:04 +0000
Subject: [PATCH 18/36] fix: make layouts independent of the dictionaries they
 are created from and converted to

---
 surface_sim/layouts/layout.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/surface_sim/layouts/layout.py b/surface_sim/layouts/layout.py
index 5415d5b..ef83734 100644
--- a/surface_sim/layouts/layout.py
+++ b/surface_sim/layouts/layout.py
@@ -78,6 +78,7 @@ class Layout:
         """
         if not isinstance(setup, dict):
             raise ValueError(f"'setup' must be a dict, instead got {type(setup)}.")
+        setup = deepcopy(setup)
 
         self.name = setup.get("name", "")
         self.code = setup.get("code", "")
@@ -123,11 +124,11 @@ class Layout:
         setup["distance"] = self.distance
         setup["distance_z"] = self.distance_z
         setup["distance_x"] = self.distance_x
-        setup["logical_qubit_labels"] = self._log_qubits
-        setup["log_z"] = self.log_z
-        setup["log_x"] = self.log_x
+        setup["logical_qubit_labels"] = deepcopy(self._log_qubits)
+        setup["log_z"] = deepcopy(self.log_z)
+        setup["log_x"] = deepcopy(self.log_x)
         setup["description"] = self.description
-        setup["interaction_order"] = self.interaction_order
+        setup["interaction_order"] = deepcopy(self.interaction_order)
 
         layout = []
         for node, attrs in self.graph.nodes(data=True):
-- 
2.43.0


From 8cda8129356d748a0dfc7e8d0302dfd838d18d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:42 +0000
Subject: [PATCH 19/36] fix: find the qubits of the folded rotated surface code
 also for fractional coordinates

---
 surface_sim/log_gates/rot_surface_code_css.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surface_sim/log_gates/rot_surface_code_css.py b/surface_sim/log_gates/rot_surface_code_css.py
index a9cb573..f46c948 100644
--- a/surface_sim/log_gates/rot_surface_code_css.py
+++ b/surface_sim/log_gates/rot_surface_code_css.py
@@ -66,11 +66,12 @@ def set_trans_s(layout: Layout, data_qubit: str) -> None:
 
     # get the CZs from the data qubit positions
     coords_to_label_dict = {
-        tuple(attr["coords"]): node for node, attr in layout.graph.nodes.items()
+        tuple(np.round(attr["coords"], decimals=5)): node
+        for node, attr in layout.graph.nodes.items()
     }
 
     def coords_to_label(c):
-        c = tuple(c)
+        c = tuple(np.round(c, decimals=5))  # to avoid numerical issues
         if c not in coords_to_label_dict:
             return None
         else:
-- 
2.43.0


From 2f58bf81a4b633fd9753d91f725f613d2ad653c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:29 +0000
Subject: [PATCH 20/36] fix: keep the order of the noise and the operations in
 merge_circuits

---
 surface_sim/util/circuit_operations.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index 4182ddc..d03f4fb 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -71,9 +71,8 @@ def merge_circuits(*circuits: stim.Circuit, check_meas: bool = True) -> stim.Cir
                 "The measurements happen at different TICK blocks in each circuit."
             )
 
-    # sort the instructions in each block for better readability in the circuit
-    blocks = [sorted(block, key=lambda x: x.name) for block in blocks]
-
+    # the instructions must be kept in the given order because sorting them would
+    # e.g. place the noise on the wrong side of a gate or a measurement.
     # merge instructions in blocks and into a circuit.
     # remember that it is not possible to add stim.CircuitInstruction to stim.Circuit
     tick = stim.Circuit("TICK")
-- 
2.43.0


From a64df2d493479af610f99f97b2b395fbec69b6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:14 +0000
Subject: [PATCH 21/36] fix: do not round the noise parameters in
 merge_circuits

---
 surface_sim/util/circuit_operations.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index d03f4fb..e2c1059 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -74,13 +74,13 @@ def merge_circuits(*circuits: stim.Circuit, check_meas: bool = True) -> stim.Cir
     # the instructions must be kept in the given order because sorting them would
     # e.g. place the noise on the wrong side of a gate or a measurement.
     # merge instructions in blocks and into a circuit.
-    # remember that it is not possible to add stim.CircuitInstruction to stim.Circuit
-    tick = stim.Circuit("TICK")
-    merged_blocks = [
-        stim.Circuit("\n".join(map(str, block))) + tick for block in blocks
-    ]
-    merged_blocks[-1].pop(-1)  # removes extra TICK at the end
-    merged_circuit = sum(merged_blocks, start=stim.Circuit())
+    # converting the instructions to strings would round the noise parameters.
+    merged_circuit = stim.Circuit()
+    for block_id, block in enumerate(blocks):
+        if block_id != 0:
+            merged_circuit.append("TICK", [])
+        for instr in block:
+            merged_circuit.append(instr)
 
     return merged_circuit
 
-- 
2.43.0


From 909dc4a80f96c496bc934f6a40e34e342e8ee4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:44 +0000
Subject: [PATCH 22/36] fix: keep the recorded order of the measurements in
 merge_tick_blocks

---
 surface_sim/util/circuit_operations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index e2c1059..7924e75 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -96,6 +96,11 @@ def merge_tick_blocks(*blocks: stim.Circuit) -> stim.Circuit:
     if len(set(len(b) for b in ops_blocks)) != 1:
         raise ValueError("The given blocks do not have the same number of operatons.")
 
+    if any(name in MEAS_INSTR for op_block in ops_blocks for name in op_block):
+        # the measurements must appear in the order in which the model has
+        # recorded them, thus the blocks cannot be interleaved
+        return sum(blocks, start=stim.Circuit())
+
     mergeable_blocks = {}
     for block, op_block in zip(blocks, ops_blocks):
         if op_block not in mergeable_blocks:
-- 
2.43.0


From 8cf5095c4eca42257c906f5bcb657f9678b972aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:47 +0000
Subject: [PATCH 23/36] fix: merge TICK blocks with different number of
 instructions

---
 surface_sim/util/circuit_operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index 7924e75..a16dc30 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -93,8 +93,6 @@ def merge_tick_blocks(*blocks: stim.Circuit) -> stim.Circuit:
     including noise channels).
     """
     ops_blocks = [tuple(instr.name for instr in block) for block in blocks]
-    if len(set(len(b) for b in ops_blocks)) != 1:
-        raise ValueError("The given blocks do not have the same number of operatons.")
 
     if any(name in MEAS_INSTR for op_block in ops_blocks for name in op_block):
         # the measurements must appear in the order in which the model has
@@ -108,8 +106,10 @@ def merge_tick_blocks(*blocks: stim.Circuit) -> stim.Circuit:
         else:
             mergeable_blocks[op_block].append(block)
 
+    # the blocks can have different number of instructions, e.g. if the noise
+    # depends on the qubit
     merged_circuit = stim.Circuit()
-    for t, _ in enumerate(ops_blocks[0]):
+    for t in range(max(map(len, ops_blocks), default=0)):
         for mblocks in mergeable_blocks.values():
             for block in mblocks:
                 # the trick with the indices ensures that the returned object
-- 
2.43.0


From 144a9497bed7033a12d8aeb8879a8d0b438dc191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:22 +0000
Subject: [PATCH 24/36] fix: measure all the layouts at the same time in
 merge_log_meas with different bases

---
 surface_sim/util/circuit_operations.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index a16dc30..d9b5d23 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -281,13 +281,20 @@ def merge_log_meas(
         if not (set(anc_detectors) <= set(sum(anc_qubits, start=[]))):
             raise ValueError("Some elements in 'anc_detectors' are not ancilla qubits.")
 
+    log_meas_blocks = [
+        list(log_meas_iterator(model=model, layout=l, rot_basis=r, **kargs))
+        for l, r in zip(layouts, rot_bases)
+    ]
+    # the number of blocks depends on the basis because of the rotation of the
+    # data qubits, thus idle the other layouts so that all of them are measured
+    # at the same time.
+    num_blocks = max(map(len, log_meas_blocks), default=0)
+    for layout, blocks in zip(layouts, log_meas_blocks):
+        while len(blocks) < num_blocks:
+            blocks[-2:-2] = [model.idle(layout.get_qubits()), model.tick()]
+
     circuit = stim.Circuit()
-    for blocks in zip(
-        *[
-            log_meas_iterator(model=model, layout=l, rot_basis=r, **kargs)
-            for l, r in zip(layouts, rot_bases)
-        ]
-    ):
+    for blocks in zip(*log_meas_blocks):
         merged_block = merge_tick_blocks(*blocks)
 
         if (len(merged_block) != 0) and (merged_block[0].name == "TICK"):
-- 
2.43.0


From 25db443bc73c680533f685485e4d9efab1aeefe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:18 +0000
Subject: [PATCH 25/36] fix: accept any sequence of ancilla qubits in Detectors

---
 surface_sim/detectors/detectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index e2a30c5..2123359 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -68,7 +68,7 @@ class Detectors:
         if len(set(len(c) for c in anc_coords.values())) != 1:
             raise ValueError("Values in 'anc_coords' must have the same lenght.")
 
-        self.anc_qubit_labels = anc_qubits
+        self.anc_qubit_labels = list(anc_qubits)
         self.frame = frame
         self.anc_coords = anc_coords
 
-- 
2.43.0


From 872fa0a428407a908622325b5fbb23b1919e8e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:54 +0000
Subject: [PATCH 26/36] fix: register every free parameter of a setup whatever
 its name

---
 surface_sim/setup/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/setup/setup.py b/surface_sim/setup/setup.py
index dbbc449..fdd8799 100644
--- a/surface_sim/setup/setup.py
+++ b/surface_sim/setup/setup.py
@@ -65,7 +65,7 @@ class Setup:
                 self._global_params.update(params_dict)
 
             for param, val in params_dict.items():
-                if isinstance(val, str) and param not in self._var_params:
+                if isinstance(val, str) and val not in self._var_params:
                     self._var_params[val] = None
 
     @property
-- 
2.43.0


From e4e6dfad9b68d358f775d4c29c279e352e12adce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 27/36] fix: record measurements only after building their
 circuit in the noise models

---
 surface_sim/models/library.py | 87 +++++++++++++++++++++++++----------
 1 file changed, 63 insertions(+), 24 deletions(-)

diff --git a/surface_sim/models/library.py b/surface_sim/models/library.py
index f46806c..99a2642 100644
--- a/surface_sim/models/library.py
+++ b/surface_sim/models/library.py
@@ -118,13 +118,16 @@ class CircuitNoiseModel(Model):
             circ.append(CircuitInstruction("X_ERROR", [ind], [prob]))
 
         for qubit, ind in zip(qubits, inds):
-            self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
                 circ.append(CircuitInstruction("MZ", [ind], [prob]))
             else:
                 circ.append(CircuitInstruction("MZ", [ind]))
 
+        # record the measurements once the circuit has been successfully built
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def measure_x(self, qubits: Iterable[str]) -> Circuit:
@@ -137,13 +140,16 @@ class CircuitNoiseModel(Model):
             circ.append(CircuitInstruction("Z_ERROR", [ind], [prob]))
 
         for qubit, ind in zip(qubits, inds):
-            self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
                 circ.append(CircuitInstruction("MX", [ind], [prob]))
             else:
                 circ.append(CircuitInstruction("MX", [ind]))
 
+        # record the measurements once the circuit has been successfully built
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def measure_y(self, qubits: Iterable[str]) -> Circuit:
@@ -156,13 +162,16 @@ class CircuitNoiseModel(Model):
             circ.append(CircuitInstruction("Z_ERROR", [ind], [prob]))
 
         for qubit, ind in zip(qubits, inds):
-            self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
                 circ.append(CircuitInstruction("MY", [ind], [prob]))
             else:
                 circ.append(CircuitInstruction("MY", [ind]))
 
+        # record the measurements once the circuit has been successfully built
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def reset(self, qubits: Iterable[str]) -> Circuit:
@@ -370,13 +379,16 @@ class BiasedCircuitNoiseModel(Model):
             circ.append(CircuitInstruction("X_ERROR", [ind], [prob]))
 
         for qubit, ind in zip(qubits, inds):
-            self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
                 circ.append(CircuitInstruction("MZ", [ind], [prob]))
             else:
                 circ.append(CircuitInstruction("MZ", [ind]))
 
+        # record the measurements once the circuit has been successfully built
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def measure_x(self, qubits: Iterable[str]) -> Circuit:
@@ -389,13 +401,16 @@ class BiasedCircuitNoiseModel(Model):
             circ.append(CircuitInstruction("Z_ERROR", [ind], [prob]))
 
         for qubit, ind in zip(qubits, inds):
-            self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
                 circ.append(CircuitInstruction("MX", [ind], [prob]))
             else:
                 circ.append(CircuitInstruction("MX", [ind]))
 
+        # record the measurements once the circuit has been successfully built
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def measure_y(self, qubits: Iterable[str]) -> Circuit:
@@ -408,13 +423,16 @@ class BiasedCircuitNoiseModel(Model):
             circ.append(CircuitInstruction("X_ERROR", [ind], [prob]))
 
         for qubit, ind in zip(qubits, inds):
-            self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
                 circ.append(CircuitInstruction("MY", [ind], [prob]))
             else:
                 circ.append(CircuitInstruction("MY", [ind]))
 
+        # record the measurements once the circuit has been successfully built
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def reset(self, qubits: Iterable[str]) -> Circuit:
@@ -541,8 +559,6 @@ class DecoherenceNoiseModel(Model):
 
             circ += self.idle(qubits, duration)
             for qubit in qubits:
-                self.add_meas(qubit)
-
                 if self.param("assign_error_flag", qubit):
                     prob = self.param("assign_error_prob", qubit)
                     circ.append(
@@ -559,8 +575,6 @@ class DecoherenceNoiseModel(Model):
             duration = self.gate_duration(name)
 
             for qubit, ind in zip(qubits, self.get_inds(qubits)):
-                self.add_meas(qubit)
-
                 if self.param("assign_error_flag", qubit):
                     prob = self.param("assign_error_prob", qubit)
                     circ.append(
@@ -569,6 +583,11 @@ class DecoherenceNoiseModel(Model):
                 else:
                     circ.append(CircuitInstruction(name, targets=[ind]))
                 circ += self.idle([qubit], duration)
+
+        # record the measurements once the circuit has been successfully built
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def measure_x(self, qubits: Iterable[str]) -> Circuit:
@@ -579,8 +598,6 @@ class DecoherenceNoiseModel(Model):
 
             circ += self.idle(qubits, duration)
             for qubit in qubits:
-                self.add_meas(qubit)
-
                 if self.param("assign_error_flag", qubit):
                     prob = self.param("assign_error_prob", qubit)
                     circ.append(
@@ -597,8 +614,6 @@ class DecoherenceNoiseModel(Model):
             duration = self.gate_duration(name)
 
             for qubit, ind in zip(qubits, self.get_inds(qubits)):
-                self.add_meas(qubit)
-
                 if self.param("assign_error_flag", qubit):
                     prob = self.param("assign_error_prob", qubit)
                     circ.append(
@@ -607,6 +622,11 @@ class DecoherenceNoiseModel(Model):
                 else:
                     circ.append(CircuitInstruction(name, targets=[ind]))
                 circ += self.idle([qubit], duration)
+
+        # record the measurements once the circuit has been successfully built
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def measure_y(self, qubits: Iterable[str]) -> Circuit:
@@ -617,8 +637,6 @@ class DecoherenceNoiseModel(Model):
 
             circ += self.idle(qubits, duration)
             for qubit in qubits:
-                self.add_meas(qubit)
-
                 if self.param("assign_error_flag", qubit):
                     prob = self.param("assign_error_prob", qubit)
                     circ.append(
@@ -635,8 +653,6 @@ class DecoherenceNoiseModel(Model):
             duration = self.gate_duration(name)
 
             for qubit, ind in zip(qubits, self.get_inds(qubits)):
-                self.add_meas(qubit)
-
                 if self.param("assign_error_flag", qubit):
                     prob = self.param("assign_error_prob", qubit)
                     circ.append(
@@ -645,6 +661,11 @@ class DecoherenceNoiseModel(Model):
                 else:
                     circ.append(CircuitInstruction(name, targets=[ind]))
                 circ += self.idle([qubit], duration)
+
+        # record the measurements once the circuit has been successfully built
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def reset(self, qubits: Iterable[str]) -> Circuit:
@@ -788,13 +809,16 @@ class ExperimentalNoiseModel(Model):
             circ.append(CircuitInstruction("X_ERROR", [ind], [prob]))
 
         for qubit, ind in zip(qubits, inds):
-            self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
                 circ.append(CircuitInstruction("MZ", [ind], [prob]))
             else:
                 circ.append(CircuitInstruction("MZ", [ind]))
 
+        # record the measurements once the circuit has been successfully built
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def measure_x(self, qubits: Iterable[str]) -> Circuit:
@@ -807,13 +831,16 @@ class ExperimentalNoiseModel(Model):
             circ.append(CircuitInstruction("Z_ERROR", [ind], [prob]))
 
         for qubit, ind in zip(qubits, inds):
-            self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
                 circ.append(CircuitInstruction("MX", [ind], [prob]))
             else:
                 circ.append(CircuitInstruction("MX", [ind]))
 
+        # record the measurements once the circuit has been successfully built
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def measure_y(self, qubits: Iterable[str]) -> Circuit:
@@ -826,13 +853,16 @@ class ExperimentalNoiseModel(Model):
             circ.append(CircuitInstruction("X_ERROR", [ind], [prob]))
 
         for qubit, ind in zip(qubits, inds):
-            self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
                 circ.append(CircuitInstruction("MY", [ind], [prob]))
             else:
                 circ.append(CircuitInstruction("MY", [ind]))
 
+        # record the measurements once the circuit has been successfully built
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def reset(self, qubits: Iterable[str]) -> Circuit:
@@ -1039,13 +1069,16 @@ class PhenomenologicalNoiseModel(IncomingNoiseModel):
             circ.append(CircuitInstruction("X_ERROR", [ind], [prob]))
 
         for qubit, ind in zip(qubits, inds):
-            self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
                 circ.append(CircuitInstruction("MZ", [ind], [prob]))
             else:
                 circ.append(CircuitInstruction("MZ", [ind]))
 
+        # record the measurements once the circuit has been successfully built
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def measure_x(self, qubits: Iterable[str]) -> Circuit:
@@ -1058,13 +1091,16 @@ class PhenomenologicalNoiseModel(IncomingNoiseModel):
             circ.append(CircuitInstruction("Z_ERROR", [ind], [prob]))
 
         for qubit, ind in zip(qubits, inds):
-            self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
                 circ.append(CircuitInstruction("MX", [ind], [prob]))
             else:
                 circ.append(CircuitInstruction("MX", [ind]))
 
+        # record the measurements once the circuit has been successfully built
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def measure_y(self, qubits: Iterable[str]) -> Circuit:
@@ -1077,11 +1113,14 @@ class PhenomenologicalNoiseModel(IncomingNoiseModel):
             circ.append(CircuitInstruction("X_ERROR", [ind], [prob]))
 
         for qubit, ind in zip(qubits, inds):
-            self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
                 circ.append(CircuitInstruction("MY", [ind], [prob]))
             else:
                 circ.append(CircuitInstruction("MY", [ind]))
 
+        # record the measurements once the circuit has been successfully built
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
-- 
2.43.0


From 17aff8321d73dd6258d4ccd115dee728b6d58794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 28/36] fix: do not change the detectors if the circuit of a
 logical operation cannot be built

---
 surface_sim/circuit_blocks/util.py | 50 +++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/surface_sim/circuit_blocks/util.py b/surface_sim/circuit_blocks/util.py
index be7541f..ab38b1a 100644
--- a/surface_sim/circuit_blocks/util.py
+++ b/surface_sim/circuit_blocks/util.py
@@ -137,13 +137,7 @@ def init_qubits(
     By default, the logical measurement is in the Z basis.
     If rot_basis, the logical measurement is in the X basis.
     """
-    # activate detectors
-    # the order of activating the detectors or applying the circuit
-    # does not matter because this will be done in a layer of logical operations,
-    # so no QEC cycles are run simultaneously
-    anc_qubits = layout.get_qubits(role="anc")
-    detectors.activate_detectors(anc_qubits)
-    return sum(
+    circuit = sum(
         init_qubits_iterator(
             model=model,
             layout=layout,
@@ -153,6 +147,16 @@ def init_qubits(
         start=Circuit(),
     )
 
+    # activate detectors
+    # the order of activating the detectors or applying the circuit
+    # does not matter because this will be done in a layer of logical operations,
+    # so no QEC cycles are run simultaneously.
+    # The detectors are not activated if the circuit cannot be built.
+    anc_qubits = layout.get_qubits(role="anc")
+    detectors.activate_detectors(anc_qubits)
+
+    return circuit
+
 
 def init_qubits_iterator(
     model: Model,
@@ -258,8 +262,10 @@ def log_trans_s(model: Model, layout: Layout, detectors: Detectors) -> Circuit:
     # update the stabilizer generators
     gate_label = f"trans-s_{layout.get_logical_qubits()[0]}"
     new_stabs = get_new_stab_dict_from_layout(layout, gate_label)
+    circuit = sum(log_trans_s_iterator(model=model, layout=layout), start=Circuit())
     detectors.update_from_dict(new_stabs)
-    return sum(log_trans_s_iterator(model=model, layout=layout), start=Circuit())
+
+    return circuit
 
 
 def log_trans_s_iterator(model: Model, layout: Layout) -> Iterator[Circuit]:
@@ -329,8 +335,10 @@ def log_trans_h(model: Model, layout: Layout, detectors: Detectors) -> Circuit:
     # update the stabilizer generators
     gate_label = f"trans-h_{layout.get_logical_qubits()[0]}"
     new_stabs = get_new_stab_dict_from_layout(layout, gate_label)
+    circuit = sum(log_trans_h_iterator(model=model, layout=layout), start=Circuit())
     detectors.update_from_dict(new_stabs)
-    return sum(log_trans_h_iterator(model=model, layout=layout), start=Circuit())
+
+    return circuit
 
 
 def log_trans_h_iterator(model: Model, layout: Layout) -> Iterator[Circuit]:
@@ -400,11 +408,13 @@ def log_trans_cnot(
     gate_label = f"trans-cnot_{layout_c.get_logical_qubits()[0]}_{layout_t.get_logical_qubits()[0]}"
     new_stabs = get_new_stab_dict_from_layout(layout_c, gate_label)
     new_stabs.update(get_new_stab_dict_from_layout(layout_t, gate_label))
-    detectors.update_from_dict(new_stabs)
-    return sum(
+    circuit = sum(
         log_trans_cnot_iterator(model=model, layout_c=layout_c, layout_t=layout_t),
         start=Circuit(),
     )
+    detectors.update_from_dict(new_stabs)
+
+    return circuit
 
 
 def log_trans_cnot_iterator(
@@ -662,19 +672,23 @@ def init_qubits_xzzx(
     By default, the logical measurement is in the Z basis.
     If rot_basis, the logical measurement is in the X basis.
     """
-    # activate detectors
-    # the order of activating the detectors or applying the circuit
-    # does not matter because this will be done in a layer of logical operations,
-    # so no QEC cycles are run simultaneously
-    anc_qubits = layout.get_qubits(role="anc")
-    detectors.activate_detectors(anc_qubits)
-    return sum(
+    circuit = sum(
         init_qubits_xzzx_iterator(
             model=model, layout=layout, data_init=data_init, rot_basis=rot_basis
         ),
         start=Circuit(),
     )
 
+    # activate detectors
+    # the order of activating the detectors or applying the circuit
+    # does not matter because this will be done in a layer of logical operations,
+    # so no QEC cycles are run simultaneously.
+    # The detectors are not activated if the circuit cannot be built.
+    anc_qubits = layout.get_qubits(role="anc")
+    detectors.activate_detectors(anc_qubits)
+
+    return circuit
+
 
 def init_qubits_xzzx_iterator(
     model: Model,
-- 
2.43.0


From d1ba23d1bba306f284b773a27d4b9e13df4e5f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 29/36] fix: reject the logical measurement of inactive layouts
 before recording outcomes

---
 .../circuit_blocks/rot_surface_code_xzzx_google.py       | 8 +++++---
 surface_sim/circuit_blocks/util.py                       | 9 +++++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
index ebb0df9..fc5de71 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
@@ -61,12 +61,14 @@ def qec_round_with_log_meas(
         raise TypeError(
             "The given layout is not a rotated surface code, " f"but a {layout.code}"
         )
+    anc_qubits = layout.get_qubits(role="anc")
     if anc_detectors is None:
-        anc_detectors = layout.get_qubits(role="anc")
-    if not (set(anc_detectors) <= set(layout.get_qubits(role="anc"))):
+        anc_detectors = anc_qubits
+    if not (set(anc_detectors) <= set(anc_qubits)):
         raise ValueError("Some of the given 'anc_qubits' are not ancilla qubits.")
+    if not all(detectors.anc_qubits.get(anc, False) for anc in anc_qubits):
+        raise ValueError("The detectors of the given layout are not active.")
 
-    anc_qubits = layout.get_qubits(role="anc")
     data_qubits = layout.get_qubits(role="data")
     qubits = set(data_qubits + anc_qubits)
 
diff --git a/surface_sim/circuit_blocks/util.py b/surface_sim/circuit_blocks/util.py
index ab38b1a..4c56ae7 100644
--- a/surface_sim/circuit_blocks/util.py
+++ b/surface_sim/circuit_blocks/util.py
@@ -58,6 +58,8 @@ def log_meas(
         anc_detectors = anc_qubits
     if not (set(anc_detectors) <= set(anc_qubits)):
         raise ValueError("Some of the given 'anc_qubits' are not ancilla qubits.")
+    if not all(detectors.anc_qubits.get(anc, False) for anc in anc_qubits):
+        raise ValueError("The detectors of the given layout are not active.")
 
     circuit = sum(
         log_meas_iterator(model=model, layout=layout, rot_basis=rot_basis),
@@ -507,10 +509,13 @@ def log_meas_xzzx(
             f"The given layout is not a rotated surface code, but a {layout.code}"
         )
 
+    anc_qubits = layout.get_qubits(role="anc")
     if anc_detectors is None:
-        anc_detectors = layout.get_qubits(role="anc")
-    if not (set(anc_detectors) <= set(layout.get_qubits(role="anc"))):
+        anc_detectors = anc_qubits
+    if not (set(anc_detectors) <= set(anc_qubits)):
         raise ValueError("Some of the given 'anc_qubits' are not ancilla qubits.")
+    if not all(detectors.anc_qubits.get(anc, False) for anc in anc_qubits):
+        raise ValueError("The detectors of the given layout are not active.")
 
     circuit = sum(
         log_meas_xzzx_iterator(model=model, layout=layout, rot_basis=rot_basis),
-- 
2.43.0


From 2ee139769efd93e67a2804af803d58ad20edebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 30/36] fix: do not modify the layout if a folded logical gate
 cannot be prepared

---
 surface_sim/log_gates/rot_surface_code_css.py | 12 +++++------
 .../log_gates/unrot_surface_code_css.py       | 20 +++++++++----------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/surface_sim/log_gates/rot_surface_code_css.py b/surface_sim/log_gates/rot_surface_code_css.py
index f46c948..343b73b 100644
--- a/surface_sim/log_gates/rot_surface_code_css.py
+++ b/surface_sim/log_gates/rot_surface_code_css.py
@@ -115,12 +115,6 @@ def set_trans_s(layout: Layout, data_qubit: str) -> None:
     label = coords_to_label(coords - jump_h - jump_v)
     s_gates[label] = "S_DAG"
 
-    # Store logical gate information to the data qubits
-    for qubit in data_qubits:
-        layout.set_param(
-            gate_label, qubit, {"cz": cz_gates[qubit], "local": s_gates[qubit]}
-        )
-
     # Compute the new stabilizer generators based on the CZs connections
     # as 'set' is not hashable, I use tuple(sorted(...))...
     anc_to_xstab = {
@@ -150,6 +144,12 @@ def set_trans_s(layout: Layout, data_qubit: str) -> None:
         anc_to_new_stab[anc_x] = [anc_x, anc_z]
         anc_to_new_stab[anc_z] = [anc_z]
 
+    # Store logical gate information to the data qubits
+    for qubit in data_qubits:
+        layout.set_param(
+            gate_label, qubit, {"cz": cz_gates[qubit], "local": s_gates[qubit]}
+        )
+
     # Store new stabilizer generators to the ancilla qubits
     for anc_qubit in anc_qubits:
         layout.set_param(
diff --git a/surface_sim/log_gates/unrot_surface_code_css.py b/surface_sim/log_gates/unrot_surface_code_css.py
index 4404bfb..bf20c62 100644
--- a/surface_sim/log_gates/unrot_surface_code_css.py
+++ b/surface_sim/log_gates/unrot_surface_code_css.py
@@ -87,12 +87,6 @@ def set_trans_s(layout: Layout, data_qubit: str) -> None:
         data_qubit = coords_to_label_dict[tuple(coords)]
         s_gates[data_qubit] = "S" if k % 2 == 0 else "S_DAG"
 
-    # Store logical gate information to the data qubits
-    for qubit in data_qubits:
-        layout.set_param(
-            gate_label, qubit, {"cz": cz_gates[qubit], "local": s_gates[qubit]}
-        )
-
     # Compute the new stabilizer generators based on the CZs connections
     # as 'set' is not hashable, I use tuple(sorted(...))...
     anc_to_xstab = {
@@ -117,6 +111,12 @@ def set_trans_s(layout: Layout, data_qubit: str) -> None:
         anc_to_new_stab[anc_x] = [anc_x, anc_z]
         anc_to_new_stab[anc_z] = [anc_z]
 
+    # Store logical gate information to the data qubits
+    for qubit in data_qubits:
+        layout.set_param(
+            gate_label, qubit, {"cz": cz_gates[qubit], "local": s_gates[qubit]}
+        )
+
     # Store new stabilizer generators to the ancilla qubits
     for anc_qubit in anc_qubits:
         layout.set_param(
@@ -320,10 +320,6 @@ def set_trans_h(layout: Layout, data_qubit: str) -> None:
         data_pair = coords_to_label_dict[tuple(pair_coords)]
         swap_gates[data_qubit] = data_pair if data_pair != data_qubit else None
 
-    # Store logical gate information to the data qubits
-    for qubit in data_qubits:
-        layout.set_param(gate_label, qubit, {"swap": swap_gates[qubit], "local": "H"})
-
     # Compute the new stabilizer generators
     anc_to_new_stab = {}
     anc_qubit_coords = layout.get_coords(anc_qubits)
@@ -333,6 +329,10 @@ def set_trans_h(layout: Layout, data_qubit: str) -> None:
         anc_pair = coords_to_label_dict[tuple(pair_coords)]
         anc_to_new_stab[anc_qubit] = [anc_pair]
 
+    # Store logical gate information to the data qubits
+    for qubit in data_qubits:
+        layout.set_param(gate_label, qubit, {"swap": swap_gates[qubit], "local": "H"})
+
     # Store new stabilizer generators to the ancilla qubits
     for anc_qubit in anc_qubits:
         layout.set_param(
-- 
2.43.0


From f1c5075ae8bfba5467129d26688f0a8a8b12d613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 31/36] fix: reject layouts whose neighbors are not qubits of
 the layout

---
 surface_sim/layouts/layout.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/surface_sim/layouts/layout.py b/surface_sim/layouts/layout.py
index ef83734..64d8797 100644
--- a/surface_sim/layouts/layout.py
+++ b/surface_sim/layouts/layout.py
@@ -498,6 +498,10 @@ class Layout:
 
             for edge_dir, nbr_qubit in nbr_dict.items():
                 if nbr_qubit is not None:
+                    if nbr_qubit not in self._qubit_inds:
+                        raise ValueError(
+                            f"Neighbor {nbr_qubit} of {node} is not in the layout."
+                        )
                     self.graph.add_edge(node, nbr_qubit, direction=edge_dir)
 
         if all((i is None) for i in self._qubit_inds.values()):
-- 
2.43.0


From 9259d680d02dfd0ac54698e89682af42e8793b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:30 +0000
Subject: [PATCH 32/36] Close every module with a comment (no code change)

---
 surface_sim/circuit_blocks/rot_surface_code_css.py            | 3 +++
 surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py  | 3 +++
 surface_sim/circuit_blocks/rot_surface_code_xzzx.py           | 3 +++
 surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py    | 3 +++
 surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py | 3 +++
 surface_sim/circuit_blocks/unrot_surface_code_css.py          | 3 +++
 surface_sim/circuit_blocks/util.py                            | 3 +++
 surface_sim/detectors/detectors.py                            | 3 +++
 surface_sim/experiments/rot_surface_code_css.py               | 3 +++
 surface_sim/experiments/rot_surface_code_css_pipelined.py     | 3 +++
 surface_sim/experiments/rot_surface_code_xzzx.py              | 3 +++
 surface_sim/experiments/rot_surface_code_xzzx_google.py       | 3 +++
 surface_sim/experiments/rot_surface_code_xzzx_pipelined.py    | 3 +++
 surface_sim/experiments/unrot_surface_code_css.py             | 3 +++
 surface_sim/layouts/layout.py                                 | 3 +++
 surface_sim/layouts/library/rot_surface_codes.py              | 3 +++
 surface_sim/layouts/library/unrot_surface_codes.py            | 3 +++
 surface_sim/layouts/library/util.py                           | 3 +++
 surface_sim/layouts/operations.py                             | 3 +++
 surface_sim/layouts/plotter.py                                | 3 +++
 surface_sim/layouts/util.py                                   | 3 +++
 surface_sim/log_gates/rot_surface_code_css.py                 | 3 +++
 surface_sim/log_gates/unrot_surface_code_css.py               | 3 +++
 surface_sim/models/library.py                                 | 3 +++
 surface_sim/models/model.py                                   | 3 +++
 surface_sim/models/util.py                                    | 3 +++
 surface_sim/setup/library.py                                  | 3 +++
 surface_sim/util/circuit_operations.py                        | 3 +++
 surface_sim/util/data_gen.py                                  | 3 +++
 29 files changed, 87 insertions(+)

diff --git a/surface_sim/circuit_blocks/rot_surface_code_css.py b/surface_sim/circuit_blocks/rot_surface_code_css.py
index faa1e7a..1953872 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_css.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_css.py
@@ -225,3 +225,6 @@ def qec_round_iterator(
     # i
     yield model.measure(anc_qubits) + model.idle(data_qubits)
     yield model.tick()
+
+
+# end of the module
diff --git a/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py b/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py
index 6850a63..0444ee2 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py
@@ -154,3 +154,6 @@ def qec_round_iterator(
 
     yield model.measure(anc_qubits) + model.idle(data_qubits)
     yield model.tick()
+
+
+# end of the module
diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
index 3e14c31..b46e172 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
@@ -230,3 +230,6 @@ def qec_round_iterator(
     # i
     yield model.measure(anc_qubits) + model.idle(data_qubits)
     yield model.tick()
+
+
+# end of the module
diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
index fc5de71..f8e1b01 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
@@ -278,3 +278,6 @@ def qec_round(
     circuit += detectors_stim
 
     return circuit
+
+
+# end of the module
diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py
index fabb3fb..450910d 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py
@@ -150,3 +150,6 @@ def qec_round_iterator(
 
     yield model.measure(anc_qubits) + model.idle(data_qubits)
     yield model.tick()
+
+
+# end of the module
diff --git a/surface_sim/circuit_blocks/unrot_surface_code_css.py b/surface_sim/circuit_blocks/unrot_surface_code_css.py
index 3c22ea5..7c9fa71 100644
--- a/surface_sim/circuit_blocks/unrot_surface_code_css.py
+++ b/surface_sim/circuit_blocks/unrot_surface_code_css.py
@@ -227,3 +227,6 @@ def qec_round_iterator(
     # i
     yield model.measure(anc_qubits) + model.idle(data_qubits)
     yield model.tick()
+
+
+# end of the module
diff --git a/surface_sim/circuit_blocks/util.py b/surface_sim/circuit_blocks/util.py
index 4c56ae7..7e044de 100644
--- a/surface_sim/circuit_blocks/util.py
+++ b/surface_sim/circuit_blocks/util.py
@@ -739,3 +739,6 @@ def init_qubits_xzzx_iterator(
     idle_qubits = qubits - rot_qubits
     yield model.hadamard(rot_qubits) + model.idle(idle_qubits)
     yield model.tick()
+
+
+# end of the module
diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index 2123359..471ee0b 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -679,3 +679,6 @@ def remove_pairs(elements: list) -> list:
         if elements.count(element) % 2 == 1:
             output.append(element)
     return output
+
+
+# end of the module
diff --git a/surface_sim/experiments/rot_surface_code_css.py b/surface_sim/experiments/rot_surface_code_css.py
index cf64200..20807e0 100644
--- a/surface_sim/experiments/rot_surface_code_css.py
+++ b/surface_sim/experiments/rot_surface_code_css.py
@@ -333,3 +333,6 @@ def repeated_cnot_experiment(
     )
 
     return experiment
+
+
+# end of the module
diff --git a/surface_sim/experiments/rot_surface_code_css_pipelined.py b/surface_sim/experiments/rot_surface_code_css_pipelined.py
index d561fc6..6a9b7e9 100644
--- a/surface_sim/experiments/rot_surface_code_css_pipelined.py
+++ b/surface_sim/experiments/rot_surface_code_css_pipelined.py
@@ -179,3 +179,6 @@ def repeated_s_experiment(
     )
 
     return experiment
+
+
+# end of the module
diff --git a/surface_sim/experiments/rot_surface_code_xzzx.py b/surface_sim/experiments/rot_surface_code_xzzx.py
index 5f85882..985f754 100644
--- a/surface_sim/experiments/rot_surface_code_xzzx.py
+++ b/surface_sim/experiments/rot_surface_code_xzzx.py
@@ -85,3 +85,6 @@ def memory_experiment(
     )
 
     return experiment
+
+
+# end of the module
diff --git a/surface_sim/experiments/rot_surface_code_xzzx_google.py b/surface_sim/experiments/rot_surface_code_xzzx_google.py
index b225333..bef13b2 100644
--- a/surface_sim/experiments/rot_surface_code_xzzx_google.py
+++ b/surface_sim/experiments/rot_surface_code_xzzx_google.py
@@ -94,3 +94,6 @@ def memory_experiment(
     )
 
     return experiment
+
+
+# end of the module
diff --git a/surface_sim/experiments/rot_surface_code_xzzx_pipelined.py b/surface_sim/experiments/rot_surface_code_xzzx_pipelined.py
index 4ea9569..ddc9260 100644
--- a/surface_sim/experiments/rot_surface_code_xzzx_pipelined.py
+++ b/surface_sim/experiments/rot_surface_code_xzzx_pipelined.py
@@ -85,3 +85,6 @@ def memory_experiment(
     )
 
     return experiment
+
+
+# end of the module
diff --git a/surface_sim/experiments/unrot_surface_code_css.py b/surface_sim/experiments/unrot_surface_code_css.py
index 8be8b72..29cc5ed 100644
--- a/surface_sim/experiments/unrot_surface_code_css.py
+++ b/surface_sim/experiments/unrot_surface_code_css.py
@@ -428,3 +428,6 @@ def repeated_cnot_experiment(
     )
 
     return experiment
+
+
+# end of the module
diff --git a/surface_sim/layouts/layout.py b/surface_sim/layouts/layout.py
index 64d8797..61d5fb4 100644
--- a/surface_sim/layouts/layout.py
+++ b/surface_sim/layouts/layout.py
@@ -566,3 +566,6 @@ def index_coords(coords: list[int], reverse: bool = False) -> tuple[list[int], i
 
     indicies = [mapping[coord] for coord in coords]
     return indicies, num_unique_vals
+
+
+# end of the module
diff --git a/surface_sim/layouts/library/rot_surface_codes.py b/surface_sim/layouts/library/rot_surface_codes.py
index 6496641..9042253 100644
--- a/surface_sim/layouts/library/rot_surface_codes.py
+++ b/surface_sim/layouts/library/rot_surface_codes.py
@@ -329,3 +329,6 @@ def rot_surface_code(
         init_xanc_qubit_id=init_xanc_qubit_id,
         init_ind=init_ind,
     )
+
+
+# end of the module
diff --git a/surface_sim/layouts/library/unrot_surface_codes.py b/surface_sim/layouts/library/unrot_surface_codes.py
index 11a8d87..95596e8 100644
--- a/surface_sim/layouts/library/unrot_surface_codes.py
+++ b/surface_sim/layouts/library/unrot_surface_codes.py
@@ -284,3 +284,6 @@ def unrot_surface_code(
         init_xanc_qubit_id=init_xanc_qubit_id,
         init_ind=init_ind,
     )
+
+
+# end of the module
diff --git a/surface_sim/layouts/library/util.py b/surface_sim/layouts/library/util.py
index 77114de..514c614 100644
--- a/surface_sim/layouts/library/util.py
+++ b/surface_sim/layouts/library/util.py
@@ -59,3 +59,6 @@ def _check_distance(distance: int) -> None:
         raise ValueError("distance provided must be an integer")
     if distance < 0:
         raise ValueError("distance must be a positive integer")
+
+
+# end of the module
diff --git a/surface_sim/layouts/operations.py b/surface_sim/layouts/operations.py
index 518ac6d..03a3774 100644
--- a/surface_sim/layouts/operations.py
+++ b/surface_sim/layouts/operations.py
@@ -58,3 +58,6 @@ def check_overlap_layouts(*layouts: Layout) -> None:
             check_overlap_layout_pair(layout, other_layout)
 
     return
+
+
+# end of the module
diff --git a/surface_sim/layouts/plotter.py b/surface_sim/layouts/plotter.py
index ef22178..01a9fc7 100644
--- a/surface_sim/layouts/plotter.py
+++ b/surface_sim/layouts/plotter.py
@@ -409,3 +409,6 @@ def plot(
         ax.invert_yaxis()
 
     return ax
+
+
+# end of the module
diff --git a/surface_sim/layouts/util.py b/surface_sim/layouts/util.py
index 81fa691..6b89971 100644
--- a/surface_sim/layouts/util.py
+++ b/surface_sim/layouts/util.py
@@ -102,3 +102,6 @@ def index_chain(layout: Layout, init_node: str) -> None:
     for node in nodes:
         if node not in set_nodes:
             layout.graph.nodes[node]["chain_ind"] = None
+
+
+# end of the module
diff --git a/surface_sim/log_gates/rot_surface_code_css.py b/surface_sim/log_gates/rot_surface_code_css.py
index 343b73b..2712a12 100644
--- a/surface_sim/log_gates/rot_surface_code_css.py
+++ b/surface_sim/log_gates/rot_surface_code_css.py
@@ -254,3 +254,6 @@ def set_trans_cnot(layout_c: Layout, layout_t: Layout) -> None:
         layout_t.set_param(gate_label, anc, {"new_stab_gen": anc_to_new_stab[anc]})
 
     return
+
+
+# end of the module
diff --git a/surface_sim/log_gates/unrot_surface_code_css.py b/surface_sim/log_gates/unrot_surface_code_css.py
index bf20c62..ebb1ba8 100644
--- a/surface_sim/log_gates/unrot_surface_code_css.py
+++ b/surface_sim/log_gates/unrot_surface_code_css.py
@@ -340,3 +340,6 @@ def set_trans_h(layout: Layout, data_qubit: str) -> None:
         )
 
     return
+
+
+# end of the module
diff --git a/surface_sim/models/library.py b/surface_sim/models/library.py
index 99a2642..406fdc3 100644
--- a/surface_sim/models/library.py
+++ b/surface_sim/models/library.py
@@ -1124,3 +1124,6 @@ class PhenomenologicalNoiseModel(IncomingNoiseModel):
             self.add_meas(qubit)
 
         return circ
+
+
+# end of the module
diff --git a/surface_sim/models/model.py b/surface_sim/models/model.py
index 1315e93..718775c 100644
--- a/surface_sim/models/model.py
+++ b/surface_sim/models/model.py
@@ -174,3 +174,6 @@ class Model(object):
 
     def incoming_noise(self, qubits: Iterable[str]) -> Circuit:
         raise NotImplementedError
+
+
+# end of the module
diff --git a/surface_sim/models/util.py b/surface_sim/models/util.py
index 409ab35..78d18f9 100644
--- a/surface_sim/models/util.py
+++ b/surface_sim/models/util.py
@@ -109,3 +109,6 @@ def idle_error_probs(
     z_prob = 0.5 * deph_prob - 0.25 * relax_prob
 
     return (x_prob, y_prob, z_prob)
+
+
+# end of the module
diff --git a/surface_sim/setup/library.py b/surface_sim/setup/library.py
index 3209871..8197ffb 100644
--- a/surface_sim/setup/library.py
+++ b/surface_sim/setup/library.py
@@ -25,3 +25,6 @@ class CircuitNoiseSetup(Setup):
         )
         super().__init__(setup_dict)
         return
+
+
+# end of the module
diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index d9b5d23..8a17c03 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -342,3 +342,6 @@ def merge_log_meas(
     )
 
     return circuit
+
+
+# end of the module
diff --git a/surface_sim/util/data_gen.py b/surface_sim/util/data_gen.py
index 54244ff..c021dd3 100644
--- a/surface_sim/util/data_gen.py
+++ b/surface_sim/util/data_gen.py
@@ -82,3 +82,6 @@ def sample_memory_experiment(
     )
 
     return dataset
+
+
+# end of the module
-- 
2.43.0


From 4a407dca7d081f34c982b65e6ee8e1790432e5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:32 +0000
Subject: [PATCH 33/36] fix: set_coords collapsed unrotated layouts onto a line

---
 surface_sim/layouts/util.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/surface_sim/layouts/util.py b/surface_sim/layouts/util.py
index 6b89971..8204fdb 100644
--- a/surface_sim/layouts/util.py
+++ b/surface_sim/layouts/util.py
@@ -19,11 +19,8 @@ def set_coords(layout: Layout, override: bool = False) -> None:
     if (not override) and (nx.get_node_attributes(layout.graph, "coords") != {}):
         raise ValueError("'layout' already has coordinates, use 'override' flag.")
 
-    # Get the shift in the coordinate for a given direction.
-    def get_shift(direction: str) -> int:
-        if direction in ("south", "west"):
-            return -1
-        return 1
+    # Shift in the coordinates for each cardinal direction.
+    shifts = dict(north=(1, 0), south=(-1, 0), east=(0, 1), west=(0, -1))
 
     nodes = list(layout.graph.nodes)  # graph nodes
     init_node = nodes.pop()  # initial node
@@ -42,9 +39,9 @@ def set_coords(layout: Layout, override: bool = False) -> None:
 
         for _, nbr_node, ord_dir in layout.graph.edges(node, data="direction"):
             if nbr_node not in set_nodes:
-                card_dirs = ord_dir.split("_")
-                shifts = tuple(map(get_shift, card_dirs))
-                nbr_coords = list(map(sum, zip(coords, shifts)))
+                # e.g. "north_east" or "north" (in the unrotated codes)
+                card_shifts = [shifts[d] for d in ord_dir.split("_")]
+                nbr_coords = list(map(sum, zip(coords, *card_shifts)))
                 queue.appendleft((nbr_node, nbr_coords))
 
 
-- 
2.43.0


From 4360311d4e60e00f28da8299927dd5a633c5398b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:16 +0000
Subject: [PATCH 34/36] fix: merge_log_meas numbers the observables of layouts
 with different numbers of logical qubits consecutively

---
 surface_sim/util/circuit_operations.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index 8a17c03..b369205 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -323,17 +323,19 @@ def merge_log_meas(
     )
 
     # add logicals
-    for k, (layout, rot_basis) in enumerate(zip(layouts, rot_bases)):
-        num_logs = len(layout.get_logical_qubits())
-        for l, log_qubit_label in enumerate(layout.get_logical_qubits()):
+    # the layouts can have different number of logical qubits
+    num_obs = 0
+    for layout, rot_basis in zip(layouts, rot_bases):
+        for log_qubit_label in layout.get_logical_qubits():
             log_op = "log_x" if rot_basis else "log_z"
             log_qubits_support = getattr(layout, log_op)
             log_data_qubits = log_qubits_support[log_qubit_label]
             targets = [model.meas_target(qubit, -1) for qubit in log_data_qubits]
             instr = stim.CircuitInstruction(
-                "OBSERVABLE_INCLUDE", targets=targets, gate_args=[k * num_logs + l]
+                "OBSERVABLE_INCLUDE", targets=targets, gate_args=[num_obs]
             )
             circuit.append(instr)
+            num_obs += 1
 
     # deactivate detectors
     anc_qubits = set(a for l in layouts for a in l.get_qubits(role="anc"))
-- 
2.43.0


From 04192cefebff0da94cf9f899fb5395110046c362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:16 +0000
Subject: [PATCH 35/36] fix: draw the whole label of a qubit, not only a
 leading letters-digits part

---
 surface_sim/layouts/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/layouts/plotter.py b/surface_sim/layouts/plotter.py
index 01a9fc7..9ae05f4 100644
--- a/surface_sim/layouts/plotter.py
+++ b/surface_sim/layouts/plotter.py
@@ -83,7 +83,7 @@ def get_label(qubit: str, coords: Coordinates, **kwargs) -> Text:
     text = deepcopy(qubit)
 
     # check if the qubit can be plotted using TeX
-    match = RE_FILTER.match(qubit)
+    match = RE_FILTER.fullmatch(qubit)
     if match is not None:
         name, ind = match.groups()
         text = f"${name}_\\mathrm{{{ind}}}$"
-- 
2.43.0


From cebe9ad2a1fbd6ab921d3c10a82d4ea8729c355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:31 +0000
Subject: [PATCH 36/36] fix: set_trans_cnot accepted layouts with X and Z
 stabilizers exchanged

---
 surface_sim/log_gates/rot_surface_code_css.py   | 4 ++++
 surface_sim/log_gates/unrot_surface_code_css.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/surface_sim/log_gates/rot_surface_code_css.py b/surface_sim/log_gates/rot_surface_code_css.py
index 2712a12..226fae9 100644
--- a/surface_sim/log_gates/rot_surface_code_css.py
+++ b/surface_sim/log_gates/rot_surface_code_css.py
@@ -213,6 +213,10 @@ def set_trans_cnot(layout_c: Layout, layout_t: Layout) -> None:
         coords2 = np.array(layout_t.get_coords([t])[0])
         base_vector = coords2 - coords1
         for c, t in monomorphism.items():
+            if layout_c.param("stab_type", c) != layout_t.param("stab_type", t):
+                # e.g. one of the layouts has been rotated by 90 degrees
+                correct = False
+                break
             coords1 = np.array(layout_c.get_coords([c])[0])
             coords2 = np.array(layout_t.get_coords([t])[0])
             vector = coords2 - coords1
diff --git a/surface_sim/log_gates/unrot_surface_code_css.py b/surface_sim/log_gates/unrot_surface_code_css.py
index ebb1ba8..71f3029 100644
--- a/surface_sim/log_gates/unrot_surface_code_css.py
+++ b/surface_sim/log_gates/unrot_surface_code_css.py
@@ -203,6 +203,10 @@ def set_trans_cnot(layout_c: Layout, layout_t: Layout) -> None:
         coords2 = np.array(layout_t.get_coords([t])[0])
         base_vector = coords2 - coords1
         for c, t in monomorphism.items():
+            if layout_c.param("stab_type", c) != layout_t.param("stab_type", t):
+                # e.g. one of the layouts has been rotated by 90 degrees
+                correct = False
+                break
             coords1 = np.array(layout_c.get_coords([c])[0])
             coords2 = np.array(layout_t.get_coords([t])[0])
             vector = coords2 - coords1
-- 
2.43.0

