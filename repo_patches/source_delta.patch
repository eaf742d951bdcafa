From 25c8d6fa0026c2266932024733f88fe1c4f6d9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:42 +0000
Subject: [PATCH 01/28] fix: XZZX QEC round repeated layer e's CZs in its last
 interaction layer

---
 surface_sim/circuit_blocks/rot_surface_code_xzzx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
index 9c5df8b..f713fa5 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
@@ -196,7 +196,7 @@ def qec_round_iterator(
     yield model.tick()
 
     # g
-    cz_circit = Circuit()
+    cz_circuit = Circuit()
     interacted_qubits = set()
     for stab_type in stab_types:
         stab_qubits = layout.get_qubits(role="anc", stab_type=stab_type)
-- 
2.43.0


From ac29d8eb27d0684a53e979758e00fd7de36b4fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:14 +0000
Subject: [PATCH 02/28] fix: BiasedCircuitNoiseModel.measure_y measured in the
 X basis

---
 surface_sim/models/library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_sim/models/library.py b/surface_sim/models/library.py
index 209532f..9696bf2 100644
--- a/surface_sim/models/library.py
+++ b/surface_sim/models/library.py
@@ -411,9 +411,9 @@ class BiasedCircuitNoiseModel(Model):
             self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
-                circ.append(CircuitInstruction("MX", [ind], [prob]))
+                circ.append(CircuitInstruction("MY", [ind], [prob]))
             else:
-                circ.append(CircuitInstruction("MX", [ind]))
+                circ.append(CircuitInstruction("MY", [ind]))
 
         return circ
 
-- 
2.43.0


From d986f0f2de2bc259f2085d74fc548010788b514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:42 +0000
Subject: [PATCH 03/28] fix: DecoherenceNoiseModel measurements with
 symmetric_noise=False failed on qubit labels

---
 surface_sim/models/library.py | 42 ++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/surface_sim/models/library.py b/surface_sim/models/library.py
index 9696bf2..2a09c76 100644
--- a/surface_sim/models/library.py
+++ b/surface_sim/models/library.py
@@ -561,8 +561,18 @@ class DecoherenceNoiseModel(Model):
             for qubit in qubits:
                 self.add_meas(qubit)
 
-                circ.append(CircuitInstruction(name, targets=[qubit]))
-                circ += self.idle(qubit, duration)
+                if self.param("assign_error_flag", qubit):
+                    prob = self.param("assign_error_prob", qubit)
+                    circ.append(
+                        CircuitInstruction(
+                            name, targets=self.get_inds([qubit]), gate_args=[prob]
+                        )
+                    )
+                else:
+                    circ.append(
+                        CircuitInstruction(name, targets=self.get_inds([qubit]))
+                    )
+            circ += self.idle(qubits, duration)
         return circ
 
     def measure_x(self, qubits: Iterable[str]) -> Circuit:
@@ -593,8 +603,18 @@ class DecoherenceNoiseModel(Model):
             for qubit in qubits:
                 self.add_meas(qubit)
 
-                circ.append(CircuitInstruction(name, targets=[qubit]))
-                circ += self.idle(qubit, duration)
+                if self.param("assign_error_flag", qubit):
+                    prob = self.param("assign_error_prob", qubit)
+                    circ.append(
+                        CircuitInstruction(
+                            name, targets=self.get_inds([qubit]), gate_args=[prob]
+                        )
+                    )
+                else:
+                    circ.append(
+                        CircuitInstruction(name, targets=self.get_inds([qubit]))
+                    )
+            circ += self.idle(qubits, duration)
         return circ
 
     def measure_y(self, qubits: Iterable[str]) -> Circuit:
@@ -625,8 +645,18 @@ class DecoherenceNoiseModel(Model):
             for qubit in qubits:
                 self.add_meas(qubit)
 
-                circ.append(CircuitInstruction(name, targets=[qubit]))
-                circ += self.idle(qubit, duration)
+                if self.param("assign_error_flag", qubit):
+                    prob = self.param("assign_error_prob", qubit)
+                    circ.append(
+                        CircuitInstruction(
+                            name, targets=self.get_inds([qubit]), gate_args=[prob]
+                        )
+                    )
+                else:
+                    circ.append(
+                        CircuitInstruction(name, targets=self.get_inds([qubit]))
+                    )
+            circ += self.idle(qubits, duration)
         return circ
 
     def reset(self, qubits: Iterable[str]) -> Circuit:
-- 
2.43.0


From 101c65081ffb8d7db98355404e1b0d6b608cb11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:08 +0000
Subject: [PATCH 04/28] fix: expansion matrix rows and columns followed the
 hash order of the coordinates

---
 surface_sim/layouts/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/layouts/layout.py b/surface_sim/layouts/layout.py
index cb790a5..5415d5b 100644
--- a/surface_sim/layouts/layout.py
+++ b/surface_sim/layouts/layout.py
@@ -549,7 +549,7 @@ def index_coords(coords: list[int], reverse: bool = False) -> tuple[list[int], i
     tuple[list[int], int]
         The list of indexed coordinates and the number of unique coordinates.
     """
-    unique_vals = set(coords)
+    unique_vals = sorted(set(coords))
     num_unique_vals = len(unique_vals)
 
     if reverse:
-- 
2.43.0


From 8eb3d818a02c3b51c3b6eaa5beeac76637a22ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:29 +0000
Subject: [PATCH 05/28] fix: Layout shared logical operators and interaction
 order with its setup dict and copies

---
 surface_sim/layouts/layout.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/surface_sim/layouts/layout.py b/surface_sim/layouts/layout.py
index 5415d5b..6daf3f9 100644
--- a/surface_sim/layouts/layout.py
+++ b/surface_sim/layouts/layout.py
@@ -79,6 +79,9 @@ class Layout:
         if not isinstance(setup, dict):
             raise ValueError(f"'setup' must be a dict, instead got {type(setup)}.")
 
+        # avoid sharing mutable objects with the given dictionary
+        setup = deepcopy(setup)
+
         self.name = setup.get("name", "")
         self.code = setup.get("code", "")
         self._log_qubits = setup.get("logical_qubit_labels", [])
@@ -123,11 +126,11 @@ class Layout:
         setup["distance"] = self.distance
         setup["distance_z"] = self.distance_z
         setup["distance_x"] = self.distance_x
-        setup["logical_qubit_labels"] = self._log_qubits
-        setup["log_z"] = self.log_z
-        setup["log_x"] = self.log_x
+        setup["logical_qubit_labels"] = deepcopy(self._log_qubits)
+        setup["log_z"] = deepcopy(self.log_z)
+        setup["log_x"] = deepcopy(self.log_x)
         setup["description"] = self.description
-        setup["interaction_order"] = self.interaction_order
+        setup["interaction_order"] = deepcopy(self.interaction_order)
 
         layout = []
         for node, attrs in self.graph.nodes(data=True):
-- 
2.43.0


From f2f4cbe3e0eb6ec70fb60d062450ccb8624a9599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:29 +0000
Subject: [PATCH 06/28] fix: Layout.to_yaml reordered the neighbors and the
 interaction order

---
 surface_sim/layouts/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/layouts/layout.py b/surface_sim/layouts/layout.py
index 6daf3f9..b0ce191 100644
--- a/surface_sim/layouts/layout.py
+++ b/surface_sim/layouts/layout.py
@@ -419,7 +419,7 @@ class Layout:
         """
         setup = self.to_dict()
         with open(filename, "w") as file:
-            yaml.dump(setup, file, default_flow_style=False)
+            yaml.dump(setup, file, default_flow_style=False, sort_keys=False)
 
     def param(self, param: str, qubit: str) -> object:
         """Returns the parameter value of a given qubit
-- 
2.43.0


From 5152ef81ded256fae8175094f04c75bc6fb97ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:57 +0000
Subject: [PATCH 07/28] fix: set_coords gave one-dimensional coordinates along
 north, south, east and west

---
 surface_sim/layouts/util.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/surface_sim/layouts/util.py b/surface_sim/layouts/util.py
index 81fa691..1577347 100644
--- a/surface_sim/layouts/util.py
+++ b/surface_sim/layouts/util.py
@@ -19,11 +19,12 @@ def set_coords(layout: Layout, override: bool = False) -> None:
     if (not override) and (nx.get_node_attributes(layout.graph, "coords") != {}):
         raise ValueError("'layout' already has coordinates, use 'override' flag.")
 
-    # Get the shift in the coordinate for a given direction.
-    def get_shift(direction: str) -> int:
-        if direction in ("south", "west"):
-            return -1
-        return 1
+    # Get the (vertical, horizontal) shift in the coordinates for a given direction.
+    def get_shift(direction: str) -> tuple[int, int]:
+        card_dirs = direction.split("_")
+        ver_shift = ("north" in card_dirs) - ("south" in card_dirs)
+        hor_shift = ("east" in card_dirs) - ("west" in card_dirs)
+        return ver_shift, hor_shift
 
     nodes = list(layout.graph.nodes)  # graph nodes
     init_node = nodes.pop()  # initial node
@@ -42,9 +43,7 @@ def set_coords(layout: Layout, override: bool = False) -> None:
 
         for _, nbr_node, ord_dir in layout.graph.edges(node, data="direction"):
             if nbr_node not in set_nodes:
-                card_dirs = ord_dir.split("_")
-                shifts = tuple(map(get_shift, card_dirs))
-                nbr_coords = list(map(sum, zip(coords, shifts)))
+                nbr_coords = list(map(sum, zip(coords, get_shift(ord_dir))))
                 queue.appendleft((nbr_node, nbr_coords))
 
 
-- 
2.43.0


From deb5901fe5e45c6ca4f6a497c09a60d0aa337034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:57 +0000
Subject: [PATCH 08/28] fix: Setup ignored the local value of a parent
 parameter

---
 surface_sim/setup/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/setup/setup.py b/surface_sim/setup/setup.py
index 7dd8f72..5ad80e2 100644
--- a/surface_sim/setup/setup.py
+++ b/surface_sim/setup/setup.py
@@ -226,7 +226,7 @@ class Setup:
             return self._eval_param_val(val)
 
         if param in self.PARENTS:
-            return self.param(self.PARENTS[param])
+            return self.param(self.PARENTS[param], *qubits)
 
         if qubits:
             qubit_str = ", ".join(qubits)
-- 
2.43.0


From 4b8a82b6a50802ae5059c7035318cc8a7f4d492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:53 +0000
Subject: [PATCH 09/28] fix: Setup missed free parameters named like a
 parameter and could not set new local ones

---
 surface_sim/setup/setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_sim/setup/setup.py b/surface_sim/setup/setup.py
index 5ad80e2..2ed7eea 100644
--- a/surface_sim/setup/setup.py
+++ b/surface_sim/setup/setup.py
@@ -65,7 +65,7 @@ class Setup:
                 self._global_params.update(params_dict)
 
             for param, val in params_dict.items():
-                if isinstance(val, str) and param not in self._var_params:
+                if isinstance(val, str) and val not in self._var_params:
                     self._var_params[val] = None
 
     @property
@@ -196,7 +196,7 @@ class Setup:
         else:
             if any(not isinstance(q, str) for q in qubits):
                 raise TypeError("All qubits must be str.")
-            self._qubit_params[qubits][param] = param_val
+            self._qubit_params.setdefault(qubits, {})[param] = param_val
 
     def param(self, param: str, *qubits: str) -> float:
         """Returns the value of the given parameter for the specified qubit(s).
-- 
2.43.0


From 3b706d71116f2892d664918cef7d311f9ae4a6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:53 +0000
Subject: [PATCH 10/28] fix: Setup.to_dict returned its internal dictionaries

---
 surface_sim/setup/setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_sim/setup/setup.py b/surface_sim/setup/setup.py
index 2ed7eea..fdd8799 100644
--- a/surface_sim/setup/setup.py
+++ b/surface_sim/setup/setup.py
@@ -98,11 +98,11 @@ class Setup:
 
         setup["name"] = self.name
         setup["description"] = self.description
-        setup["gate_durations"] = self._gate_durations
+        setup["gate_durations"] = deepcopy(self._gate_durations)
 
         qubit_params = []
         if self._global_params:
-            qubit_params.append(self._global_params)
+            qubit_params.append(deepcopy(self._global_params))
 
         for qubits, params in self._qubit_params.items():
             params_copy = deepcopy(params)
-- 
2.43.0


From 4384df3e3374f420582a97c26fa874377c8798be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:00 +0000
Subject: [PATCH 11/28] fix: merge_tick_blocks permuted the measurements or
 failed if the blocks had different noise

---
 surface_sim/util/circuit_operations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index c9fd819..fdece3b 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -94,8 +94,12 @@ def merge_tick_blocks(*blocks: stim.Circuit) -> stim.Circuit:
     including noise channels).
     """
     ops_blocks = [tuple(instr.name for instr in block) for block in blocks]
-    if len(set(len(b) for b in ops_blocks)) != 1:
-        raise ValueError("The given blocks do not have the same number of operatons.")
+    if len(set(ops_blocks)) != 1 or any(
+        sum(name in MEAS_INSTR for name in ops) > 1 for ops in ops_blocks
+    ):
+        # interleaving these operations could change the order of the measurements
+        # with respect to the order in which the blocks have been generated.
+        return sum(blocks, start=stim.Circuit())
 
     mergeable_blocks = {}
     for block, op_block in zip(blocks, ops_blocks):
-- 
2.43.0


From 7bfa97c8b8bc800fe004ec8eea0f48238f9958ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:58 +0000
Subject: [PATCH 12/28] fix: merge_circuits reordered noise and measurements
 and rounded the probabilities

---
 surface_sim/util/circuit_operations.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index fdece3b..a88df1f 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -49,7 +49,8 @@ def merge_circuits(*circuits: stim.Circuit, check_meas: bool = True) -> stim.Cir
         raise ValueError("All the circuits must have the same number of TICKs.")
 
     # split circuits into TICK blocks
-    blocks = [[] for _ in range(circuits[0].num_ticks + 1)]
+    num_blocks = circuits[0].num_ticks + 1
+    blocks = [[stim.Circuit() for _ in circuits] for _ in range(num_blocks)]
     measure_block = [set() for _, _ in enumerate(circuits)]
     for k, circuit in enumerate(circuits):
         block_id = 0
@@ -59,7 +60,7 @@ def merge_circuits(*circuits: stim.Circuit, check_meas: bool = True) -> stim.Cir
             else:
                 if instr.name in MEAS_INSTR:
                     measure_block[k].add(block_id)
-                blocks[block_id].append(instr)
+                blocks[block_id][k].append(instr)
 
     if check_meas:
         if any(len(m) > 1 for m in measure_block):
@@ -71,15 +72,9 @@ def merge_circuits(*circuits: stim.Circuit, check_meas: bool = True) -> stim.Cir
                 "The measurements happen at different TICK blocks in each circuit."
             )
 
-    # sort the instructions in each block for better readability in the circuit
-    blocks = [sorted(block, key=lambda x: x.name) for block in blocks]
-
     # merge instructions in blocks and into a circuit.
-    # remember that it is not possible to add stim.CircuitInstruction to stim.Circuit
     tick = stim.Circuit("TICK")
-    merged_blocks = [
-        stim.Circuit("\n".join(map(str, block))) + tick for block in blocks
-    ]
+    merged_blocks = [merge_tick_blocks(*block) + tick for block in blocks]
     merged_blocks[-1].pop(-1)  # removes extra TICK at the end
     merged_circuit = sum(merged_blocks, start=stim.Circuit())
 
-- 
2.43.0


From ec0b6d95a5b259937f25118caa33cb3974d5cf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:27 +0000
Subject: [PATCH 13/28] fix: merge_log_meas dropped layers when the layouts are
 measured in different bases

---
 surface_sim/util/circuit_operations.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index a88df1f..6da390c 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -276,13 +276,19 @@ def merge_log_meas(
         if set(anc_detectors) > set(sum(anc_qubits, start=[])):
             raise ValueError("Some elements in 'anc_detectors' are not ancilla qubits.")
 
+    log_meas_blocks = [
+        list(log_meas_iterator(model=model, layout=l, rot_basis=r, **kargs))
+        for l, r in zip(layouts, rot_bases)
+    ]
+    # the number of layers depends on the basis, so the layouts with fewer layers
+    # idle at the beginning so that all of them are measured in the same layer
+    num_blocks = max(map(len, log_meas_blocks))
+    for layout, blocks in zip(layouts, log_meas_blocks):
+        while len(blocks) < num_blocks:
+            blocks[:0] = [model.idle(layout.get_qubits()), model.tick()]
+
     circuit = stim.Circuit()
-    for blocks in zip(
-        *[
-            log_meas_iterator(model=model, layout=l, rot_basis=r, **kargs)
-            for l, r in zip(layouts, rot_bases)
-        ]
-    ):
+    for blocks in zip(*log_meas_blocks, strict=True):
         merged_block = merge_tick_blocks(*blocks)
 
         if (len(merged_block) != 0) and (merged_block[0].name == "TICK"):
-- 
2.43.0


From e6e6d0800c375f606a41b3aae9f987e9d1c51843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:57 +0000
Subject: [PATCH 14/28] fix: merge_log_meas gave the same index to observables
 of different layouts

---
 surface_sim/util/circuit_operations.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index 6da390c..3d237e1 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -317,16 +317,17 @@ def merge_log_meas(
     )
 
     # add logicals
-    for k, (layout, rot_basis) in enumerate(zip(layouts, rot_bases)):
-        num_logs = len(layout.get_logical_qubits())
-        for l, log_qubit_label in enumerate(layout.get_logical_qubits()):
+    obs_ind = 0
+    for layout, rot_basis in zip(layouts, rot_bases):
+        for log_qubit_label in layout.get_logical_qubits():
             log_op = "log_x" if rot_basis else "log_z"
             log_qubits_support = getattr(layout, log_op)
             log_data_qubits = log_qubits_support[log_qubit_label]
             targets = [model.meas_target(qubit, -1) for qubit in log_data_qubits]
             instr = stim.CircuitInstruction(
-                "OBSERVABLE_INCLUDE", targets=targets, gate_args=[k * num_logs + l]
+                "OBSERVABLE_INCLUDE", targets=targets, gate_args=[obs_ind]
             )
             circuit.append(instr)
+            obs_ind += 1
 
     return circuit
-- 
2.43.0


From fbc788faa87a9311e3551fc7d40213e0c7a89138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:30 +0000
Subject: [PATCH 15/28] fix: merge_log_meas left the detectors of the measured
 layouts active

---
 surface_sim/util/circuit_operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index 3d237e1..167cc91 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -330,4 +330,8 @@ def merge_log_meas(
             circuit.append(instr)
             obs_ind += 1
 
+    # deactivate detectors
+    anc_qubits = set(sum([l.get_qubits(role="anc") for l in layouts], start=[]))
+    detectors.deactivate_detectors([a for a in anc_qubits if detectors.anc_qubits[a]])
+
     return circuit
-- 
2.43.0


From 238910548610cad3db5e19578bb9d264b51434f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:15 +0000
Subject: [PATCH 16/28] fix: alternating repeated_cnot_experiment did not
 alternate after the second gate

---
 .../experiments/rot_surface_code_css.py       | 670 +++++++++---------
 .../experiments/unrot_surface_code_css.py     |   6 +-
 2 files changed, 338 insertions(+), 338 deletions(-)

diff --git a/surface_sim/experiments/rot_surface_code_css.py b/surface_sim/experiments/rot_surface_code_css.py
index 3d0b794..8a87dfa 100644
--- a/surface_sim/experiments/rot_surface_code_css.py
+++ b/surface_sim/experiments/rot_surface_code_css.py
@@ -1,335 +1,335 @@
-from copy import deepcopy
-from stim import Circuit
-
-from ..layouts import Layout
-from ..circuit_blocks.rot_surface_code_css import (
-    init_qubits,
-    log_meas,
-    log_meas_iterator,
-    qec_round,
-    qec_round_iterator,
-    qubit_coords,
-    log_trans_s,
-    log_trans_cnot,
-)
-from ..models import Model
-from ..detectors import Detectors
-from ..util import merge_circuits, merge_qec_rounds, merge_log_meas
-
-
-def memory_experiment(
-    model: Model,
-    layout: Layout,
-    detectors: Detectors,
-    num_rounds: int,
-    data_init: dict[str, int] | list[int],
-    rot_basis: bool = False,
-    anc_reset: bool = True,
-    anc_detectors: list[str] | None = None,
-    gauge_detectors: bool = True,
-) -> Circuit:
-    """Returns the circuit for running a memory experiment.
-
-    Parameters
-    ----------
-    model
-        Noise model for the gates.
-    layout
-        Code layout.
-    detectors
-        Detector definitions to use.
-    num_rounds
-        Number of QEC cycle to run in the memory experiment.
-    data_init
-        Bitstring for initializing the data qubits.
-    rot_basis
-        If ``True``, the memory experiment is performed in the X basis.
-        If ``False``, the memory experiment is performed in the Z basis.
-        By deafult ``False``.
-    anc_reset
-        If ``True``, ancillas are reset at the beginning of the QEC cycle.
-        By default ``True``.
-    anc_detectors
-        List of ancilla qubits for which to define the detectors.
-        If ``None``, adds all detectors.
-        By default ``None``.
-    gauge_detectors
-        If ``True``, adds gauge detectors (coming from the first QEC cycle).
-        If ``False``, the resulting circuit does not have gauge detectors.
-        By default ``True``.
-    """
-    if not isinstance(num_rounds, int):
-        raise ValueError(
-            f"'num_rounds' expected as int, got {type(num_rounds)} instead."
-        )
-    if num_rounds < 0:
-        raise ValueError("'num_rounds' needs to be a positive integer.")
-    if not isinstance(data_init, dict):
-        raise TypeError(f"'data_init' must be a dict, but {type(data_init)} was given.")
-    if not isinstance(layout, Layout):
-        raise TypeError(f"'layout' must be a layout, but {type(layout)} was given.")
-    if anc_detectors is None:
-        anc_detectors = layout.get_qubits(role="anc")
-
-    model.new_circuit()
-    detectors.new_circuit()
-
-    experiment = Circuit()
-    experiment += qubit_coords(model, layout)
-    experiment += init_qubits(model, layout, detectors, data_init, rot_basis)
-
-    for r in range(num_rounds):
-        if r == 0 and (not gauge_detectors):
-            stab_type = "x_type" if rot_basis else "z_type"
-            stab_qubits = layout.get_qubits(role="anc", stab_type=stab_type)
-            first_dets = set(anc_detectors).intersection(stab_qubits)
-            experiment += qec_round(model, layout, detectors, anc_reset, first_dets)
-            continue
-
-        experiment += qec_round(model, layout, detectors, anc_reset, anc_detectors)
-
-    experiment += log_meas(
-        model, layout, detectors, rot_basis, anc_reset, anc_detectors
-    )
-
-    return experiment
-
-
-def repeated_s_experiment(
-    model: Model,
-    layout: Layout,
-    detectors: Detectors,
-    num_s_gates: int,
-    num_rounds_per_gate: int,
-    data_init: dict[str, int] | list[int],
-    rot_basis: bool = False,
-    anc_reset: bool = True,
-    anc_detectors: list[str] | None = None,
-    gauge_detectors: bool = True,
-) -> Circuit:
-    """Returns the circuit for running a repeated-S experiment.
-
-    Parameters
-    ----------
-    model
-        Noise model for the gates.
-    layout
-        Code layout.
-    detectors
-        Detector definitions to use.
-    num_s_gates
-        Number of logical (transversal) S gates to run in the experiment.
-    num_rounds_per_gate
-        Number of QEC cycles to be run after each logical S gate.
-    data_init
-        Bitstring for initializing the data qubits.
-    rot_basis
-        If ``True``, the repeated-S experiment is performed in the X basis.
-        If ``False``, the repeated-S experiment is performed in the Z basis.
-        By deafult ``False``.
-    anc_reset
-        If ``True``, ancillas are reset at the beginning of the QEC cycle.
-        By default ``True``.
-    anc_detectors
-        List of ancilla qubits for which to define the detectors.
-        If ``None``, adds all detectors.
-        By default ``None``.
-    gauge_detectors
-        If ``True``, adds gauge detectors (coming from the first QEC cycle).
-        If ``False``, the resulting circuit does not have gauge detectors.
-        By default ``True``.
-    """
-    if not isinstance(num_rounds_per_gate, int):
-        raise ValueError(
-            f"'num_rounds_per_gate' expected as int, got {type(num_rounds_per_gate)} instead."
-        )
-    if num_rounds_per_gate < 0:
-        raise ValueError("'num_rounds_per_gate' needs to be a positive integer.")
-
-    if not isinstance(num_s_gates, int):
-        raise ValueError(
-            f"'num_s_gates' expected as int, got {type(num_s_gates)} instead."
-        )
-    if (num_s_gates < 0) or (num_s_gates % 2 == 1):
-        raise ValueError("'num_s_gates' needs to be an even positive integer.")
-
-    if not isinstance(data_init, dict):
-        raise TypeError(f"'data_init' must be a dict, but {type(data_init)} was given.")
-
-    if not isinstance(layout, Layout):
-        raise TypeError(f"'layout' must be a layout, but {type(layout)} was given.")
-    if anc_detectors is None:
-        anc_detectors = layout.get_qubits(role="anc")
-
-    model.new_circuit()
-    detectors.new_circuit()
-
-    experiment = Circuit()
-    experiment += qubit_coords(model, layout)
-    experiment += init_qubits(model, layout, detectors, data_init, rot_basis)
-
-    first_dets = deepcopy(anc_detectors)
-    if not gauge_detectors:
-        stab_type = "x_type" if rot_basis else "z_type"
-        stab_qubits = layout.get_qubits(role="anc", stab_type=stab_type)
-        first_dets = set(anc_detectors).intersection(stab_qubits)
-
-    experiment += qec_round(model, layout, detectors, anc_reset, first_dets)
-
-    for _ in range(num_s_gates):
-        experiment += log_trans_s(model, layout, detectors)
-        for _ in range(num_rounds_per_gate):
-            experiment += qec_round(model, layout, detectors, anc_reset, anc_detectors)
-    experiment += log_meas(
-        model, layout, detectors, rot_basis, anc_reset, anc_detectors
-    )
-
-    return experiment
-
-
-def repeated_cnot_experiment(
-    model: Model,
-    layout_c: Layout,
-    layout_t: Layout,
-    detectors: Detectors,
-    num_cnot_gates: int,
-    num_rounds_per_gate: int,
-    data_init: dict[str, int] | list[int],
-    cnot_orientation: str = "alternating",
-    rot_basis: bool = False,
-    anc_reset: bool = True,
-    anc_detectors: list[str] | None = None,
-    gauge_detectors: bool = True,
-) -> Circuit:
-    """Returns the circuit for running a repeated-CNOT experiment.
-
-    Parameters
-    ----------
-    model
-        Noise model for the gates.
-    layout_c
-        Code layout for the control of the transversal CNOT, unless
-        ``cnot_orientation = "alternating"``.
-    layout_t
-        Code layout for the target of the transversal CNOT, unless
-        ``cnot_orientation = "alternating"``.
-    detectors
-        Detector definitions to use.
-    num_cnot_gates
-        Number of logical (transversal) CNOT gates to run in the experiment.
-    num_rounds_per_gate
-        Number of QEC cycles to be run after each logical CNOT gate.
-    data_init
-        Bitstring for initializing the data qubits.
-    cnot_orientation
-        Determines the orientation of the CNOTS in this circuit.
-        The options are ``"constant"`` and ``"alternating"``.
-        By default ``"alternating"``.
-    rot_basis
-        If ``True``, the repeated-CNOT experiment is performed in the X basis.
-        If ``False``, the repeated-CNOT experiment is performed in the Z basis.
-        By deafult ``False``.
-    anc_reset
-        If ``True``, ancillas are reset at the beginning of the QEC cycle.
-        By default ``True``.
-    anc_detectors
-        List of ancilla qubits for which to define the detectors.
-        If ``None``, adds all detectors.
-        By default ``None``.
-    gauge_detectors
-        If ``True``, adds gauge detectors (coming from the first QEC cycle).
-        If ``False``, the resulting circuit does not have gauge detectors.
-        By default ``True``.
-    """
-    if not isinstance(num_rounds_per_gate, int):
-        raise ValueError(
-            f"'num_rounds_per_gate' expected as int, got {type(num_rounds_per_gate)} instead."
-        )
-    if num_rounds_per_gate < 0:
-        raise ValueError("'num_rounds_per_gate' needs to be a positive integer.")
-
-    if not isinstance(num_cnot_gates, int):
-        raise ValueError(
-            f"'num_s_gates' expected as int, got {type(num_cnot_gates)} instead."
-        )
-    if num_cnot_gates < 0:
-        raise ValueError("'num_cnot_gates' needs to be a positive integer.")
-
-    if not isinstance(data_init, dict):
-        raise TypeError(f"'data_init' must be a dict, but {type(data_init)} was given.")
-
-    if not isinstance(layout_c, Layout):
-        raise TypeError(f"'layout_c' must be a Layout, but {type(layout_c)} was given.")
-    if not isinstance(layout_t, Layout):
-        raise TypeError(f"'layout_t' must be a Layout, but {type(layout_t)} was given.")
-    if anc_detectors is None:
-        anc_detectors = layout_c.get_qubits(role="anc")
-        anc_detectors += layout_t.get_qubits(role="anc")
-
-    if cnot_orientation not in ["constant", "alternating"]:
-        raise TypeError(
-            "'cnot_orientation' must be 'constant' or 'alternating'"
-            f" but {cnot_orientation} was given."
-        )
-
-    data_init_c = {k: v for k, v in data_init.items() if k in layout_c.get_qubits()}
-    data_init_t = {k: v for k, v in data_init.items() if k in layout_t.get_qubits()}
-
-    model.new_circuit()
-    detectors.new_circuit()
-
-    experiment = Circuit()
-    experiment += qubit_coords(model, layout_c, layout_t)
-    experiment += merge_circuits(
-        init_qubits(
-            model, layout_c, detectors, data_init=data_init_c, rot_basis=rot_basis
-        ),
-        init_qubits(
-            model, layout_t, detectors, data_init=data_init_t, rot_basis=rot_basis
-        ),
-    )
-
-    first_dets = deepcopy(anc_detectors)
-    if not gauge_detectors:
-        stab_type = "x_type" if rot_basis else "z_type"
-        stab_qubits = layout_c.get_qubits(role="anc", stab_type=stab_type)
-        stab_qubits += layout_t.get_qubits(role="anc", stab_type=stab_type)
-        first_dets = set(anc_detectors).intersection(stab_qubits)
-
-    experiment += merge_qec_rounds(
-        qec_round_iterator,
-        model,
-        [layout_c, layout_t],
-        detectors,
-        anc_reset=anc_reset,
-        anc_detectors=first_dets,
-    )
-
-    for k in range(num_cnot_gates):
-        if (cnot_orientation == "alternating") and (k % 2 == 1):
-            # change control and target of t-CNOT
-            layout_c, layout_t = layout_t, layout_c
-
-        experiment += log_trans_cnot(model, layout_c, layout_t, detectors)
-
-        for _ in range(num_rounds_per_gate):
-            experiment += merge_qec_rounds(
-                qec_round_iterator,
-                model,
-                [layout_c, layout_t],
-                detectors,
-                anc_reset=anc_reset,
-                anc_detectors=anc_detectors,
-            )
-
-    experiment += merge_log_meas(
-        log_meas_iterator,
-        model,
-        [layout_c, layout_t],
-        detectors,
-        rot_bases=[rot_basis, rot_basis],
-        anc_reset=anc_reset,
-        anc_detectors=anc_detectors,
-    )
-
-    return experiment
+from copy import deepcopy
+from stim import Circuit
+
+from ..layouts import Layout
+from ..circuit_blocks.rot_surface_code_css import (
+    init_qubits,
+    log_meas,
+    log_meas_iterator,
+    qec_round,
+    qec_round_iterator,
+    qubit_coords,
+    log_trans_s,
+    log_trans_cnot,
+)
+from ..models import Model
+from ..detectors import Detectors
+from ..util import merge_circuits, merge_qec_rounds, merge_log_meas
+
+
+def memory_experiment(
+    model: Model,
+    layout: Layout,
+    detectors: Detectors,
+    num_rounds: int,
+    data_init: dict[str, int] | list[int],
+    rot_basis: bool = False,
+    anc_reset: bool = True,
+    anc_detectors: list[str] | None = None,
+    gauge_detectors: bool = True,
+) -> Circuit:
+    """Returns the circuit for running a memory experiment.
+
+    Parameters
+    ----------
+    model
+        Noise model for the gates.
+    layout
+        Code layout.
+    detectors
+        Detector definitions to use.
+    num_rounds
+        Number of QEC cycle to run in the memory experiment.
+    data_init
+        Bitstring for initializing the data qubits.
+    rot_basis
+        If ``True``, the memory experiment is performed in the X basis.
+        If ``False``, the memory experiment is performed in the Z basis.
+        By deafult ``False``.
+    anc_reset
+        If ``True``, ancillas are reset at the beginning of the QEC cycle.
+        By default ``True``.
+    anc_detectors
+        List of ancilla qubits for which to define the detectors.
+        If ``None``, adds all detectors.
+        By default ``None``.
+    gauge_detectors
+        If ``True``, adds gauge detectors (coming from the first QEC cycle).
+        If ``False``, the resulting circuit does not have gauge detectors.
+        By default ``True``.
+    """
+    if not isinstance(num_rounds, int):
+        raise ValueError(
+            f"'num_rounds' expected as int, got {type(num_rounds)} instead."
+        )
+    if num_rounds < 0:
+        raise ValueError("'num_rounds' needs to be a positive integer.")
+    if not isinstance(data_init, dict):
+        raise TypeError(f"'data_init' must be a dict, but {type(data_init)} was given.")
+    if not isinstance(layout, Layout):
+        raise TypeError(f"'layout' must be a layout, but {type(layout)} was given.")
+    if anc_detectors is None:
+        anc_detectors = layout.get_qubits(role="anc")
+
+    model.new_circuit()
+    detectors.new_circuit()
+
+    experiment = Circuit()
+    experiment += qubit_coords(model, layout)
+    experiment += init_qubits(model, layout, detectors, data_init, rot_basis)
+
+    for r in range(num_rounds):
+        if r == 0 and (not gauge_detectors):
+            stab_type = "x_type" if rot_basis else "z_type"
+            stab_qubits = layout.get_qubits(role="anc", stab_type=stab_type)
+            first_dets = set(anc_detectors).intersection(stab_qubits)
+            experiment += qec_round(model, layout, detectors, anc_reset, first_dets)
+            continue
+
+        experiment += qec_round(model, layout, detectors, anc_reset, anc_detectors)
+
+    experiment += log_meas(
+        model, layout, detectors, rot_basis, anc_reset, anc_detectors
+    )
+
+    return experiment
+
+
+def repeated_s_experiment(
+    model: Model,
+    layout: Layout,
+    detectors: Detectors,
+    num_s_gates: int,
+    num_rounds_per_gate: int,
+    data_init: dict[str, int] | list[int],
+    rot_basis: bool = False,
+    anc_reset: bool = True,
+    anc_detectors: list[str] | None = None,
+    gauge_detectors: bool = True,
+) -> Circuit:
+    """Returns the circuit for running a repeated-S experiment.
+
+    Parameters
+    ----------
+    model
+        Noise model for the gates.
+    layout
+        Code layout.
+    detectors
+        Detector definitions to use.
+    num_s_gates
+        Number of logical (transversal) S gates to run in the experiment.
+    num_rounds_per_gate
+        Number of QEC cycles to be run after each logical S gate.
+    data_init
+        Bitstring for initializing the data qubits.
+    rot_basis
+        If ``True``, the repeated-S experiment is performed in the X basis.
+        If ``False``, the repeated-S experiment is performed in the Z basis.
+        By deafult ``False``.
+    anc_reset
+        If ``True``, ancillas are reset at the beginning of the QEC cycle.
+        By default ``True``.
+    anc_detectors
+        List of ancilla qubits for which to define the detectors.
+        If ``None``, adds all detectors.
+        By default ``None``.
+    gauge_detectors
+        If ``True``, adds gauge detectors (coming from the first QEC cycle).
+        If ``False``, the resulting circuit does not have gauge detectors.
+        By default ``True``.
+    """
+    if not isinstance(num_rounds_per_gate, int):
+        raise ValueError(
+            f"'num_rounds_per_gate' expected as int, got {type(num_rounds_per_gate)} instead."
+        )
+    if num_rounds_per_gate < 0:
+        raise ValueError("'num_rounds_per_gate' needs to be a positive integer.")
+
+    if not isinstance(num_s_gates, int):
+        raise ValueError(
+            f"'num_s_gates' expected as int, got {type(num_s_gates)} instead."
+        )
+    if (num_s_gates < 0) or (num_s_gates % 2 == 1):
+        raise ValueError("'num_s_gates' needs to be an even positive integer.")
+
+    if not isinstance(data_init, dict):
+        raise TypeError(f"'data_init' must be a dict, but {type(data_init)} was given.")
+
+    if not isinstance(layout, Layout):
+        raise TypeError(f"'layout' must be a layout, but {type(layout)} was given.")
+    if anc_detectors is None:
+        anc_detectors = layout.get_qubits(role="anc")
+
+    model.new_circuit()
+    detectors.new_circuit()
+
+    experiment = Circuit()
+    experiment += qubit_coords(model, layout)
+    experiment += init_qubits(model, layout, detectors, data_init, rot_basis)
+
+    first_dets = deepcopy(anc_detectors)
+    if not gauge_detectors:
+        stab_type = "x_type" if rot_basis else "z_type"
+        stab_qubits = layout.get_qubits(role="anc", stab_type=stab_type)
+        first_dets = set(anc_detectors).intersection(stab_qubits)
+
+    experiment += qec_round(model, layout, detectors, anc_reset, first_dets)
+
+    for _ in range(num_s_gates):
+        experiment += log_trans_s(model, layout, detectors)
+        for _ in range(num_rounds_per_gate):
+            experiment += qec_round(model, layout, detectors, anc_reset, anc_detectors)
+    experiment += log_meas(
+        model, layout, detectors, rot_basis, anc_reset, anc_detectors
+    )
+
+    return experiment
+
+
+def repeated_cnot_experiment(
+    model: Model,
+    layout_c: Layout,
+    layout_t: Layout,
+    detectors: Detectors,
+    num_cnot_gates: int,
+    num_rounds_per_gate: int,
+    data_init: dict[str, int] | list[int],
+    cnot_orientation: str = "alternating",
+    rot_basis: bool = False,
+    anc_reset: bool = True,
+    anc_detectors: list[str] | None = None,
+    gauge_detectors: bool = True,
+) -> Circuit:
+    """Returns the circuit for running a repeated-CNOT experiment.
+
+    Parameters
+    ----------
+    model
+        Noise model for the gates.
+    layout_c
+        Code layout for the control of the transversal CNOT, unless
+        ``cnot_orientation = "alternating"``.
+    layout_t
+        Code layout for the target of the transversal CNOT, unless
+        ``cnot_orientation = "alternating"``.
+    detectors
+        Detector definitions to use.
+    num_cnot_gates
+        Number of logical (transversal) CNOT gates to run in the experiment.
+    num_rounds_per_gate
+        Number of QEC cycles to be run after each logical CNOT gate.
+    data_init
+        Bitstring for initializing the data qubits.
+    cnot_orientation
+        Determines the orientation of the CNOTS in this circuit.
+        The options are ``"constant"`` and ``"alternating"``.
+        By default ``"alternating"``.
+    rot_basis
+        If ``True``, the repeated-CNOT experiment is performed in the X basis.
+        If ``False``, the repeated-CNOT experiment is performed in the Z basis.
+        By deafult ``False``.
+    anc_reset
+        If ``True``, ancillas are reset at the beginning of the QEC cycle.
+        By default ``True``.
+    anc_detectors
+        List of ancilla qubits for which to define the detectors.
+        If ``None``, adds all detectors.
+        By default ``None``.
+    gauge_detectors
+        If ``True``, adds gauge detectors (coming from the first QEC cycle).
+        If ``False``, the resulting circuit does not have gauge detectors.
+        By default ``True``.
+    """
+    if not isinstance(num_rounds_per_gate, int):
+        raise ValueError(
+            f"'num_rounds_per_gate' expected as int, got {type(num_rounds_per_gate)} instead."
+        )
+    if num_rounds_per_gate < 0:
+        raise ValueError("'num_rounds_per_gate' needs to be a positive integer.")
+
+    if not isinstance(num_cnot_gates, int):
+        raise ValueError(
+            f"'num_s_gates' expected as int, got {type(num_cnot_gates)} instead."
+        )
+    if num_cnot_gates < 0:
+        raise ValueError("'num_cnot_gates' needs to be a positive integer.")
+
+    if not isinstance(data_init, dict):
+        raise TypeError(f"'data_init' must be a dict, but {type(data_init)} was given.")
+
+    if not isinstance(layout_c, Layout):
+        raise TypeError(f"'layout_c' must be a Layout, but {type(layout_c)} was given.")
+    if not isinstance(layout_t, Layout):
+        raise TypeError(f"'layout_t' must be a Layout, but {type(layout_t)} was given.")
+    if anc_detectors is None:
+        anc_detectors = layout_c.get_qubits(role="anc")
+        anc_detectors += layout_t.get_qubits(role="anc")
+
+    if cnot_orientation not in ["constant", "alternating"]:
+        raise TypeError(
+            "'cnot_orientation' must be 'constant' or 'alternating'"
+            f" but {cnot_orientation} was given."
+        )
+
+    data_init_c = {k: v for k, v in data_init.items() if k in layout_c.get_qubits()}
+    data_init_t = {k: v for k, v in data_init.items() if k in layout_t.get_qubits()}
+
+    model.new_circuit()
+    detectors.new_circuit()
+
+    experiment = Circuit()
+    experiment += qubit_coords(model, layout_c, layout_t)
+    experiment += merge_circuits(
+        init_qubits(
+            model, layout_c, detectors, data_init=data_init_c, rot_basis=rot_basis
+        ),
+        init_qubits(
+            model, layout_t, detectors, data_init=data_init_t, rot_basis=rot_basis
+        ),
+    )
+
+    first_dets = deepcopy(anc_detectors)
+    if not gauge_detectors:
+        stab_type = "x_type" if rot_basis else "z_type"
+        stab_qubits = layout_c.get_qubits(role="anc", stab_type=stab_type)
+        stab_qubits += layout_t.get_qubits(role="anc", stab_type=stab_type)
+        first_dets = set(anc_detectors).intersection(stab_qubits)
+
+    experiment += merge_qec_rounds(
+        qec_round_iterator,
+        model,
+        [layout_c, layout_t],
+        detectors,
+        anc_reset=anc_reset,
+        anc_detectors=first_dets,
+    )
+
+    for k in range(num_cnot_gates):
+        if (cnot_orientation == "alternating") and (k % 2 == 1):
+            # change control and target of t-CNOT
+            experiment += log_trans_cnot(model, layout_t, layout_c, detectors)
+        else:
+            experiment += log_trans_cnot(model, layout_c, layout_t, detectors)
+
+        for _ in range(num_rounds_per_gate):
+            experiment += merge_qec_rounds(
+                qec_round_iterator,
+                model,
+                [layout_c, layout_t],
+                detectors,
+                anc_reset=anc_reset,
+                anc_detectors=anc_detectors,
+            )
+
+    experiment += merge_log_meas(
+        log_meas_iterator,
+        model,
+        [layout_c, layout_t],
+        detectors,
+        rot_bases=[rot_basis, rot_basis],
+        anc_reset=anc_reset,
+        anc_detectors=anc_detectors,
+    )
+
+    return experiment
diff --git a/surface_sim/experiments/unrot_surface_code_css.py b/surface_sim/experiments/unrot_surface_code_css.py
index 360672a..8be8b72 100644
--- a/surface_sim/experiments/unrot_surface_code_css.py
+++ b/surface_sim/experiments/unrot_surface_code_css.py
@@ -403,9 +403,9 @@ def repeated_cnot_experiment(
     for k in range(num_cnot_gates):
         if (cnot_orientation == "alternating") and (k % 2 == 1):
             # change control and target of t-CNOT
-            layout_c, layout_t = layout_t, layout_c
-
-        experiment += log_trans_cnot(model, layout_c, layout_t, detectors)
+            experiment += log_trans_cnot(model, layout_t, layout_c, detectors)
+        else:
+            experiment += log_trans_cnot(model, layout_c, layout_t, detectors)
 
         for _ in range(num_rounds_per_gate):
             experiment += merge_qec_rounds(
-- 
2.43.0


From 89d53eae38b5f54dc4e06afa95632f05d37303cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:34 +0000
Subject: [PATCH 17/28] fix: detectors inverted the effect of the logical gates
 in their frames

The outcomes were expressed in the frame with the real (not mod 2) inverse and
with the matrices in the opposite order, so that detectors were not deterministic
if several gates that do not commute had been applied between rounds.
---
 surface_sim/detectors/detectors.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index ad4f015..cba71ab 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -546,9 +546,11 @@ def _get_ancilla_meas_for_detectors(
     basis_arr = basis.sel(stab_gen=anc_qubits).values
     prev_gen_arr = prev_gen.sel(stab_gen=anc_qubits).values
 
-    # convert self.prev_gen and self.curr_gen to the frame basis
-    curr_gen_arr = curr_gen_arr @ np.linalg.inv(basis_arr)
-    prev_gen_arr = prev_gen_arr @ np.linalg.inv(basis_arr)
+    # The outcomes are related by s_curr = curr_gen @ prev_gen^{-1} @ s_prev (mod 2).
+    # Express the outcomes of both rounds in the frame basis.
+    basis_arr = GF2(basis_arr.astype(int) % 2)
+    curr_gen_arr = basis_arr @ np.linalg.inv(GF2(curr_gen_arr.astype(int) % 2))
+    prev_gen_arr = basis_arr @ np.linalg.inv(GF2(prev_gen_arr.astype(int) % 2))
 
     # get all outcomes that need to be XORed
     detectors = {}
-- 
2.43.0


From d25b4bc9d73ef83fdcb005b27ee52602e75a1f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:48 +0000
Subject: [PATCH 18/28] fix: detectors referred to outcomes of ancillas that
 had not been measured yet

The number of rounds of the ancilla that owns the detector was used instead of
the one from the ancillas that appear in it.
---
 surface_sim/detectors/detectors.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index cba71ab..571c8dd 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -555,17 +555,18 @@ def _get_ancilla_meas_for_detectors(
     # get all outcomes that need to be XORed
     detectors = {}
     for anc_qubit, c_gen, p_gen in zip(anc_qubits, curr_gen_arr, prev_gen_arr):
-        c_gen_inds = np.where(c_gen)[0]
-        p_gen_inds = np.where(p_gen)[0]
-
-        targets = [(anc_qubits[ind], -1) for ind in c_gen_inds]
-        if num_rounds[anc_qubit] >= 2:
-            targets += [(anc_qubits[ind], -2) for ind in p_gen_inds]
-
-        if not anc_reset_curr and num_rounds[anc_qubit] >= 2:
-            targets += [(anc_qubits[ind], -2) for ind in c_gen_inds]
-        if not anc_reset_prev and num_rounds[anc_qubit] >= 3:
-            targets += [(anc_qubits[ind], -3) for ind in p_gen_inds]
+        c_ancs = [anc_qubits[ind] for ind in np.where(c_gen)[0]]
+        p_ancs = [anc_qubits[ind] for ind in np.where(p_gen)[0]]
+
+        targets = [(a, -1) for a in c_ancs]
+        # the ancillas can have been activated in different rounds, so the existence
+        # of an outcome depends on the ancilla that would have been measured.
+        targets += [(a, -2) for a in p_ancs if num_rounds[a] >= 2]
+
+        if not anc_reset_curr:
+            targets += [(a, -2) for a in c_ancs if num_rounds[a] >= 2]
+        if not anc_reset_prev:
+            targets += [(a, -3) for a in p_ancs if num_rounds[a] >= 3]
 
         detectors[anc_qubit] = targets
 
-- 
2.43.0


From e4505f0bfbd647fd5e4df9b9ccabbf0bd47d5877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:21 +0000
Subject: [PATCH 19/28] fix: deactivating detectors corrupted the generators of
 the other ancillas

The entries were removed from the accumulated generators, which could make them
singular and did not remove only the gates applied since the last round.
---
 surface_sim/detectors/detectors.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index 571c8dd..60025fd 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -128,13 +128,21 @@ class Detectors:
                 "Elements in 'anc_qubits' are not ancilla qubits in this object."
             )
 
+        # express the current generators as a function of the ones measured in the
+        # previous round, so that only the gates applied since then are modified.
+        curr_gen, prev_gen = self.curr_gen.to_numpy(), self.prev_gen.to_numpy()
+        prev_inv = np.linalg.inv(GF2(prev_gen.astype(int) % 2))
+        self.curr_gen.values = np.array(GF2(curr_gen.astype(int) % 2) @ prev_inv)
+        self.prev_gen = deepcopy(self.init_gen)
+
         for anc in anc_qubits:
             if not self.anc_qubits[anc]:
                 raise ValueError(f"Ancilla {anc} was already active.")
 
             self.anc_qubits[anc] = False
 
-            # set the generators to the identity for the deactivated ancillas.
+            # set the generators to the identity for the deactivated ancillas
+            # with respect to the generators measured in the previous round.
             # See #149 for more information.
             for other_anc in self.anc_qubit_labels:
                 anc_ind = self.anc_qubit_labels.index(anc)
-- 
2.43.0


From d871e706e52051d925da5706fb0aec079b85313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:58 +0000
Subject: [PATCH 20/28] fix: building detectors from data dropped the pending
 gates of other patches

If only some of the patches are measured, the gates applied to the other ones
since their last round were forgotten in their next detectors.
---
 surface_sim/detectors/detectors.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index 60025fd..4750170 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -506,8 +506,11 @@ class Detectors:
             )
             detectors_stim.append(instr)
 
-        # update generators
-        self.prev_gen = deepcopy(self.curr_gen)
+        # update generators. If some of the active stabilizers have not been measured,
+        # the gates applied to them still need to be included in their next detectors.
+        active_ancs = set(a for a, active in self.anc_qubits.items() if active)
+        if active_ancs <= set(reconstructable_stabs):
+            self.prev_gen = deepcopy(self.curr_gen)
 
         return detectors_stim
 
-- 
2.43.0


From 7f980f37baeb2eba4629a5ba020ab9ba8ceebe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:17 +0000
Subject: [PATCH 21/28] fix: rotated set_trans_s failed on coordinates that are
 not exact in floating point

---
 surface_sim/log_gates/rot_surface_code_css.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/surface_sim/log_gates/rot_surface_code_css.py b/surface_sim/log_gates/rot_surface_code_css.py
index a9cb573..1c086ed 100644
--- a/surface_sim/log_gates/rot_surface_code_css.py
+++ b/surface_sim/log_gates/rot_surface_code_css.py
@@ -10,7 +10,8 @@ def set_trans_s(layout: Layout, data_qubit: str) -> None:
     """Adds the required attributes (in place) for the layout to run the transversal S
     gate for the rotated surface code.
 
-    This implementation assumes that the qubits are placed in a square 2D grid.
+    This implementation assumes that the qubits are placed in a square 2D grid,
+    and the separation between qubits is larger than ``1e-5`` units.
 
     Parameters
     ----------
@@ -66,11 +67,12 @@ def set_trans_s(layout: Layout, data_qubit: str) -> None:
 
     # get the CZs from the data qubit positions
     coords_to_label_dict = {
-        tuple(attr["coords"]): node for node, attr in layout.graph.nodes.items()
+        tuple(np.round(attr["coords"], decimals=5)): node  # to avoid numerical issues
+        for node, attr in layout.graph.nodes.items()
     }
 
     def coords_to_label(c):
-        c = tuple(c)
+        c = tuple(np.round(c, decimals=5))
         if c not in coords_to_label_dict:
             return None
         else:
-- 
2.43.0


From 6495b386c4bcd908fcdb4beb48c4f6e55cfbe64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:21 +0000
Subject: [PATCH 22/28] fix: XZZX logical X and Z did not idle the data qubits
 outside their support

---
 surface_sim/circuit_blocks/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/surface_sim/circuit_blocks/util.py b/surface_sim/circuit_blocks/util.py
index fda1c87..801a67a 100644
--- a/surface_sim/circuit_blocks/util.py
+++ b/surface_sim/circuit_blocks/util.py
@@ -606,7 +606,8 @@ def log_x_xzzx_iterator(model: Model, layout: Layout) -> Iterator[Circuit]:
     pauli_z = set(d for d in log_x_qubits if d in rot_qubits)
     pauli_x = set(log_x_qubits) - pauli_z
 
-    yield model.x_gate(pauli_x) + model.z_gate(pauli_z) + model.idle(anc_qubits)
+    idle_qubits = set(anc_qubits + data_qubits) - set(log_x_qubits)
+    yield model.x_gate(pauli_x) + model.z_gate(pauli_z) + model.idle(idle_qubits)
     yield model.tick()
 
 
@@ -641,7 +642,8 @@ def log_z_xzzx_iterator(model: Model, layout: Layout) -> Iterator[Circuit]:
     pauli_x = set(d for d in log_z_qubits if d in rot_qubits)
     pauli_z = set(log_z_qubits) - pauli_x
 
-    yield model.x_gate(pauli_x) + model.z_gate(pauli_z) + model.idle(anc_qubits)
+    idle_qubits = set(anc_qubits + data_qubits) - set(log_z_qubits)
+    yield model.x_gate(pauli_x) + model.z_gate(pauli_z) + model.idle(idle_qubits)
     yield model.tick()
 
 
-- 
2.43.0


From 22e7d5ae98395c0763fbb5ef3c27c213c816fc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:10 +0000
Subject: [PATCH 23/28] fix: detectors mixed up generators after updates with
 matrices in another axis order

---
 surface_sim/detectors/detectors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index 4750170..13d1caf 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -264,6 +264,8 @@ class Detectors:
 
         self.curr_gen = (unitary_mat @ self.curr_gen) % 2
         self.curr_gen = self.curr_gen.rename({"new_stab_gen": "stab_gen"})
+        # the axes of 'unitary_mat' can have any order
+        self.curr_gen = self.curr_gen.sel(stab_gen=self.anc_qubit_labels)
 
         return
 
-- 
2.43.0


From f1452a84ad74a331a63b55bf265b13ddf38732ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:22 +0000
Subject: [PATCH 24/28] fix: Detectors failed when the ancilla qubits were
 given as a tuple

---
 surface_sim/detectors/detectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index 13d1caf..1811003 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -68,7 +68,7 @@ class Detectors:
         if len(set(len(c) for c in anc_coords.values())) != 1:
             raise ValueError("Values in 'anc_coords' must have the same lenght.")
 
-        self.anc_qubit_labels = anc_qubits
+        self.anc_qubit_labels = list(anc_qubits)
         self.frame = frame
         self.anc_coords = anc_coords
 
-- 
2.43.0


From 34077e0c3a1f700ad056ad26bbf36f350a0857f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:11 +0000
Subject: [PATCH 25/28] fix: merged logical measurements idled in the layer of
 the incoming noise

---
 surface_sim/util/circuit_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index 167cc91..2f5e690 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -281,11 +281,11 @@ def merge_log_meas(
         for l, r in zip(layouts, rot_bases)
     ]
     # the number of layers depends on the basis, so the layouts with fewer layers
-    # idle at the beginning so that all of them are measured in the same layer
+    # idle before their last layer so that all of them are measured in the same one
     num_blocks = max(map(len, log_meas_blocks))
     for layout, blocks in zip(layouts, log_meas_blocks):
         while len(blocks) < num_blocks:
-            blocks[:0] = [model.idle(layout.get_qubits()), model.tick()]
+            blocks[-2:-2] = [model.idle(layout.get_qubits()), model.tick()]
 
     circuit = stim.Circuit()
     for blocks in zip(*log_meas_blocks, strict=True):
-- 
2.43.0


From d3b15f457a55ba55c0768239e9731ce4f0a9aa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:41 +0000
Subject: [PATCH 26/28] fix: plotted labels were truncated after the first
 number

---
 surface_sim/layouts/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/layouts/plotter.py b/surface_sim/layouts/plotter.py
index ef22178..8ae313c 100644
--- a/surface_sim/layouts/plotter.py
+++ b/surface_sim/layouts/plotter.py
@@ -83,7 +83,7 @@ def get_label(qubit: str, coords: Coordinates, **kwargs) -> Text:
     text = deepcopy(qubit)
 
     # check if the qubit can be plotted using TeX
-    match = RE_FILTER.match(qubit)
+    match = RE_FILTER.fullmatch(qubit)
     if match is not None:
         name, ind = match.groups()
         text = f"${name}_\\mathrm{{{ind}}}$"
-- 
2.43.0


From bc37facd86b4ac366dadcb0254bab0b27b98e542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:20 +0000
Subject: [PATCH 27/28] hook: count executed functions when SURFACE_SIM_MONITOR
 is set

---
 surface_sim/_monitor.py                       | 57 +++++++++++++++++++
 .../circuit_blocks/rot_surface_code_css.py    |  4 ++
 .../rot_surface_code_css_pipelined.py         |  4 ++
 .../circuit_blocks/rot_surface_code_xzzx.py   |  4 ++
 .../rot_surface_code_xzzx_google.py           |  4 ++
 .../rot_surface_code_xzzx_pipelined.py        |  4 ++
 .../circuit_blocks/unrot_surface_code_css.py  |  4 ++
 surface_sim/circuit_blocks/util.py            |  4 ++
 surface_sim/detectors/detectors.py            |  4 ++
 .../experiments/rot_surface_code_css.py       |  4 ++
 .../rot_surface_code_css_pipelined.py         |  4 ++
 .../experiments/rot_surface_code_xzzx.py      |  4 ++
 .../rot_surface_code_xzzx_google.py           |  4 ++
 .../rot_surface_code_xzzx_pipelined.py        |  4 ++
 .../experiments/unrot_surface_code_css.py     |  4 ++
 surface_sim/layouts/layout.py                 |  5 ++
 .../layouts/library/rot_surface_codes.py      |  4 ++
 .../layouts/library/unrot_surface_codes.py    |  4 ++
 surface_sim/layouts/library/util.py           |  6 ++
 surface_sim/layouts/operations.py             |  4 ++
 surface_sim/layouts/plotter.py                |  4 ++
 surface_sim/layouts/util.py                   |  4 ++
 surface_sim/log_gates/rot_surface_code_css.py |  4 ++
 .../log_gates/unrot_surface_code_css.py       |  4 ++
 surface_sim/models/library.py                 |  4 ++
 surface_sim/models/model.py                   |  4 ++
 surface_sim/models/util.py                    |  5 ++
 surface_sim/setup/library.py                  |  4 ++
 surface_sim/setup/setup.py                    |  5 ++
 surface_sim/util/circuit_operations.py        |  4 ++
 surface_sim/util/data_gen.py                  |  4 ++
 31 files changed, 182 insertions(+)
 create mode 100644 surface_sim/_monitor.py

diff --git a/surface_sim/_monitor.py b/surface_sim/_monitor.py
new file mode 100644
index 0000000..9e1b2f6
--- /dev/null
+++ b/surface_sim/_monitor.py
@@ -0,0 +1,57 @@
+"""Counts how often the functions of the package are executed.
+
+It is switched off, and does nothing, unless the environment variable
+``SURFACE_SIM_MONITOR`` is set when the package is imported.
+"""
+
+import os
+import sys
+from types import FunctionType
+
+GUARD = "SURFACE_SIM_MONITOR"
+
+# "module:function" to the number of times it has been entered
+CALLS = {}
+
+_names = {}
+
+
+def _count(code, _offset):
+    name = _names[code]
+    CALLS[name] = CALLS.get(name, 0) + 1
+
+
+def _functions(namespace: dict, module_name: str):
+    for value in list(namespace.values()):
+        if isinstance(value, (staticmethod, classmethod)):
+            value = value.__func__
+        if isinstance(value, property):
+            value = value.fget
+        if getattr(value, "__module__", None) != module_name:
+            continue
+        if isinstance(value, FunctionType):
+            yield value
+        elif isinstance(value, type):
+            yield from _functions(vars(value), module_name)
+
+
+def watch(module_name: str) -> None:
+    """Starts counting the executions of the functions of a module.
+
+    Parameters
+    ----------
+    module_name
+        Name of the module, which calls this function after its definitions.
+    """
+    if not os.environ.get(GUARD) or not hasattr(sys, "monitoring"):
+        return
+
+    events, tool = sys.monitoring.events.PY_START, 4
+    if sys.monitoring.get_tool(tool) is None:
+        sys.monitoring.use_tool_id(tool, GUARD)
+        sys.monitoring.register_callback(tool, events, _count)
+
+    for function in _functions(vars(sys.modules[module_name]), module_name):
+        code = function.__code__
+        _names[code] = f"{module_name}:{function.__qualname__}"
+        sys.monitoring.set_local_events(tool, code, events)
diff --git a/surface_sim/circuit_blocks/rot_surface_code_css.py b/surface_sim/circuit_blocks/rot_surface_code_css.py
index 55f09fd..542eb25 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_css.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_css.py
@@ -3,6 +3,7 @@ from itertools import chain
 
 from stim import Circuit
 
+from .. import _monitor
 from ..layouts import Layout
 from ..models import Model
 from ..detectors import Detectors
@@ -225,3 +226,6 @@ def qec_round_iterator(
     # i
     yield model.measure(anc_qubits) + model.idle(data_qubits)
     yield model.tick()
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py b/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py
index 43a8907..08b2cfb 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py
@@ -3,6 +3,7 @@ from itertools import chain
 
 from stim import Circuit
 
+from .. import _monitor
 from ..layouts import Layout
 from ..models import Model
 from ..detectors import Detectors
@@ -154,3 +155,6 @@ def qec_round_iterator(
 
     yield model.measure(anc_qubits) + model.idle(data_qubits)
     yield model.tick()
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
index f713fa5..af7e2ef 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
@@ -3,6 +3,7 @@ from itertools import chain
 
 from stim import Circuit
 
+from .. import _monitor
 from ..layouts import Layout
 from ..models import Model
 from ..detectors import Detectors
@@ -230,3 +231,6 @@ def qec_round_iterator(
     # i
     yield model.measure(anc_qubits) + model.idle(data_qubits)
     yield model.tick()
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
index 384bb93..02927aa 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
@@ -8,6 +8,7 @@ from itertools import chain
 
 from stim import Circuit
 
+from .. import _monitor
 from ..layouts import Layout
 from ..models import Model
 from ..detectors import Detectors, get_support_from_adj_matrix
@@ -272,3 +273,6 @@ def qec_round(
     circuit += detectors_stim
 
     return circuit
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py
index 8e30bca..d50c2ef 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py
@@ -3,6 +3,7 @@ from itertools import chain
 
 from stim import Circuit
 
+from .. import _monitor
 from ..layouts import Layout
 from ..models import Model
 from ..detectors import Detectors
@@ -150,3 +151,6 @@ def qec_round_iterator(
 
     yield model.measure(anc_qubits) + model.idle(data_qubits)
     yield model.tick()
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/circuit_blocks/unrot_surface_code_css.py b/surface_sim/circuit_blocks/unrot_surface_code_css.py
index 3f9872b..2176a50 100644
--- a/surface_sim/circuit_blocks/unrot_surface_code_css.py
+++ b/surface_sim/circuit_blocks/unrot_surface_code_css.py
@@ -3,6 +3,7 @@ from itertools import chain
 
 from stim import Circuit
 
+from .. import _monitor
 from ..layouts import Layout
 from ..models import Model
 from ..detectors import Detectors
@@ -227,3 +228,6 @@ def qec_round_iterator(
     # i
     yield model.measure(anc_qubits) + model.idle(data_qubits)
     yield model.tick()
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/circuit_blocks/util.py b/surface_sim/circuit_blocks/util.py
index 801a67a..2656e2b 100644
--- a/surface_sim/circuit_blocks/util.py
+++ b/surface_sim/circuit_blocks/util.py
@@ -3,6 +3,7 @@ from itertools import chain
 
 from stim import Circuit
 
+from .. import _monitor
 from ..layouts import Layout
 from ..models import Model
 from ..detectors import (
@@ -718,3 +719,6 @@ def init_qubits_xzzx_iterator(
     idle_qubits = qubits - rot_qubits
     yield model.hadamard(rot_qubits) + model.idle(idle_qubits)
     yield model.tick()
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index 1811003..fd55c30 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -6,6 +6,7 @@ import xarray as xr
 import galois
 import stim
 
+from .. import _monitor
 from ..layouts import Layout
 
 
@@ -682,3 +683,6 @@ def remove_pairs(elements: list) -> list:
         if elements.count(element) % 2 == 1:
             output.append(element)
     return output
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/experiments/rot_surface_code_css.py b/surface_sim/experiments/rot_surface_code_css.py
index 8a87dfa..f687558 100644
--- a/surface_sim/experiments/rot_surface_code_css.py
+++ b/surface_sim/experiments/rot_surface_code_css.py
@@ -1,6 +1,7 @@
 from copy import deepcopy
 from stim import Circuit
 
+from .. import _monitor
 from ..layouts import Layout
 from ..circuit_blocks.rot_surface_code_css import (
     init_qubits,
@@ -333,3 +334,6 @@ def repeated_cnot_experiment(
     )
 
     return experiment
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/experiments/rot_surface_code_css_pipelined.py b/surface_sim/experiments/rot_surface_code_css_pipelined.py
index d561fc6..4df85fa 100644
--- a/surface_sim/experiments/rot_surface_code_css_pipelined.py
+++ b/surface_sim/experiments/rot_surface_code_css_pipelined.py
@@ -1,6 +1,7 @@
 from copy import deepcopy
 from stim import Circuit
 
+from .. import _monitor
 from ..layouts import Layout
 from ..circuit_blocks.rot_surface_code_css_pipelined import (
     init_qubits,
@@ -179,3 +180,6 @@ def repeated_s_experiment(
     )
 
     return experiment
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/experiments/rot_surface_code_xzzx.py b/surface_sim/experiments/rot_surface_code_xzzx.py
index 5f85882..48cafaf 100644
--- a/surface_sim/experiments/rot_surface_code_xzzx.py
+++ b/surface_sim/experiments/rot_surface_code_xzzx.py
@@ -1,5 +1,6 @@
 from stim import Circuit
 
+from .. import _monitor
 from ..layouts import Layout
 from ..circuit_blocks.rot_surface_code_xzzx import (
     init_qubits,
@@ -85,3 +86,6 @@ def memory_experiment(
     )
 
     return experiment
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/experiments/rot_surface_code_xzzx_google.py b/surface_sim/experiments/rot_surface_code_xzzx_google.py
index b225333..0f3b99a 100644
--- a/surface_sim/experiments/rot_surface_code_xzzx_google.py
+++ b/surface_sim/experiments/rot_surface_code_xzzx_google.py
@@ -1,6 +1,7 @@
 from copy import deepcopy
 from stim import Circuit
 
+from .. import _monitor
 from ..layouts import Layout
 from ..circuit_blocks.rot_surface_code_xzzx_google import (
     init_qubits,
@@ -94,3 +95,6 @@ def memory_experiment(
     )
 
     return experiment
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/experiments/rot_surface_code_xzzx_pipelined.py b/surface_sim/experiments/rot_surface_code_xzzx_pipelined.py
index 4ea9569..d7246c5 100644
--- a/surface_sim/experiments/rot_surface_code_xzzx_pipelined.py
+++ b/surface_sim/experiments/rot_surface_code_xzzx_pipelined.py
@@ -1,5 +1,6 @@
 from stim import Circuit
 
+from .. import _monitor
 from ..layouts import Layout
 from ..circuit_blocks.rot_surface_code_xzzx_pipelined import (
     init_qubits,
@@ -85,3 +86,6 @@ def memory_experiment(
     )
 
     return experiment
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/experiments/unrot_surface_code_css.py b/surface_sim/experiments/unrot_surface_code_css.py
index 8be8b72..b7d37d0 100644
--- a/surface_sim/experiments/unrot_surface_code_css.py
+++ b/surface_sim/experiments/unrot_surface_code_css.py
@@ -1,6 +1,7 @@
 from copy import deepcopy
 from stim import Circuit
 
+from .. import _monitor
 from ..layouts import Layout
 from ..circuit_blocks.unrot_surface_code_css import (
     init_qubits,
@@ -428,3 +429,6 @@ def repeated_cnot_experiment(
     )
 
     return experiment
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/layouts/layout.py b/surface_sim/layouts/layout.py
index b0ce191..9982e8f 100644
--- a/surface_sim/layouts/layout.py
+++ b/surface_sim/layouts/layout.py
@@ -10,6 +10,8 @@ import numpy as np
 import yaml
 from xarray import DataArray
 
+from .. import _monitor
+
 IntDirections = list[str]
 IntOrder = IntDirections | dict[str, IntDirections]
 
@@ -564,3 +566,6 @@ def index_coords(coords: list[int], reverse: bool = False) -> tuple[list[int], i
 
     indicies = [mapping[coord] for coord in coords]
     return indicies, num_unique_vals
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/layouts/library/rot_surface_codes.py b/surface_sim/layouts/library/rot_surface_codes.py
index 6496641..b40c92e 100644
--- a/surface_sim/layouts/library/rot_surface_codes.py
+++ b/surface_sim/layouts/library/rot_surface_codes.py
@@ -2,6 +2,7 @@ from collections import defaultdict
 from functools import partial
 from itertools import count, cycle, product
 
+from ... import _monitor
 from ..layout import Layout
 from .util import is_valid, invert_shift, _check_distance
 
@@ -329,3 +330,6 @@ def rot_surface_code(
         init_xanc_qubit_id=init_xanc_qubit_id,
         init_ind=init_ind,
     )
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/layouts/library/unrot_surface_codes.py b/surface_sim/layouts/library/unrot_surface_codes.py
index 11a8d87..5f2af4f 100644
--- a/surface_sim/layouts/library/unrot_surface_codes.py
+++ b/surface_sim/layouts/library/unrot_surface_codes.py
@@ -2,6 +2,7 @@ from collections import defaultdict
 from functools import partial
 from itertools import count
 
+from ... import _monitor
 from ..layout import Layout
 from .util import is_valid, invert_shift, _check_distance
 
@@ -284,3 +285,6 @@ def unrot_surface_code(
         init_xanc_qubit_id=init_xanc_qubit_id,
         init_ind=init_ind,
     )
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/layouts/library/util.py b/surface_sim/layouts/library/util.py
index 77114de..cc8da7c 100644
--- a/surface_sim/layouts/library/util.py
+++ b/surface_sim/layouts/library/util.py
@@ -1,3 +1,6 @@
+from ... import _monitor
+
+
 def invert_shift(row_shift: int, col_shift: int) -> tuple[int, int]:
     """Inverts a row and column shift.
 
@@ -59,3 +62,6 @@ def _check_distance(distance: int) -> None:
         raise ValueError("distance provided must be an integer")
     if distance < 0:
         raise ValueError("distance must be a positive integer")
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/layouts/operations.py b/surface_sim/layouts/operations.py
index 518ac6d..941f255 100644
--- a/surface_sim/layouts/operations.py
+++ b/surface_sim/layouts/operations.py
@@ -1,3 +1,4 @@
+from .. import _monitor
 from .layout import Layout
 
 
@@ -58,3 +59,6 @@ def check_overlap_layouts(*layouts: Layout) -> None:
             check_overlap_layout_pair(layout, other_layout)
 
     return
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/layouts/plotter.py b/surface_sim/layouts/plotter.py
index 8ae313c..578a166 100644
--- a/surface_sim/layouts/plotter.py
+++ b/surface_sim/layouts/plotter.py
@@ -8,6 +8,7 @@ from matplotlib.patches import Circle, Polygon
 from matplotlib.lines import Line2D
 from matplotlib.text import Text
 
+from .. import _monitor
 from .layout import Layout
 
 
@@ -409,3 +410,6 @@ def plot(
         ax.invert_yaxis()
 
     return ax
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/layouts/util.py b/surface_sim/layouts/util.py
index 1577347..108bde2 100644
--- a/surface_sim/layouts/util.py
+++ b/surface_sim/layouts/util.py
@@ -5,6 +5,7 @@ from itertools import count
 
 import networkx as nx
 
+from .. import _monitor
 from .layout import Layout
 
 
@@ -101,3 +102,6 @@ def index_chain(layout: Layout, init_node: str) -> None:
     for node in nodes:
         if node not in set_nodes:
             layout.graph.nodes[node]["chain_ind"] = None
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/log_gates/rot_surface_code_css.py b/surface_sim/log_gates/rot_surface_code_css.py
index 1c086ed..b416677 100644
--- a/surface_sim/log_gates/rot_surface_code_css.py
+++ b/surface_sim/log_gates/rot_surface_code_css.py
@@ -3,6 +3,7 @@ from copy import deepcopy
 import numpy as np
 import networkx as nx
 
+from .. import _monitor
 from ..layouts import Layout, check_overlap_layouts
 
 
@@ -255,3 +256,6 @@ def set_trans_cnot(layout_c: Layout, layout_t: Layout) -> None:
         layout_t.set_param(gate_label, anc, {"new_stab_gen": anc_to_new_stab[anc]})
 
     return
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/log_gates/unrot_surface_code_css.py b/surface_sim/log_gates/unrot_surface_code_css.py
index 4404bfb..d3d657a 100644
--- a/surface_sim/log_gates/unrot_surface_code_css.py
+++ b/surface_sim/log_gates/unrot_surface_code_css.py
@@ -1,6 +1,7 @@
 import numpy as np
 import networkx as nx
 
+from .. import _monitor
 from ..layouts import Layout, check_overlap_layouts
 
 
@@ -340,3 +341,6 @@ def set_trans_h(layout: Layout, data_qubit: str) -> None:
         )
 
     return
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/models/library.py b/surface_sim/models/library.py
index 2a09c76..cf01f63 100644
--- a/surface_sim/models/library.py
+++ b/surface_sim/models/library.py
@@ -2,6 +2,7 @@ from collections.abc import Iterable, Sequence
 
 from stim import CircuitInstruction, Circuit
 
+from .. import _monitor
 from ..setup import Setup
 from .model import Model
 from .util import biased_prefactors, grouper, idle_error_probs
@@ -1091,3 +1092,6 @@ class PhenomenologicalNoiseModel(IncomingNoiseModel):
                 circ.append(CircuitInstruction("MY", [ind]))
 
         return circ
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/models/model.py b/surface_sim/models/model.py
index 3034282..3cce2ee 100644
--- a/surface_sim/models/model.py
+++ b/surface_sim/models/model.py
@@ -2,6 +2,7 @@ from collections.abc import Sequence, Iterable
 
 from stim import CircuitInstruction, target_rec, GateTarget, Circuit
 
+from .. import _monitor
 from ..setup import Setup
 
 
@@ -174,3 +175,6 @@ class Model(object):
 
     def incoming_noise(self, qubits: Iterable[str]) -> Circuit:
         raise NotImplementedError
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/models/util.py b/surface_sim/models/util.py
index 409ab35..620c7ee 100644
--- a/surface_sim/models/util.py
+++ b/surface_sim/models/util.py
@@ -5,6 +5,8 @@ from itertools import product
 import numpy as np
 from math import exp
 
+from .. import _monitor
+
 
 def num_biased_ops(n):
     inds = np.arange(n)
@@ -109,3 +111,6 @@ def idle_error_probs(
     z_prob = 0.5 * deph_prob - 0.25 * relax_prob
 
     return (x_prob, y_prob, z_prob)
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/setup/library.py b/surface_sim/setup/library.py
index 3209871..af993a6 100644
--- a/surface_sim/setup/library.py
+++ b/surface_sim/setup/library.py
@@ -1,3 +1,4 @@
+from .. import _monitor
 from .setup import Setup
 
 
@@ -25,3 +26,6 @@ class CircuitNoiseSetup(Setup):
         )
         super().__init__(setup_dict)
         return
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/setup/setup.py b/surface_sim/setup/setup.py
index fdd8799..813ef85 100644
--- a/surface_sim/setup/setup.py
+++ b/surface_sim/setup/setup.py
@@ -4,6 +4,8 @@ from pathlib import Path
 
 import yaml
 
+from .. import _monitor
+
 
 class Setup:
     PARENTS = {
@@ -259,3 +261,6 @@ class Setup:
             return self._gate_durations[name]
         except KeyError:
             raise ValueError(f"No gate duration specified for '{name}'")
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index 2f5e690..897d3e7 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -2,6 +2,7 @@ from collections.abc import Sequence, Callable
 
 import stim
 
+from .. import _monitor
 from ..layouts import Layout
 from ..detectors import Detectors, get_support_from_adj_matrix
 from ..models import Model
@@ -335,3 +336,6 @@ def merge_log_meas(
     detectors.deactivate_detectors([a for a in anc_qubits if detectors.anc_qubits[a]])
 
     return circuit
+
+
+_monitor.watch(__name__)
diff --git a/surface_sim/util/data_gen.py b/surface_sim/util/data_gen.py
index 54244ff..60a27a3 100644
--- a/surface_sim/util/data_gen.py
+++ b/surface_sim/util/data_gen.py
@@ -2,6 +2,7 @@ import numpy as np
 from stim import Circuit
 from xarray import DataArray, Dataset
 
+from .. import _monitor
 from ..layouts import Layout
 
 
@@ -82,3 +83,6 @@ def sample_memory_experiment(
     )
 
     return dataset
+
+
+_monitor.watch(__name__)
-- 
2.43.0


From c8a69938a3f29f3964aff681237b3bdd5d24d1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:58 +0000
Subject: [PATCH 28/28] fix: CNOT between distant patches pairs qubits by an
 exact translation

---
 surface_sim/log_gates/rot_surface_code_css.py   | 2 +-
 surface_sim/log_gates/unrot_surface_code_css.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_sim/log_gates/rot_surface_code_css.py b/surface_sim/log_gates/rot_surface_code_css.py
index b416677..c2cbe6f 100644
--- a/surface_sim/log_gates/rot_surface_code_css.py
+++ b/surface_sim/log_gates/rot_surface_code_css.py
@@ -218,7 +218,7 @@ def set_trans_cnot(layout_c: Layout, layout_t: Layout) -> None:
             coords1 = np.array(layout_c.get_coords([c])[0])
             coords2 = np.array(layout_t.get_coords([t])[0])
             vector = coords2 - coords1
-            if not np.allclose(vector, base_vector):
+            if not np.allclose(vector, base_vector, rtol=0, atol=1e-5):
                 correct = False
                 break
 
diff --git a/surface_sim/log_gates/unrot_surface_code_css.py b/surface_sim/log_gates/unrot_surface_code_css.py
index d3d657a..1daa6c4 100644
--- a/surface_sim/log_gates/unrot_surface_code_css.py
+++ b/surface_sim/log_gates/unrot_surface_code_css.py
@@ -207,7 +207,7 @@ def set_trans_cnot(layout_c: Layout, layout_t: Layout) -> None:
             coords1 = np.array(layout_c.get_coords([c])[0])
             coords2 = np.array(layout_t.get_coords([t])[0])
             vector = coords2 - coords1
-            if not np.allclose(vector, base_vector):
+            if not np.allclose(vector, base_vector, rtol=0, atol=1e-5):
                 correct = False
                 break
 
-- 
2.43.0

