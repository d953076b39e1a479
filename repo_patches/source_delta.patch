From c1e03145bc887f8784316fbf4795d335829a1840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:38 +0000
Subject: [PATCH 01/83] fix: keep resets that are followed by control or
 measurement use in the simulator

A reset was dropped when all later instructions on the qubit were diagonal
(controls or measurements), and a reset following a measurement was moved in
front of gates controlled by the measured qubit.
---
 src/qrisp/simulator/circuit_preprocessing.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/simulator/circuit_preprocessing.py b/src/qrisp/simulator/circuit_preprocessing.py
index ea9f8a2..9a0018d 100644
--- a/src/qrisp/simulator/circuit_preprocessing.py
+++ b/src/qrisp/simulator/circuit_preprocessing.py
@@ -744,13 +744,18 @@ def insert_multiverse_measurements(qc):
             meas_clbit = instr.clbits[0]
 
             next_instr_is_reset = False
+            qubit_used = False
             for j in range(len(data)):
                 if meas_qubit in data[j].qubits:
                     if data[j].op.name == "reset":
-                        next_instr_is_reset = True
-                        data.pop(j)
+                        # The reset can only be merged into the measurement if no
+                        # other instruction acts on the qubit in between.
+                        if not qubit_used:
+                            next_instr_is_reset = True
+                            data.pop(j)
                         break
-                    elif not is_permeable(data[j].op, [data[j].qubits.index(meas_qubit)]):
+                    qubit_used = True
+                    if not is_permeable(data[j].op, [data[j].qubits.index(meas_qubit)]):
                         break
                 if meas_clbit in data[j].clbits and not isinstance(data[j], ClControlledOperation):
                     break
@@ -781,10 +786,10 @@ def insert_multiverse_measurements(qc):
             meas_qubit = instr.qubits[0]
             new_data.append(Instruction(Disentangler(warning=False), [meas_qubit]))
 
+            # The reset can only be skipped if the qubit is not used afterwards
             for j in range(len(data)):
-                if meas_qubit in data[j].qubits:
-                    if not is_permeable(data[j].op, [data[j].qubits.index(meas_qubit)]):
-                        break
+                if meas_qubit in data[j].qubits and data[j].op.name != "disentangle":
+                    break
             else:
                 continue
 
-- 
2.43.0


From e16a488875358bc27dc5955ff69cd041ba286541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:39 +0000
Subject: [PATCH 02/83] fix: do not group gates past multi-qubit conditioned
 instructions in the simulator

Non-unitary instructions are encoded as negative integers. Intersecting the
negative value with the group qubits missed multi-qubit instructions, so gates
could be moved in front of a classically conditioned gate on the same qubits.
---
 src/qrisp/simulator/circuit_preprocessing.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/simulator/circuit_preprocessing.py b/src/qrisp/simulator/circuit_preprocessing.py
index 9a0018d..e84dc71 100644
--- a/src/qrisp/simulator/circuit_preprocessing.py
+++ b/src/qrisp/simulator/circuit_preprocessing.py
@@ -565,7 +565,8 @@ def binary_get_circuit_block_jitted(int_qc_list, qubits, n, established_indices)
         # Determine the intersection between the qubits of the instruction
         # and the qubits of the group
         # intersection = instr_qubits.intersection(qubits)
-        intersection = qubits & instr_qubits
+        # (non-unitary instructions are encoded by negative integers)
+        intersection = qubits & abs(instr_qubits)
 
         # If the intersection is empty, this instruction is not part of the group
         # and no further action needs to be taken
@@ -575,7 +576,7 @@ def binary_get_circuit_block_jitted(int_qc_list, qubits, n, established_indices)
         # If the instruction is non-unitary, no further instruction
         # on this qubit can be part of the group
         if instr_qubits < 0:
-            qubits = qubits & (((1 << n) - 1) ^ (-instr_qubits))
+            qubits = qubits & (((1 << n) - 1) ^ intersection)
             continue
 
         # If the instruction qubits are part of the group qubits,
@@ -627,7 +628,8 @@ def binary_get_circuit_block(int_qc_list, qubits, n, established_indices):
         # Determine the intersection between the qubits of the instruction
         # and the qubits of the group
         # intersection = instr_qubits.intersection(qubits)
-        intersection = qubits & instr_qubits
+        # (non-unitary instructions are encoded by negative integers)
+        intersection = qubits & abs(instr_qubits)
 
         # If the intersection is empty, this instruction is not part of the group
         # and no further action needs to be taken
@@ -637,7 +639,7 @@ def binary_get_circuit_block(int_qc_list, qubits, n, established_indices):
         # If the instruction is non-unitary, no further instruction
         # on this qubit can be part of the group
         if instr_qubits < 0:
-            qubits = qubits & (((1 << n) - 1) ^ instr_qubits)
+            qubits = qubits & (((1 << n) - 1) ^ intersection)
             # qubits = qubits - instr_qubits
             continue
 
-- 
2.43.0


From 8acf035064f740861f95fa561a06eabe8dfbdaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:04 +0000
Subject: [PATCH 03/83] fix: determine permeability of classically controlled
 gates from the base gate

---
 src/qrisp/permeability/type_checker.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qrisp/permeability/type_checker.py b/src/qrisp/permeability/type_checker.py
index 1987f75..b063908 100644
--- a/src/qrisp/permeability/type_checker.py
+++ b/src/qrisp/permeability/type_checker.py
@@ -54,8 +54,14 @@ def is_permeable(gate, qubit_indices):
     else:
         return True
 
+    from qrisp.circuit import ClControlledOperation
     from qrisp.simulator import calc_embedded_unitary
 
+    # Classically controlled gates have no unitary - they are permeable if the
+    # gate that is (possibly) executed is permeable
+    if isinstance(gate, ClControlledOperation):
+        return is_permeable(gate.base_op, qubit_indices)
+
     if gate.definition:
         qc = gate.definition
         for instr in qc.data:
-- 
2.43.0


From 308e1305b5cdf167e4d512f0d99fb79f19f35ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:11 +0000
Subject: [PATCH 04/83] fix: report only the last measurement result written to
 a classical bit

---
 src/qrisp/simulator/circuit_preprocessing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qrisp/simulator/circuit_preprocessing.py b/src/qrisp/simulator/circuit_preprocessing.py
index e84dc71..e34e8f8 100644
--- a/src/qrisp/simulator/circuit_preprocessing.py
+++ b/src/qrisp/simulator/circuit_preprocessing.py
@@ -770,6 +770,8 @@ def insert_multiverse_measurements(qc):
             else:
                 new_data.append(Instruction(disentangler, [meas_qubit]))
                 new_measurements.append((instr.qubits[0], instr.clbits[0]))
+                # This measurement overwrites previous results in this clbit
+                cb_to_qb_dic.pop(meas_clbit, None)
                 continue
 
             qb = qc.add_qubit()
-- 
2.43.0


From c1253123c2add2500bcdb822b7c09074abfc6a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:32 +0000
Subject: [PATCH 05/83] fix: sign of synthesised multi-controlled Y gates

Multi-controlled Y gates (and Y gates with control state 0) were decomposed
into a controlled -Y gate.
---
 src/qrisp/circuit/controlled_operations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/circuit/controlled_operations.py b/src/qrisp/circuit/controlled_operations.py
index 07dde7d..334efbb 100644
--- a/src/qrisp/circuit/controlled_operations.py
+++ b/src/qrisp/circuit/controlled_operations.py
@@ -134,9 +134,10 @@ def multi_controlled_u3_circ(u3_gate, control_amount, ctrl_state, method=None):
 
     # Treat pauli gates
     elif u3_gate.name == "y":
-        qc.s(target_qubit)
-        qc.append(XGate().control(control_amount, method=method), qc.qubits)
+        # Y = S X S_DG
         qc.s_dg(target_qubit)
+        qc.append(XGate().control(control_amount, method=method), qc.qubits)
+        qc.s(target_qubit)
 
     elif u3_gate.name == "z":
         qc.h(target_qubit)
-- 
2.43.0


From bce39ab5be3606050870bc0f421369d03a0562fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:23 +0000
Subject: [PATCH 06/83] fix: assign control states of multi-controlled global
 phase gates to the right qubits

---
 src/qrisp/circuit/operation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 0be1812..35cb135 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -679,17 +679,17 @@ class PTControlledOperation(Operation):
 
             if num_ctrl_qubits > 1:
                 temp_gate = PGate(base_operation.params[0]).control(
-                    num_ctrl_qubits - 1, ctrl_state=self.ctrl_state[1:], method=method
+                    num_ctrl_qubits - 1, ctrl_state=self.ctrl_state[:-1], method=method
                 )
             else:
                 temp_gate = PGate(base_operation.params[0])
 
-            if self.ctrl_state[0] == "0":
+            if self.ctrl_state[-1] == "0":
                 definition_circ.x(definition_circ.qubits[-2])
 
             definition_circ.append(temp_gate, definition_circ.qubits[:num_ctrl_qubits])
 
-            if self.ctrl_state[0] == "0":
+            if self.ctrl_state[-1] == "0":
                 definition_circ.x(definition_circ.qubits[-2])
 
         elif self.base_operation.name == "gray_phase_gate":
-- 
2.43.0


From 6bb4d1a53734916b567126989c611a06d80b77de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:30 +0000
Subject: [PATCH 07/83] fix: handle gates conditioned on |0> in the circuit
 passes

---
 .../pass_management/passes/cancel_zero_controls.py | 14 +++++++-------
 .../pass_management/passes/convert_to_cx.py        |  8 ++++++++
 .../pass_management/passes/convert_to_cz.py        |  8 ++++++++
 .../pass_management/passes/fuse_adjacents.py       | 10 ++++++++--
 4 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py b/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py
index 243223b..f89604e 100644
--- a/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py
+++ b/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py
@@ -33,13 +33,13 @@ _DIAGONAL_1Q = frozenset({"p", "rz", "z", "s", "t", "s_dg", "t_dg", "id", "gphas
 def _is_cancelled_by_zero(op: Operation, qubits: list[Qubit], fresh: set[Qubit]) -> bool:
     r"""Return True if *op* on *qubits* is a no-op given a set of \|0⟩ qubits."""
     # Symmetric controlled-phase gates: diag(1,1,1,e^{iφ}).
-    # Identity whenever *either* qubit is \|0⟩.
-    if op.name in ("cp", "cz"):
-        return any(qb in fresh for qb in qubits)
-
-    # PTControlledOperation wrapping a phase gate on 2 qubits (≡ CP)
-    if isinstance(op, PTControlledOperation) and op.base_operation.name == "p" and op.num_qubits == 2:
-        return any(qb in fresh for qb in qubits)
+    # Identity whenever *either* qubit is \|0⟩ (a fresh control qubit only
+    # cancels the gate if it is conditioned on \|1⟩).
+    # This includes a PTControlledOperation wrapping a phase gate on 2 qubits (≡ CP)
+    if op.name in ("cp", "cz") or (
+        isinstance(op, PTControlledOperation) and op.base_operation.name == "p" and op.num_qubits == 2
+    ):
+        return qubits[1] in fresh or (qubits[0] in fresh and getattr(op, "ctrl_state", "1") == "1")
 
     # General controlled operations: cancel when a control-on-\|1⟩ is still \|0⟩.
     if isinstance(op, (ControlledOperation, PTControlledOperation)):
diff --git a/src/qrisp/circuit/pass_management/passes/convert_to_cx.py b/src/qrisp/circuit/pass_management/passes/convert_to_cx.py
index 8c5d89c..16745c6 100644
--- a/src/qrisp/circuit/pass_management/passes/convert_to_cx.py
+++ b/src/qrisp/circuit/pass_management/passes/convert_to_cx.py
@@ -94,6 +94,11 @@ def convert_to_cx(
             op = instr.op
 
             if op.num_qubits == 2 and op.name not in ("cx", "barrier"):
+                # Gates conditioned on |0> carry the same name: flip the control qubit
+                flip_control = getattr(op, "ctrl_state", "1") == "0" and op.name in ("cz", "cy")
+                if flip_control:
+                    qc_new.x(instr.qubits[0])
+
                 if op.name == "cz":
                     qc_new.h(instr.qubits[1])
                     qc_new.cx(instr.qubits[0], instr.qubits[1])
@@ -110,6 +115,9 @@ def convert_to_cx(
                     raise ValueError(f"Don't know how to convert two-qubit gate {op.name!r} to CX")
                 else:
                     qc_new.append(instr)
+
+                if flip_control:
+                    qc_new.x(instr.qubits[0])
             else:
                 qc_new.append(instr)
 
diff --git a/src/qrisp/circuit/pass_management/passes/convert_to_cz.py b/src/qrisp/circuit/pass_management/passes/convert_to_cz.py
index d209dc8..b229c60 100644
--- a/src/qrisp/circuit/pass_management/passes/convert_to_cz.py
+++ b/src/qrisp/circuit/pass_management/passes/convert_to_cz.py
@@ -95,6 +95,11 @@ def convert_to_cz(
             op = instr.op
 
             if op.num_qubits == 2 and op.name not in ("cz", "barrier"):
+                # Gates conditioned on |0> carry the same name: flip the control qubit
+                flip_control = getattr(op, "ctrl_state", "1") == "0" and op.name in ("cx", "cy")
+                if flip_control:
+                    qc_new.x(instr.qubits[0])
+
                 if op.name == "cx":
                     qc_new.h(instr.qubits[1])
                     qc_new.cz(instr.qubits[0], instr.qubits[1])
@@ -121,6 +126,9 @@ def convert_to_cz(
                     raise ValueError(f"Don't know how to convert two-qubit gate {op.name!r} to CZ")
                 else:
                     qc_new.append(instr)
+
+                if flip_control:
+                    qc_new.x(instr.qubits[0])
             else:
                 qc_new.append(instr)
 
diff --git a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
index 876a857..82fc213 100644
--- a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
+++ b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
@@ -118,6 +118,11 @@ def _fuse_swap_with_neighbour(op_a, op_b):
         the neighbour is not a recognised symmetric two-qubit gate.
 
     """
+    # Controlled gates conditioned on |0> carry the same name but are not
+    # described by the identities below
+    if getattr(op_a, "ctrl_state", "1") != "1" or getattr(op_b, "ctrl_state", "1") != "1":
+        return None
+
     with fast_append(0):
         # --- swap-a then something ---
         if "swap" == op_a.name:
@@ -546,8 +551,9 @@ def _resolve_qubit_order(instr_a, instr_b):
         if the qubits cannot be matched.
 
     """
-    a_sym = instr_a.op.name in _SYMMETRIC_GATES
-    b_sym = instr_b.op.name in _SYMMETRIC_GATES
+    # A phase gate conditioned on |0> is not symmetric in its qubits
+    a_sym = instr_a.op.name in _SYMMETRIC_GATES and getattr(instr_a.op, "ctrl_state", "1") == "1"
+    b_sym = instr_b.op.name in _SYMMETRIC_GATES and getattr(instr_b.op, "ctrl_state", "1") == "1"
 
     if a_sym or b_sym:
         # Symmetric match by set — qubit order difference is tolerated.
-- 
2.43.0


From 1e931695720ddfb1b2574f910082816f552ea680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:40 +0000
Subject: [PATCH 08/83] fix: keep the classical bits of conditioned gates in
 convert_to_prx

---
 src/qrisp/circuit/pass_management/passes/convert_to_prx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/circuit/pass_management/passes/convert_to_prx.py b/src/qrisp/circuit/pass_management/passes/convert_to_prx.py
index e68edfd..163cee7 100644
--- a/src/qrisp/circuit/pass_management/passes/convert_to_prx.py
+++ b/src/qrisp/circuit/pass_management/passes/convert_to_prx.py
@@ -123,7 +123,11 @@ def convert_to_prx(qc: QuantumCircuit) -> QuantumCircuit:
                 # Append gate if not identity
                 if abs(conversion_op.theta % (2 * np.pi)) >= 1e-5:
                     if isinstance(op, ClControlledOperation):
-                        qc_new.append(prx_0.c_if(op.num_control, op.ctrl_state), qc.data[i].qubits)  # type: ignore[arg-type]
+                        qc_new.append(
+                            prx_0.c_if(op.num_control, op.ctrl_state),  # type: ignore[arg-type]
+                            qc.data[i].qubits,
+                            qc.data[i].clbits,
+                        )
                     else:
                         qc_new.append(prx_0, qc.data[i].qubits)
 
-- 
2.43.0


From cea8626ee65a892f38b8e3f8d5f9f4c3a58cd644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:41 +0000
Subject: [PATCH 09/83] fix: support multi-qubit conditioned gates in the
 permeability graph

---
 src/qrisp/permeability/permeability_dag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/permeability/permeability_dag.py b/src/qrisp/permeability/permeability_dag.py
index 829b08e..05bd044 100644
--- a/src/qrisp/permeability/permeability_dag.py
+++ b/src/qrisp/permeability/permeability_dag.py
@@ -480,7 +480,7 @@ def dag_from_qc(dag, qc, remove_artificials=False):
         # This treats the case of a deallocation node
         else:
             node = DeallocNode(instr)
-            perm_dic = {0: "neutral"}
+            perm_dic = {j: "neutral" for j in range(len(instr.qubits))}
 
         # We add the index of the corresponding gate to the node object,
         # because this information can be used for stable topological ordering:
-- 
2.43.0


From 1fb40c0d1f80672f76df3919070a9d05a712f9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:42 +0000
Subject: [PATCH 10/83] fix: keep the parameters of inverted and bound R and ID
 gates consistent

---
 src/qrisp/circuit/operation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 35cb135..f23a8c1 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -472,6 +472,8 @@ class U3Gate(Operation):
             self.permeability[0] = False
             self.is_qfree = False
             self.params = [self.theta]
+        elif self.name == "r":
+            self.params = [-self.theta, self.phi]
         elif self.name == "gphase":
             self.params = [self.global_phase]
             self.permeability[0] = True
@@ -490,7 +492,7 @@ class U3Gate(Operation):
         # The inverse of a product of matrices if the reverted product of the inverses,
         # i.e. (A*B*C)^(-1) = C^-1 * B^-1 * A^-1
 
-        if self.name in ["p", "rz", "rx", "ry", "gphase", "h"]:
+        if self.name in ["p", "rz", "rx", "ry", "r", "gphase", "h", "id"]:
             new_name = str(self.name)
         elif self.name[-3:] == "_dg":
             new_name = self.name[:-3]
-- 
2.43.0


From bbfdc36b12374c8babbf8b8ea46956586cfb8d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:42 +0000
Subject: [PATCH 11/83] fix: conversion of R, SX, U3, CU gates, conditions and
 custom gates from and to Qiskit

---
 .../interface/converter/qiskit_converter.py   | 155 ++++++++++++++----
 1 file changed, 127 insertions(+), 28 deletions(-)

diff --git a/src/qrisp/interface/converter/qiskit_converter.py b/src/qrisp/interface/converter/qiskit_converter.py
index b59daa4..d408eb6 100644
--- a/src/qrisp/interface/converter/qiskit_converter.py
+++ b/src/qrisp/interface/converter/qiskit_converter.py
@@ -18,13 +18,13 @@
 import numpy as np
 from sympy import Expr, lambdify
 
-from qrisp.circuit import ClControlledOperation, ControlledOperation, PRXGate
+from qrisp.circuit import ClControlledOperation, ControlledOperation, PRXGate, U3Gate
 from qrisp.circuit.standard_operations import op_list
 from qrisp.misc import bin_rep
 
 
 # Function to convert qrisp quantum circuits to Qiskit quantum circuits
-def convert_to_qiskit(qc, transpile=False):
+def convert_to_qiskit(qc, transpile=False, is_definition=False):
     from qiskit import ClassicalRegister, QuantumCircuit, QuantumRegister
     from qiskit.circuit import Parameter
 
@@ -94,7 +94,7 @@ def convert_to_qiskit(qc, transpile=False):
 
         elif op.name == "gphase":
             temp_qc = QuantumCircuit(1)
-            temp_qc.global_phase += float(params[0])
+            temp_qc.global_phase += params[0]
             qiskit_ins = temp_qc.to_gate()
             qiskit_ins.name = "gphase"
 
@@ -112,8 +112,14 @@ def convert_to_qiskit(qc, transpile=False):
                 else:
                     base_qiskit_ins = create_qiskit_instruction(op.base_op, params)
                     body_qc.append(base_qiskit_ins, qubit_list)
-                qiskit_ins = IfElseOp((clbit_list[0], 1), true_body=body_qc)
-                clbit_list = []
+                # Conditions on several classical bits are expressed by nesting
+                for clbit, value in list(zip(clbit_list, op.ctrl_state))[:0:-1]:
+                    outer_qc = QuantumCircuit(*qregs)
+                    outer_qc.add_bits(clbit_list[1:])
+                    outer_qc.append(IfElseOp((clbit, int(value)), true_body=body_qc), qubit_list, list(body_qc.clbits))
+                    body_qc = outer_qc
+                qiskit_ins = IfElseOp((clbit_list[0], int(op.ctrl_state[0])), true_body=body_qc)
+                clbit_list = list(body_qc.clbits)
             except ImportError:
                 base_qiskit_ins = create_qiskit_instruction(op.base_op, params)
                 cl_reg = ClassicalRegister(op.num_clbits)
@@ -130,7 +136,7 @@ def convert_to_qiskit(qc, transpile=False):
                 base_name = base_name.upper()
 
             if op.base_operation.definition:
-                qiskit_definition = convert_to_qiskit(op.base_operation.definition)
+                qiskit_definition = convert_to_qiskit(op.base_operation.definition, is_definition=True)
                 base_gate = qiskit_definition.to_gate()
                 base_gate.name = op.base_operation.name
                 qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
@@ -140,10 +146,14 @@ def convert_to_qiskit(qc, transpile=False):
             elif op.num_qubits == op.base_operation.num_qubits:
                 qiskit_ins = create_qiskit_instruction(op.base_operation, params)
             else:
-                base_gate = create_qiskit_instruction(op.base_operation, params)
+                base_gate = create_qiskit_base_gate(op.base_operation, params)
                 qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
         else:
             qiskit_ins = create_qiskit_instruction(op, params)
+            # Qrisp's SX gate is RX(pi/2), Qiskit's gate has an additional phase, which is
+            # observable if the definition is part of a controlled gate
+            if is_definition and op.name in sx_phase_dic:
+                qiskit_qc.global_phase -= sx_phase_dic[op.name]
 
         # Append to qiskit circuit
         qiskit_qc.append(qiskit_ins, qubit_list, clbit_list)
@@ -151,6 +161,19 @@ def convert_to_qiskit(qc, transpile=False):
     return qiskit_qc
 
 
+# Phase of Qiskit's SX gates relative to the Qrisp gates of the same name
+sx_phase_dic = {"sx": np.pi / 4, "sx_dg": -np.pi / 4, "sxdg": -np.pi / 4}
+
+
+# Creates the Qiskit gate of an operation that is about to be controlled, ie. the
+# global phase is relevant.
+def create_qiskit_base_gate(op, params=[]):
+    qiskit_gate = create_qiskit_instruction(op, params)
+    if op.name in sx_phase_dic:
+        qiskit_gate = add_global_phase(qiskit_gate, -sx_phase_dic[op.name])
+    return qiskit_gate
+
+
 def create_qiskit_instruction(op, params=[]):
     import qiskit.circuit.library.standard_gates as qsk_gates
     from qiskit import QiskitError
@@ -181,13 +204,13 @@ def create_qiskit_instruction(op, params=[]):
             base_name = base_name.upper()
 
         if op.base_operation.definition:
-            qiskit_definition = convert_to_qiskit(op.base_operation.definition)
+            qiskit_definition = convert_to_qiskit(op.base_operation.definition, is_definition=True)
             base_gate = qiskit_definition.to_gate()
             base_gate.name = op.base_operation.name
             qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
 
         else:
-            base_gate = create_qiskit_instruction(op.base_operation, params)
+            base_gate = create_qiskit_base_gate(op.base_operation, params)
             qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
     elif op.name == "rxx":
         qiskit_ins = qsk_gates.RXXGate(*params)
@@ -242,8 +265,11 @@ def create_qiskit_instruction(op, params=[]):
         qiskit_ins = qsk_gates.TGate().inverse()
     elif op.name == "u3":
         qiskit_ins = qsk_gates.U3Gate(*params)
+        if op.global_phase != 0:
+            qiskit_ins = add_global_phase(qiskit_ins, op.global_phase)
     elif op.name == "r":
-        qiskit_ins = qsk_gates.RGate(*params)
+        # Qiskit measures the angle of the rotation axis from the X-axis
+        qiskit_ins = qsk_gates.RGate(params[0], params[1] - np.pi / 2)
     elif isinstance(op, PRXGate):
         qiskit_ins = qsk_gates.RGate(op.alpha, op.beta)
     elif op.name == "id":
@@ -251,26 +277,39 @@ def create_qiskit_instruction(op, params=[]):
     elif op.name == "reset":
         qiskit_ins = Reset()
     elif op.definition:
-        qiskit_definition = convert_to_qiskit(op.definition)
+        qiskit_definition = convert_to_qiskit(op.definition, is_definition=True)
         try:
             qiskit_ins = qiskit_definition.to_gate()
         except QiskitError:
             qiskit_ins = qiskit_definition.to_instruction()
 
         qiskit_ins.name = op.name
+    elif isinstance(op, U3Gate):
+        qiskit_ins = qsk_gates.U3Gate(op.theta, op.phi, op.lam)
+        if op.global_phase != 0:
+            qiskit_ins = add_global_phase(qiskit_ins, op.global_phase)
     else:
         raise Exception("Could not convert operation " + str(op.name) + " to Qiskit")
 
     return qiskit_ins
 
 
+# Wraps a Qiskit gate such that it additionally applies a global phase (this phase is
+# observable if the gate is subsequently controlled)
+def add_global_phase(qiskit_gate, phase):
+    from qiskit import QuantumCircuit
+
+    temp_qc = QuantumCircuit(qiskit_gate.num_qubits, global_phase=phase)
+    temp_qc.append(qiskit_gate, temp_qc.qubits)
+    return temp_qc.to_gate()
+
+
 op_dic = {op().name: op for op in op_list}
 op_dic["u"] = op_dic["u3"]
 
 
-def convert_from_qiskit(qiskit_qc):
-    from qiskit import QuantumCircuit as QiskitQuantumCircuit
-    from qiskit.circuit import ControlledGate, ParameterExpression
+def convert_from_qiskit(qiskit_qc, is_definition=False):
+    from qiskit.circuit import ControlledGate, Gate, Instruction, ParameterExpression
 
     from qrisp import Barrier, Clbit, ControlledOperation, QuantumCircuit, Qubit
 
@@ -296,6 +335,10 @@ def convert_from_qiskit(qiskit_qc):
     for i in range(qiskit_qc.num_clbits):
         cl_reg = qiskit_qc.clbits[i]._register
 
+        if cl_reg is None:
+            qc.add_clbit()
+            continue
+
         clbit_name = cl_reg.name
         if cl_reg.size > 1:
             # Case distinctionction for Qiskit version compatibility.
@@ -311,16 +354,25 @@ def convert_from_qiskit(qiskit_qc):
 
     from sympy import sympify
 
+    global_phase = qiskit_qc.global_phase
+    if isinstance(global_phase, ParameterExpression):
+        global_phase = sympify(global_phase.sympify())
+
     for i in range(len(qiskit_qc.data)):
         qiskit_op = qiskit_qc.data[i].operation
 
-        if hasattr(qiskit_op, "condition_bits"):
+        # Qrisp's SX gate is RX(pi/2), Qiskit's gate has an additional phase, which is
+        # observable if the definition is part of a controlled gate
+        if is_definition and qiskit_op.name == "sx":
+            global_phase += sx_phase_dic[qiskit_op.name]
+
+        if qiskit_op.name == "if_else":
+            append_if_else(qc, qiskit_qc.data[i], qb_dic, cb_dic)
+            continue
+
+        if getattr(qiskit_op, "condition_bits", None):
             condition_bits = [cb_dic[cb] for cb in qiskit_op.condition_bits]
-            if condition_bits:
-                condition_value = qiskit_op.condition[1]
-        elif hasattr(qiskit_op, "is_control_flow") and qiskit_op.is_control_flow():
-            condition_bits = [cb_dic[cb] for cb in qiskit_qc.data[i].clbits]
-            condition_value = qiskit_op.condition[1]
+            condition_value = int(qiskit_op.condition[1])
         else:
             condition_bits = []
 
@@ -335,7 +387,7 @@ def convert_from_qiskit(qiskit_qc):
             elif isinstance(p, np.number):
                 qrisp_params.append(p.item())
             elif isinstance(p, ParameterExpression):
-                lambd_expr = sympify(ParameterExpression.sympify(p))
+                lambd_expr = sympify(p.sympify())
 
                 qrisp_params.append(lambd_expr)
 
@@ -343,16 +395,14 @@ def convert_from_qiskit(qiskit_qc):
                 qrisp_params.append(float(p))
             elif isinstance(p, complex):
                 qrisp_params.append(p)
-            elif isinstance(p, QiskitQuantumCircuit):
-                qiskit_op = p.to_gate()
-                break
             else:
                 print(p)
                 raise Exception(f"Could not convert parameter type {type(p)}")
 
         params = qrisp_params
 
-        if isinstance(qiskit_op, ControlledGate):
+        # The CU gate has an additional phase parameter, which is not part of its base gate
+        if isinstance(qiskit_op, ControlledGate) and len(qiskit_op.params) == len(qiskit_op.base_gate.params):
             controlled_gate = True
             qiskit_op = qiskit_op.base_gate
         else:
@@ -363,6 +413,12 @@ def convert_from_qiskit(qiskit_qc):
             from qrisp.circuit import PRXGate as _PRXGate
 
             op = _PRXGate(params[0], params[1])
+        elif qiskit_op.name in op_dic and (
+            type(qiskit_op) in [Gate, Instruction] or (controlled_gate and qiskit_op.name == "sx")
+        ):
+            # In these cases the gate is specified by its definition: It is either a custom
+            # gate, which shares its name with a standard gate, or its global phase is relevant.
+            op = convert_from_qiskit(qiskit_op.definition, True).to_op()
         else:
             try:
                 op = op_dic[qiskit_op.name](*params)
@@ -371,7 +427,7 @@ def convert_from_qiskit(qiskit_qc):
                     op = op_dic[qiskit_op.name.lower()](*params)
                 except KeyError:
                     if qiskit_op.definition is not None:
-                        op = convert_from_qiskit(qiskit_op.definition).to_gate(name=qiskit_op.name)
+                        op = convert_from_qiskit(qiskit_op.definition, True).to_op(name=qiskit_op.name)
                     else:
                         raise Exception("Could not convert Qiskit operation " + str(qiskit_op.name) + " to Qrisp")
 
@@ -398,7 +454,50 @@ def convert_from_qiskit(qiskit_qc):
     # Propagate Qiskit's global phase (stored as a circuit attribute,
     # not an instruction).  Dropping it changes the unitary — critical
     # for controlled operations built from gate definitions with phase.
-    if abs(getattr(qiskit_qc, "global_phase", 0)) > 1e-10:
-        qc.gphase(qiskit_qc.global_phase, qc.qubits[0])
+    if isinstance(global_phase, Expr) or abs(global_phase) > 1e-10:
+        qc.gphase(global_phase, qc.qubits[0])
 
     return qc
+
+
+def append_if_else(qc, qiskit_instr, qb_dic, cb_dic):
+    from qiskit.circuit import Clbit
+
+    if_else_op = qiskit_instr.operation
+
+    if not isinstance(if_else_op.condition, tuple):
+        raise NotImplementedError("Conversion of Qiskit conditions of type Expr is not supported.")
+
+    condition_target, condition_value = if_else_op.condition
+    qiskit_condition_bits = [condition_target] if isinstance(condition_target, Clbit) else list(condition_target)
+    condition_bits = [cb_dic[cb] for cb in qiskit_condition_bits]
+    condition_value = int(condition_value)
+
+    ctrl_states = [bin_rep(condition_value, len(condition_bits))[::-1]]
+    if len(if_else_op.blocks) > 1:
+        if len(condition_bits) > 1:
+            raise NotImplementedError("Conversion of else-blocks with conditions on several bits is not supported.")
+        ctrl_states.append(str(1 - condition_value))
+
+    qubits = [qb_dic[qb] for qb in qiskit_instr.qubits]
+    clbits = [cb_dic[cb] for cb in qiskit_instr.clbits]
+
+    for block, ctrl_state in zip(if_else_op.blocks, ctrl_states):
+        block_qc = convert_from_qiskit(block, True)
+        block_dic = dict(zip(block_qc.qubits + block_qc.clbits, qubits + clbits))
+
+        for instr in block_qc.data:
+            instr_qubits = [block_dic[qb] for qb in instr.qubits]
+            instr_clbits = [block_dic[cb] for cb in instr.clbits]
+
+            # An operation can only be conditioned on bits, that it doesn't use itself.
+            if set(instr_clbits) & set(condition_bits):
+                raise NotImplementedError("Conversion of blocks, which use their condition bits, is not supported.")
+
+            op = instr.op
+            instr_ctrl_state = ctrl_state
+            if isinstance(op, ClControlledOperation):
+                instr_ctrl_state += op.ctrl_state
+                op = op.base_op
+
+            qc.append(op.c_if(len(instr_ctrl_state), instr_ctrl_state), instr_qubits, condition_bits + instr_clbits)
-- 
2.43.0


From d6118bb133896cc21d1dd8ddc4b4d2bb35a7dd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:42 +0000
Subject: [PATCH 12/83] fix: phase gates, control states and global phases in
 the pytket converter

---
 .../interface/converter/pytket_converter.py   | 49 +++++++++----------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/src/qrisp/interface/converter/pytket_converter.py b/src/qrisp/interface/converter/pytket_converter.py
index d8986c6..92b37d4 100644
--- a/src/qrisp/interface/converter/pytket_converter.py
+++ b/src/qrisp/interface/converter/pytket_converter.py
@@ -37,7 +37,7 @@ def create_tket_instruction(op):
     elif op.name == "h":
         tket_ins = OpType.H
     elif op.name == "p":
-        tket_ins = OpType.Rz
+        tket_ins = OpType.U1
     elif op.name == "x":
         tket_ins = OpType.X
     elif op.name == "y":
@@ -58,7 +58,7 @@ def create_tket_instruction(op):
         tket_ins = OpType.T
     elif op.name == "t_dg":
         tket_ins = OpType.Tdg
-    elif op.name == "u3":
+    elif op.name in ["u3", "r"]:
         tket_ins = OpType.U3
 
     elif op.definition:
@@ -116,6 +116,12 @@ def pytket_converter(qc, boxFlag=False):
         op = qc.data[i].op
 
         params = list(op.params)
+        if op.name == "r":
+            params = [op.theta, op.phi, op.lam]
+
+        # The native pytket gates are controlled on the 1-state
+        native_ctrl = "0" not in getattr(op, "ctrl_state", "1")
+
         # Prepare qubits
         qubit_list = [qubit_dic[qubit.identifier] for qubit in qc.data[i].qubits]
         clbit_list = [clbit_dic[clbit.identifier] for clbit in qc.data[i].clbits]
@@ -131,6 +137,8 @@ def pytket_converter(qc, boxFlag=False):
             "ryy",
             "u1",
             "u3",
+            "r",
+            "gphase",
         ]:  # and not boxFlag:
             # pytket expects angles in pi multiples
             params = [index / np.pi for index in params]
@@ -139,30 +147,21 @@ def pytket_converter(qc, boxFlag=False):
         if op.name in ["qb_alloc", "qb_dealloc"]:
             continue
 
-        elif op.name == "cx":
-            # maybe adjustment necessary here
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CX
-            else:
-                tket_ins = OpType.CX
+        elif op.name == "gphase":
+            tket_qc.add_phase(params[0])
+            continue
 
-        elif op.name == "cy":
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CY
-            else:
-                tket_ins = OpType.CY
+        elif op.name == "cx" and native_ctrl:
+            tket_ins = OpType.CX
 
-        elif op.name == "cz":
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CZ
-            else:
-                tket_ins = OpType.CZ
+        elif op.name == "cy" and native_ctrl:
+            tket_ins = OpType.CY
 
-        elif op.name == "cp":
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CRz
-            else:
-                tket_ins = OpType.Rz
+        elif op.name == "cz" and native_ctrl:
+            tket_ins = OpType.CZ
+
+        elif op.name == "cp" and native_ctrl:
+            tket_ins = OpType.CU1
 
         elif op.name == "sx":
             # bugged -> params empty
@@ -174,9 +173,7 @@ def pytket_converter(qc, boxFlag=False):
             tket_ins = OpType.SXdg
 
         elif op.name == "u1":
-            params[0] = params[0] / np.pi
-            # bugged
-            tket_ins = OpType.Rz
+            tket_ins = OpType.U1
         elif op.name == "id":
             params = []
             # bugged
-- 
2.43.0


From 969a213ac85013d17523ea549739507783de2baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:42 +0000
Subject: [PATCH 13/83] fix: PennyLane conversion of controlled subcircuits

---
 src/qrisp/interface/converter/pennylane_converter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/interface/converter/pennylane_converter.py b/src/qrisp/interface/converter/pennylane_converter.py
index afb396f..60d4f9f 100644
--- a/src/qrisp/interface/converter/pennylane_converter.py
+++ b/src/qrisp/interface/converter/pennylane_converter.py
@@ -119,7 +119,11 @@ def _create_qml_instruction(op: Operation) -> tuple[QMLGateDescriptor, bool, boo
 
 def _is_nested_circuit(op: Operation) -> bool:
     """Return True if this Qrisp operation is a subcircuit."""
-    return op.definition is not None and not isinstance(op, ControlledOperation) and op.name not in QRISP_PL_BASE_MAP
+    if isinstance(op, ControlledOperation):
+        op_name, _ = _extract_name(op.base_operation.name)
+    else:
+        op_name = op.name
+    return op.definition is not None and op_name not in QRISP_PL_BASE_MAP
 
 
 def _evaluate_abstract_params(params: list, subs_dic: dict) -> list:
-- 
2.43.0


From 88a5cb02ca3dffcf69996571c96ef3c9925dcbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:42 +0000
Subject: [PATCH 14/83] fix: relative phase of controlled Cirq X and Y powers

---
 src/qrisp/interface/converter/cirq_converter.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/qrisp/interface/converter/cirq_converter.py b/src/qrisp/interface/converter/cirq_converter.py
index 9ede12b..d9dfcbe 100644
--- a/src/qrisp/interface/converter/cirq_converter.py
+++ b/src/qrisp/interface/converter/cirq_converter.py
@@ -410,6 +410,16 @@ def convert_from_cirq(cirq_circuit):
         else:
             raise ValueError(f"Gate {gate} is not supported by the Cirq to Qrisp converter.")
 
+        # The rotations above agree with Cirq's X and Y powers up to a global
+        # phase, which becomes a relative phase if the gate is controlled.
+        if (ctrl_layers or extra_controls is not None) and qrisp_op.name in ("rx", "ry", "sx", "sx_dg"):
+            phi = np.pi * inner_gate.exponent * (inner_gate.global_shift + 0.5)
+            if not np.isclose(phi, 0):
+                phase_qc = QuantumCircuit(1)
+                phase_qc.append(qrisp_op, [0])
+                phase_qc.gphase(phi, 0)
+                qrisp_op = phase_qc.to_gate()
+
         # Wrap any ControlledGate layers (inside-out)
         for num_ctrl, ctrl_state in reversed(ctrl_layers):
             qrisp_op = ControlledOperation(
-- 
2.43.0


From 4a143550a31aa602948352a780fe0673f30d110a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:35 +0000
Subject: [PATCH 15/83] fix: keep the order of instructions on the same clbit
 in commute_swaps

---
 src/qrisp/circuit/pass_management/passes/commute_swaps.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qrisp/circuit/pass_management/passes/commute_swaps.py b/src/qrisp/circuit/pass_management/passes/commute_swaps.py
index a7e470d..0b79692 100644
--- a/src/qrisp/circuit/pass_management/passes/commute_swaps.py
+++ b/src/qrisp/circuit/pass_management/passes/commute_swaps.py
@@ -114,6 +114,14 @@ def commute_swaps(qc: QuantumCircuit) -> QuantumCircuit:
         else:
             instr_index = len(qc_new.data) - 1
 
+            # Instructions acting on the same clbit have to keep their order
+            if instr.clbits:
+                for qb, indices in last_instruction_dic.items():
+                    for k in reversed(range(len(indices))):
+                        if not set(instr.clbits).isdisjoint(qc_new.data[indices[k]].clbits):
+                            last_instruction_dic[qb] = indices[k + 1 :]
+                            break
+
             if instr.op.num_qubits == 1 and len(instr.qubits) == 1:
                 qb = instr.qubits[0]
                 last_instruction_dic[qb].append(instr_index)
-- 
2.43.0


From 43eb917ee8fefc6bbe2bca2d726a62094aab4a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:54 +0000
Subject: [PATCH 16/83] fix: retarget nested control environments in
 conjugations

---
 src/qrisp/misc/utility.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index 32bd0bf..1ee82d4 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -1346,7 +1346,8 @@ def find_calling_line(level=0):
 
 
 def retarget_instructions(data, source_qubits, target_qubits):
-    from qrisp import QuantumEnvironment
+    from qrisp import ControlEnvironment, QuantumEnvironment
+    from qrisp.environments import CustomControlEnvironment
 
     for i in range(len(data)):
         instr = data[i]
@@ -1354,6 +1355,17 @@ def retarget_instructions(data, source_qubits, target_qubits):
         if isinstance(instr, QuantumEnvironment):
             retarget_instructions(instr.original_data, source_qubits, target_qubits)
             retarget_instructions(instr.env_data, source_qubits, target_qubits)
+
+            # The control qubits of the environment also need to be retargeted
+            if isinstance(instr, ControlEnvironment):
+                instr.ctrl_qubits = [
+                    target_qubits[source_qubits.index(qb)] if qb in source_qubits else qb for qb in instr.ctrl_qubits
+                ]
+                if instr.condition_truth_value in source_qubits:
+                    instr.condition_truth_value = target_qubits[source_qubits.index(instr.condition_truth_value)]
+            elif isinstance(instr, CustomControlEnvironment):
+                if instr.control_qb in source_qubits:
+                    instr.control_qb = target_qubits[source_qubits.index(instr.control_qb)]
             continue
 
         for j in range(len(instr.qubits)):
-- 
2.43.0


From 5b72c7881dc3400846c69bed09d52b6214756c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:54 +0000
Subject: [PATCH 17/83] fix: respect the control state of the parent in nested
 condition environments

---
 src/qrisp/environments/control_environment.py | 35 +++++++++++--------
 .../environments/quantum_conditionals.py      |  7 ++--
 2 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/qrisp/environments/control_environment.py b/src/qrisp/environments/control_environment.py
index d75dd67..8b315b8 100644
--- a/src/qrisp/environments/control_environment.py
+++ b/src/qrisp/environments/control_environment.py
@@ -194,21 +194,7 @@ class ControlEnvironment(QuantumEnvironment):
                     self.condition_truth_value = self.qbool[0]
 
                 ctrl_qubits.append(self.parent_cond_env.condition_truth_value)
-
-                parent_ctrl_state = "1"
-
-                if isinstance(self.parent_cond_env, ControlEnvironment):
-                    if len(self.parent_cond_env.ctrl_qubits) == 1:
-                        if self.parent_cond_env.ctrl_state == "0" and not hasattr(self.parent_cond_env, "qbool"):
-                            parent_ctrl_state = "0"
-
-                    if self.parent_cond_env.invert:
-                        if parent_ctrl_state == "0":
-                            parent_ctrl_state = "1"
-                        elif parent_ctrl_state == "1":
-                            parent_ctrl_state = "0"
-
-                cond_compile_ctrl_state = cond_compile_ctrl_state + parent_ctrl_state
+                cond_compile_ctrl_state += get_truth_value_ctrl_state(self.parent_cond_env)
 
             if len(ctrl_qubits) > 1:
                 if len(ctrl_qubits) > 5:
@@ -387,6 +373,25 @@ class ControlEnvironment(QuantumEnvironment):
         insert_outvalues(eqn, context_dic, res)
 
 
+# Returns the state of the truth value qubit of an environment, for which the content
+# of this environment is executed
+def get_truth_value_ctrl_state(env):
+    ctrl_state = "1"
+
+    if isinstance(env, ControlEnvironment):
+        if len(env.ctrl_qubits) == 1:
+            if env.ctrl_state == "0" and not hasattr(env, "qbool"):
+                ctrl_state = "0"
+
+        if env.invert:
+            if ctrl_state == "0":
+                ctrl_state = "1"
+            elif ctrl_state == "1":
+                ctrl_state = "0"
+
+    return ctrl_state
+
+
 # This function turns instructions where the definition contains CustomControlOperations
 # into CustomControlOperations. For this it checks that all Instructions that are acting
 # on the control_qubit are also CustomControlOperations.
diff --git a/src/qrisp/environments/quantum_conditionals.py b/src/qrisp/environments/quantum_conditionals.py
index fd309b7..bc11368 100644
--- a/src/qrisp/environments/quantum_conditionals.py
+++ b/src/qrisp/environments/quantum_conditionals.py
@@ -366,6 +366,7 @@ class ConditionEnvironment(QuantumEnvironment):
         from qrisp.environments.control_environment import (
             ControlEnvironment,
             convert_to_custom_control,
+            get_truth_value_ctrl_state,
         )
         from qrisp.qtypes.quantum_bool import QuantumBool
 
@@ -407,7 +408,9 @@ class ConditionEnvironment(QuantumEnvironment):
 
                 from qrisp import mcx
 
-                mcx(toffoli_qb_list, self.condition_truth_value, method="gray_pt")
+                toffoli_ctrl_state = get_truth_value_ctrl_state(self.parent_cond_env) + "1"
+
+                mcx(toffoli_qb_list, self.condition_truth_value, method="gray_pt", ctrl_state=toffoli_ctrl_state)
 
             else:
                 # Without any parent environment we can simply synhesize the
@@ -516,7 +519,7 @@ class ConditionEnvironment(QuantumEnvironment):
             # this environments truth value
             if self.parent_cond_env is not None:
                 self.parent_cond_env.sub_condition_envs.extend(self.sub_condition_envs + [self])
-                mcx(toffoli_qb_list, self.qbool, method="gray_pt_inv")
+                mcx(toffoli_qb_list, self.qbool, method="gray_pt_inv", ctrl_state=toffoli_ctrl_state)
                 self.qbool.delete()
 
             # We now uncompute the environments' truth value
-- 
2.43.0


From 99d094fed6c75ac1e96363fe74e1c289bb15963e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:54 +0000
Subject: [PATCH 18/83] fix: order of string control states and invert of
 static classical control

---
 .../classical_control_environment.py          | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/qrisp/environments/classical_control_environment.py b/src/qrisp/environments/classical_control_environment.py
index 7847134..c2c7782 100644
--- a/src/qrisp/environments/classical_control_environment.py
+++ b/src/qrisp/environments/classical_control_environment.py
@@ -159,22 +159,28 @@ class ClControlEnvironment(QuantumEnvironment):
         self.ctrl_state = ctrl_state
 
         # If the ctrl state is a string, convert into an integer
+        # (the i-th character belongs to the i-th control value)
         if isinstance(self.ctrl_state, str):
             if ctrl_state == len(ctrl_bls) * "1":
                 self.ctrl_state = -1
             else:
-                self.ctrl_state = int(self.ctrl_state, 2)
+                self.ctrl_state = int(self.ctrl_state[::-1], 2)
 
         self.ctrl_state = self.ctrl_state % (2 ** len(self.ctrl_bls))
 
         self.invert = invert
 
     def compile(self):
+        if self.condition_holds():
+            QuantumEnvironment.compile(self)
+
+    def condition_holds(self):
+        # Evaluates the condition for static (i.e. non-traced) control values
         for i in range(len(self.ctrl_bls)):
             if self.ctrl_bls[i] != bool((self.ctrl_state >> i) & 1):
-                break
-        else:
-            QuantumEnvironment.compile(self)
+                return self.invert
+
+        return not self.invert
 
     def __exit__(self, exception_type, exception_value, traceback):
 
@@ -192,15 +198,12 @@ class ClControlEnvironment(QuantumEnvironment):
         static_error_appeared = False
         if not check_for_tracing_mode():
             if exception_type is not None:
-                for i in range(len(self.ctrl_bls)):
-                    ctrl_bl = self.ctrl_bls[i]
-                    if (ctrl_bl ^ (self.ctrl_state >> i)) & 1:
-                        self.env_qs.data = []
-                        static_error_appeared = True
-                        exception_type = None
-                        exception_value = None
-                        traceback = None
-                        break
+                if not self.condition_holds():
+                    self.env_qs.data = []
+                    static_error_appeared = True
+                    exception_type = None
+                    exception_value = None
+                    traceback = None
 
         QuantumEnvironment.__exit__(self, exception_type, exception_value, traceback)
 
-- 
2.43.0


From b0d89692ed675c06890b85cad0fed4518384eedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:54 +0000
Subject: [PATCH 19/83] fix: track the permeability type of every qubit of a
 dependency edge

---
 src/qrisp/permeability/permeability_dag.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/qrisp/permeability/permeability_dag.py b/src/qrisp/permeability/permeability_dag.py
index 05bd044..50e1c12 100644
--- a/src/qrisp/permeability/permeability_dag.py
+++ b/src/qrisp/permeability/permeability_dag.py
@@ -229,7 +229,11 @@ class PermeabilityGraph(nx.DiGraph):
         if self.has_edge(in_node, out_node):
             nx.DiGraph.get_edge_data(self, in_node, out_node)["qubits"].extend(qubits)
         else:
-            nx.DiGraph.add_edge(self, in_node, out_node, edge_type=edge_type, qubits=list(qubits))
+            nx.DiGraph.add_edge(self, in_node, out_node, edge_type=edge_type, qubits=list(qubits), qubit_types={})
+
+        # Two nodes can be connected via several qubits with different edge types
+        for qb in qubits:
+            nx.DiGraph.get_edge_data(self, in_node, out_node)["qubit_types"].setdefault(qb, edge_type)
 
     def get_target_qubits(self, node):
         """Returns the target qubits of a node, i.e. the qubits that have either neutral or X-permeability.
@@ -257,8 +261,7 @@ class PermeabilityGraph(nx.DiGraph):
 
         in_edges = self.in_edges(node, data=True)
         for in_node, _, data in in_edges:
-            if data["edge_type"] != "Z":
-                target_qubits.extend(data["qubits"])
+            target_qubits.extend([qb for qb in data["qubits"] if data["qubit_types"][qb] != "Z"])
 
         return target_qubits
 
@@ -291,8 +294,7 @@ class PermeabilityGraph(nx.DiGraph):
 
         in_edges = self.in_edges(node, data=True)
         for in_node, _, data in in_edges:
-            if data["edge_type"] == "Z":
-                control_qubits.extend(data["qubits"])
+            control_qubits.extend([qb for qb in data["qubits"] if data["qubit_types"][qb] == "Z"])
 
         return control_qubits
 
@@ -323,7 +325,7 @@ class PermeabilityGraph(nx.DiGraph):
 
         in_edges = self.in_edges(node, data=True)
         for in_node, _, data in in_edges:
-            if data["edge_type"] == "Z":
+            if "Z" in data["qubit_types"].values():
                 control_nodes.append(in_node)
 
         return control_nodes
@@ -355,7 +357,7 @@ class PermeabilityGraph(nx.DiGraph):
 
         in_edges = self.in_edges(node, data=True)
         for in_node, _, data in in_edges:
-            if data["edge_type"] != "Z":
+            if any(edge_type != "Z" for edge_type in data["qubit_types"].values()):
                 target_nodes.append(in_node)
 
         return target_nodes
-- 
2.43.0


From 6b233d0581e86f9c1a3af004daf847d8d64f65cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:35:47 +0000
Subject: [PATCH 20/83] fix: keep phases intact in uncomputation

---
 .../permeability/qc_transformations/unqomp.py | 27 ++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/permeability/qc_transformations/unqomp.py b/src/qrisp/permeability/qc_transformations/unqomp.py
index f34f3e8..389cdbd 100644
--- a/src/qrisp/permeability/qc_transformations/unqomp.py
+++ b/src/qrisp/permeability/qc_transformations/unqomp.py
@@ -91,6 +91,10 @@ def uncompute_qc(qc, uncomp_qbs, recompute_qubits=[]):
         lin = list(nx.topological_sort(pdag))
         lin.reverse()
 
+        # Store the order, in which the nodes are traversed
+        for i in range(len(lin)):
+            lin[i].lin_index = i
+
         for i in range(len(lin)):
             # Set an alias
             node = lin[i]
@@ -222,6 +226,10 @@ def uncompute_node(pdag, node, uncomp_qbs, recompute_qubits=[]):
     #     if not ctrls[i].uncomputed_node is None:
     #         ctrls[i] = ctrls[i].uncomputed_node
 
+    # The instruction is shared with the input circuit, which must not be modified
+    node.instr = node.instr.copy()
+    original_op = node.instr.op
+
     # Replace controlled operations by phase tolerant controlled operations
     if isinstance(node.instr.op, ControlledOperation):
         op = node.instr.op
@@ -254,6 +262,22 @@ def uncompute_node(pdag, node, uncomp_qbs, recompute_qubits=[]):
 
             node.instr.op = temp
 
+    # Phase tolerant operations no longer commute with the other members of an X streak.
+    # We therefore fix the order of these operations such that it matches the order of
+    # their uncomputation.
+    if node.instr.op is not original_op:
+        for qb in target_qubits:
+            for pred in list(pdag.predecessors(node)):
+                if qb not in pdag.get_edge_qubits(pred, node):
+                    continue
+                for sibling in pdag.get_streak_children(pred, qb):
+                    if getattr(sibling, "lin_index", -1) < 0 or sibling == node:
+                        continue
+                    if sibling.lin_index < node.lin_index:
+                        pdag.add_edge(node, sibling, edge_type="anti_dependency")
+                    else:
+                        pdag.add_edge(sibling, node, edge_type="anti_dependency")
+
     # Create the instruction for the new UnqompNode
     new_instr = node.instr.inverse()
 
@@ -281,7 +305,8 @@ def uncompute_node(pdag, node, uncomp_qbs, recompute_qubits=[]):
     # This dictionary will hold the control qubits of each control edge
     ctrl_qubit_dic = {}
     for c in ctrls:
-        ctrl_qubit_dic[c] = pdag.get_edge_qubits(c, node)
+        edge_qubits = pdag.get_edge_qubits(c, node)
+        ctrl_qubit_dic[c] = [qb for qb in pdag.get_control_qubits(node) if qb in edge_qubits]
 
     while len(ctrls):
         # Set alias
-- 
2.43.0


From 159d7d5994f174c103da240ebb83b04d55a4c780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:08 +0000
Subject: [PATCH 21/83] fix: sign of the phase correction in the compiled Jones
 Toffoli

---
 src/qrisp/alg_primitives/mcx_algs/circuit_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/mcx_algs/circuit_library.py b/src/qrisp/alg_primitives/mcx_algs/circuit_library.py
index 2152324..6aaa90a 100644
--- a/src/qrisp/alg_primitives/mcx_algs/circuit_library.py
+++ b/src/qrisp/alg_primitives/mcx_algs/circuit_library.py
@@ -145,7 +145,7 @@ selinger_toffoli_qc.h(2)
 # Implementation of the T-Depth 1 Toffoli found in https://arxiv.org/pdf/1212.5069.pdf
 jones_toffoli_qc = QuantumCircuit(5, 1)
 jones_toffoli_qc.append(selinger_toffoli_qc.to_gate("selinger_quasi_toffoli"), [0, 1, 3, 4])
-jones_toffoli_qc.s(3)
+jones_toffoli_qc.s_dg(3)
 jones_toffoli_qc.cx(3, 2)
 jones_toffoli_qc.h(3)
 jones_toffoli_qc.measure(3, 0)
-- 
2.43.0


From df2edf82f3ab0553721a72b0f91798b1c3d2d7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:08 +0000
Subject: [PATCH 22/83] fix: revert the phases of the phase tolerant gates in
 the Khattar mcx with four controls

---
 src/qrisp/alg_primitives/mcx_algs/khattar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/mcx_algs/khattar.py b/src/qrisp/alg_primitives/mcx_algs/khattar.py
index bf81040..c978bc2 100644
--- a/src/qrisp/alg_primitives/mcx_algs/khattar.py
+++ b/src/qrisp/alg_primitives/mcx_algs/khattar.py
@@ -113,9 +113,9 @@ def cca_4ctrls(ctrls, target):
 
     mcx([ctrls[1], cca4_anc[0]], target[0])
 
-    mcx([ctrls[2], ctrls[3]], ctrls[1], method="gray_pt")
+    mcx([ctrls[3], ctrls[2]], ctrls[1], method="gray_pt_inv")
     x(ctrls[1])
-    mcx([ctrls[0], ctrls[1]], cca4_anc[0], method="gray_pt")
+    mcx([ctrls[1], ctrls[0]], cca4_anc[0], method="gray_pt_inv")
 
     cca4_anc.delete()
 
-- 
2.43.0


From 6302eb8d19f327ac12f9b2e7c336166464c16107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:08 +0000
Subject: [PATCH 23/83] fix: unique ancilla names for the Maslov mcx

---
 src/qrisp/core/gate_application_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index 3be22a1..3274ead 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -572,7 +572,7 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
         from qrisp import QuantumBool
 
         if n >= 3:
-            ancilla = [QuantumBool(name="maslov_anc_")]
+            ancilla = [QuantumBool(name="maslov_anc*")]
         else:
             ancilla = []
         append_operation(maslov_mcx(n, ctrl_state), qubits_0 + ancilla + qubits_1)
-- 
2.43.0


From ae7676903222136ce4c441c8701057873a616674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:08 +0000
Subject: [PATCH 24/83] fix: T-depth indicator of u3 and cy

---
 src/qrisp/misc/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index 1ee82d4..697ef76 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -1922,7 +1922,7 @@ def t_depth_indicator(op, epsilon):
         return op.definition.t_depth(epsilon)
     elif op.name in [
         "cx",
-        "cx",
+        "cy",
         "cz",
         "x",
         "y",
@@ -1953,7 +1953,7 @@ def t_depth_indicator(op, epsilon):
     elif op.name == "u3":
         res = 0
         for i in range(3):
-            par = op.params[0] / (np.pi) % 1
+            par = op.params[i] / (np.pi) % 1
             if par in [0, 1 / 2]:
                 pass
             elif par in [1 / 4, 3 / 4]:
-- 
2.43.0


From 33bbcbd7896ef062e9c4e7f16f366597f94f9f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:14 +0000
Subject: [PATCH 25/83] fix: apply single-qubit phase in hybrid mcx

---
 src/qrisp/alg_primitives/mcx_algs/balauca.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/alg_primitives/mcx_algs/balauca.py b/src/qrisp/alg_primitives/mcx_algs/balauca.py
index 9e908c9..0d9a089 100644
--- a/src/qrisp/alg_primitives/mcx_algs/balauca.py
+++ b/src/qrisp/alg_primitives/mcx_algs/balauca.py
@@ -131,10 +131,17 @@ def hybrid_mcx(
                 input_qubits + target,
             )
         else:
-            qs.append(
-                PGate(phase).control(len(input_qubits), ctrl_state=ctrl_state),
-                input_qubits + target,
-            )
+            # The phase is acquired by the input qubits (the target is only used as
+            # workspace)
+            phase_gate = PGate(phase)
+            if len(input_qubits) > 1:
+                phase_gate = phase_gate.control(len(input_qubits) - 1, ctrl_state=ctrl_state[:-1])
+
+            if ctrl_state[-1] == "0":
+                x(input_qubits[-1])
+            qs.append(phase_gate, input_qubits)
+            if ctrl_state[-1] == "0":
+                x(input_qubits[-1])
         return
 
     structure = structure_decider(len(input_qubits), num_ancilla)  # [::-1]
-- 
2.43.0


From b936aa856ac8caea06f46c7850e3d035a0852f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:14 +0000
Subject: [PATCH 26/83] fix: provide controlled version of the measurement
 based CCCX

---
 src/qrisp/alg_primitives/mcx_algs/khattar.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/mcx_algs/khattar.py b/src/qrisp/alg_primitives/mcx_algs/khattar.py
index c978bc2..17c1f12 100644
--- a/src/qrisp/alg_primitives/mcx_algs/khattar.py
+++ b/src/qrisp/alg_primitives/mcx_algs/khattar.py
@@ -32,7 +32,7 @@ from qrisp.core.gate_application_functions import (
     t_dg,
     x,
 )
-from qrisp.environments import conjugate, control, custom_inversion, invert
+from qrisp.environments import conjugate, control, custom_control, custom_inversion, invert
 from qrisp.jasp import check_for_tracing_mode, jlen, jrange, qache
 from qrisp.qtypes import QuantumFloat
 
@@ -58,7 +58,8 @@ def ctrl_state_conjugator(ctrls, ctrl_state):
 
 
 @custom_inversion
-def gidney_CCCX(ctrls, target, inv=False):
+@custom_control
+def gidney_CCCX(ctrls, target, inv=False, ctrl=None):
     """Implements a CCCZ gate using the Gidney
     method described in https://arxiv.org/abs/2106.11513 using only 6 T gates.
 
@@ -67,6 +68,12 @@ def gidney_CCCX(ctrls, target, inv=False):
         target (list): A list containing the target qubit. It is expected to contain one qubit.
 
     """
+    if ctrl is not None:
+        # Controlling the gates below would leak the value of the control qubit into the
+        # measurement result
+        mcx([ctrls[0], ctrls[1], ctrls[2], ctrl], target[0], method="balauca")
+        return
+
     h(target[0])
 
     gidney_anc = QuantumFloat(1)
-- 
2.43.0


From 0afd6c971965b341f2f5484cb65bfd3471146dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:14 +0000
Subject: [PATCH 27/83] fix: respect control states of multi-controlled gates
 in Jasp

---
 src/qrisp/core/gate_application_functions.py | 21 ++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index 3274ead..a101f9b 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -481,8 +481,9 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
         jones_toffoli,
         khattar_mcx,
     )
+    from qrisp.alg_primitives.mcx_algs.balauca import ctrl_state_conjugator
     from qrisp.core import QuantumVariable
-    from qrisp.environments import invert
+    from qrisp.environments import conjugate, invert
     from qrisp.misc import bin_rep
     from qrisp.qtypes import QuantumBool
 
@@ -529,6 +530,9 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
         if isinstance(qubits_0, (QuantumVariable, DynamicQubitArray)) and method not in ["balauca", "khattar"]:
             method = "balauca"
         qubits_1 = [target]
+
+        if isinstance(ctrl_state, str) and method in ["gidney", "gidney_inv", "balauca"]:
+            ctrl_state = int(ctrl_state[::-1], 2)
     from qrisp.alg_primitives.mcx_algs import (
         balauca_dirty,
         balauca_mcx,
@@ -548,7 +552,8 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
             raise Exception(f"Tried to call Gidney logical AND with {len(qubits_0)} controls instead of two")
 
         if check_for_tracing_mode():
-            jasp_gidney_mcx(qubits_0[0], qubits_0[1], qubits_1[0])
+            with conjugate(ctrl_state_conjugator)(qubits_0, ctrl_state):
+                jasp_gidney_mcx(qubits_0[0], qubits_0[1], qubits_1[0])
         else:
             append_operation(
                 GidneyLogicalAND(ctrl_state=ctrl_state),
@@ -560,8 +565,9 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
             raise Exception(f"Tried to call Gidney logical AND with {len(qubits_0)} controls instead of two")
 
         if check_for_tracing_mode():
-            with invert():
-                jasp_gidney_mcx(qubits_0[0], qubits_0[1], qubits_1[0])
+            with conjugate(ctrl_state_conjugator)(qubits_0, ctrl_state):
+                with invert():
+                    jasp_gidney_mcx(qubits_0[0], qubits_0[1], qubits_1[0])
         else:
             append_operation(
                 GidneyLogicalAND(ctrl_state=ctrl_state, inv=True),
@@ -683,6 +689,9 @@ def mcz(qubits, method="auto", ctrl_state=-1, num_ancilla=1):
             x(qubits[-1])
 
         h(qubits[-1])
+        # The mcx function has no effect if there are no controls
+        with control(n == 1):
+            x(qubits[-1])
         mcx(
             qubits[:-1],
             qubits[-1],
@@ -706,7 +715,7 @@ def mcz(qubits, method="auto", ctrl_state=-1, num_ancilla=1):
         if method == "auto":
             method = "balauca"
         if isinstance(ctrl_state, str):
-            ctrl_state = int(ctrl_state, 2)
+            ctrl_state = int(ctrl_state[::-1], 2)
         return jasp_mcz_inner(qubits, method=method, ctrl_state=ctrl_state)
 
     if method in ["gray", "auto"]:
@@ -789,7 +798,7 @@ def mcp(phi, qubits, method="auto", ctrl_state=-1):
         if method == "auto":
             method = "balauca"
         if isinstance(ctrl_state, str):
-            ctrl_state = int(ctrl_state, 2)
+            ctrl_state = int(ctrl_state[::-1], 2)
 
     if method == "gray" or method == "gray_pt":
         if ctrl_state[-1] == "0":
-- 
2.43.0


From 2746ed4c9eeafc17d8b4400e92c55823b5fba8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:45 +0000
Subject: [PATCH 28/83] fix: align operands of different formats in q_max and
 q_min

---
 .../arithmetic/arithmetic_tools.py            | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/arithmetic_tools.py b/src/qrisp/alg_primitives/arithmetic/arithmetic_tools.py
index 67ea8a2..64a150f 100644
--- a/src/qrisp/alg_primitives/arithmetic/arithmetic_tools.py
+++ b/src/qrisp/alg_primitives/arithmetic/arithmetic_tools.py
@@ -60,7 +60,7 @@ def q_max(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
 
     # We calculate the overlap of bits with the same significance of a and b.
     l = jnp.maximum(a.mshape[0], b.mshape[0])
-    r = jnp.minimum(a.mshape[1], b.mshape[1])
+    r = jnp.maximum(l, jnp.minimum(a.mshape[1], b.mshape[1]))
 
     c = QuantumBool()
 
@@ -78,7 +78,7 @@ def q_max(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
                 )
 
         with control(c):
-            up_bd = jnp.minimum(a.size, l - a.exponent)
+            up_bd = jnp.minimum(a.msize, l - a.exponent)
             cx(a[:up_bd], res[:up_bd])
             lw_bd = jnp.maximum(r, a.exponent)
             cx(
@@ -86,10 +86,12 @@ def q_max(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
                 res[lw_bd - new_exponent : a.mshape[1] - new_exponent],
             )
             if a.signed:
-                cx(a.sign(), res.sign())
+                # Sign extension
+                for i in jrange(a.mshape[1] - new_exponent, res.size):
+                    cx(a.sign(), res[i])
 
         with control(c, 0):
-            up_bd = jnp.minimum(b.size, l - b.exponent)
+            up_bd = jnp.minimum(b.msize, l - b.exponent)
             cx(b[:up_bd], res[:up_bd])
             lw_bd = jnp.maximum(r, b.exponent)
             cx(
@@ -97,7 +99,9 @@ def q_max(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
                 res[lw_bd - new_exponent : b.mshape[1] - new_exponent],
             )
             if b.signed:
-                cx(b.sign(), res.sign())
+                # Sign extension
+                for i in jrange(b.mshape[1] - new_exponent, res.size):
+                    cx(b.sign(), res[i])
 
     c.delete()
 
@@ -140,7 +144,7 @@ def q_min(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
 
     # We calculate the overlap of bits with the same significance of a and b.
     l = jnp.maximum(a.mshape[0], b.mshape[0])
-    r = jnp.minimum(a.mshape[1], b.mshape[1])
+    r = jnp.maximum(l, jnp.minimum(a.mshape[1], b.mshape[1]))
 
     c = QuantumBool()
 
@@ -158,7 +162,7 @@ def q_min(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
                 )
 
         with control(c):
-            up_bd = jnp.minimum(a.size, l - a.exponent)
+            up_bd = jnp.minimum(a.msize, l - a.exponent)
             cx(a[:up_bd], res[:up_bd])
             lw_bd = jnp.maximum(r, a.exponent)
             cx(
@@ -166,10 +170,12 @@ def q_min(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
                 res[lw_bd - new_exponent : a.mshape[1] - new_exponent],
             )
             if a.signed:
-                cx(a.sign(), res.sign())
+                # Sign extension
+                for i in jrange(a.mshape[1] - new_exponent, res.size):
+                    cx(a.sign(), res[i])
 
         with control(c, 0):
-            up_bd = jnp.minimum(b.size, l - b.exponent)
+            up_bd = jnp.minimum(b.msize, l - b.exponent)
             cx(b[:up_bd], res[:up_bd])
             lw_bd = jnp.maximum(r, b.exponent)
             cx(
@@ -177,7 +183,9 @@ def q_min(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
                 res[lw_bd - new_exponent : b.mshape[1] - new_exponent],
             )
             if b.signed:
-                cx(b.sign(), res.sign())
+                # Sign extension
+                for i in jrange(b.mshape[1] - new_exponent, res.size):
+                    cx(b.sign(), res[i])
 
     c.delete()
 
-- 
2.43.0


From c8b50c4b9cbedc5682967e7bedfe4e52ed3fb1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:45 +0000
Subject: [PATCH 29/83] fix: compare signed QuantumFloats of different formats
 for equality

---
 .../alg_primitives/arithmetic/comparisons.py  | 29 ++++++++++++++-----
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/comparisons.py b/src/qrisp/alg_primitives/arithmetic/comparisons.py
index 0f7c872..93acb80 100644
--- a/src/qrisp/alg_primitives/arithmetic/comparisons.py
+++ b/src/qrisp/alg_primitives/arithmetic/comparisons.py
@@ -208,9 +208,6 @@ def equal(qf_0, qf_1):
         mcx_qubits = []
         mcx_qubits += qf_0.reg
 
-        if qf_1.signed and qf_0.signed:
-            cx(qf_1.sign(), qf_0.sign())
-
         m0 = qf_0.msize
         m1 = qf_1.msize
         e0 = qf_0.exponent
@@ -221,19 +218,35 @@ def equal(qf_0, qf_1):
         r = jnp.minimum(e0 + m0, e1 + m1)
         d = r - l
 
+        # The positions where the significance of one operand exceeds the other operand
+        u0 = jnp.clip(e1 + m1 - e0, 0, m0)
+        u1 = jnp.clip(e0 + m0 - e1, 0, m1)
+
+        both_signed = qf_0.signed and qf_1.signed
+
         def conjugator(qf_0, qf_1):
+            if both_signed:
+                # Negative numbers have to agree with the sign extension of the other
+                # operand. This is impossible if there is a gap between the significances.
+                with control(d >= 0):
+                    for i in jrange(u0, m0):
+                        cx(qf_1.sign(), qf_0[i])
+                    for i in jrange(u1, m1):
+                        cx(qf_0.sign(), qf_1[i])
+                    cx(qf_1.sign(), qf_0.sign())
+
             for i in jrange(d):
                 cx(qf_1[i + l - e1], qf_0[i + l - e0])
 
-        mcx_qubits += qf_1.reg[: l - e1]
-        mcx_qubits += qf_1.reg[e0 + m0 - e1 : e1 + m1 - e1]
+        mcx_qubits += qf_1.reg[: jnp.minimum(l - e1, m1)]
+        mcx_qubits += qf_1.reg[u1:m1]
+
+        if both_signed:
+            mcx_qubits += qf_1.reg[m1 : m1 + jnp.where(d < 0, 1, 0)]
 
         with conjugate(conjugator)(qf_0, qf_1):
             mcx(mcx_qubits, eq_qbl, ctrl_state=0)
 
-        if qf_1.signed and qf_0.signed:
-            cx(qf_1.sign(), qf_0.sign())
-
         return eq_qbl
 
     # if qf_0.truncate(qf_1) != qf_1:
-- 
2.43.0


From f28f6d425ea5034ccba60b8ee620377f8d2cc2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:45 +0000
Subject: [PATCH 30/83] fix: respect the exponent in QuantumFloat powers

---
 src/qrisp/qtypes/quantum_float.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/qtypes/quantum_float.py b/src/qrisp/qtypes/quantum_float.py
index 6d2a920..f48a8fd 100644
--- a/src/qrisp/qtypes/quantum_float.py
+++ b/src/qrisp/qtypes/quantum_float.py
@@ -632,9 +632,9 @@ class QuantumFloat(QuantumVariable):
                     (temp_results[i + 1] << jasp_multiplyer)(base, temp_results[i])
                     # (temp_results[i+1] << (lambda a, b : a * b))(base, temp_results[i])
 
-            temp_results = [QuantumFloat((i + 1) * self.size) for i in range(power)]
+            temp_results = [QuantumFloat((i + 1) * self.size, (i + 1) * self.exponent) for i in range(power)]
 
-            res = QuantumFloat(self.size * power)
+            res = QuantumFloat(self.size * power, self.exponent * power)
             with conjugate(power_conjugator)(self, power, temp_results):
                 cx(temp_results[-1], res)
 
-- 
2.43.0


From ab1de55f23b11958519a49659e5f2bde26b8b0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:45 +0000
Subject: [PATCH 31/83] fix: handle short registers in the Thapliyal adder

---
 .../alg_primitives/arithmetic/adders/thapliyal_adder.py    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/thapliyal_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/thapliyal_adder.py
index fd465c2..b376886 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/thapliyal_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/thapliyal_adder.py
@@ -46,12 +46,17 @@ def thapliyal_procedure(qc, qubit_list_1, qubit_list_2, output_qubit):
 
     n = len(qubit_list_1)
 
+    if n == 0:
+        # There is no carry
+        return
+
     # Step 1
     for i in range(1, n):
         qc.cx(qubit_list_1[i], qubit_list_2[i])
 
     # Step 2
-    qc.cx(qubit_list_1[-1], output_qubit)
+    if n > 1:
+        qc.cx(qubit_list_1[-1], output_qubit)
 
     for i in range(n - 2, 0, -1):
         qc.cx(qubit_list_1[i], qubit_list_1[i + 1])
-- 
2.43.0


From 6e85168e3e48cb7b26a8ac93bf222eb9967d74e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:45 +0000
Subject: [PATCH 32/83] fix: extend unsigned QuantumFloats at the top in
 in-place multiplication

---
 src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
index 0f5eef2..8208307 100644
--- a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
+++ b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
@@ -1037,9 +1037,11 @@ def inpl_mult(qf, mult_int, treat_overflow=True):
     if mult_int != 1:
         if treat_overflow:
             extension_size = int(np.ceil(np.log2(abs(mult_int))))
-            qf.extend(extension_size, position=qf.size - 1)
             if qf.signed:
+                qf.extend(extension_size, position=qf.size - 1)
                 cx(qf[-1], qf[-1 - extension_size : -1])
+            else:
+                qf.extend(extension_size, position=qf.size)
 
         from qrisp.alg_primitives.arithmetic.SBP_arithmetic import QFT_inpl_mult
 
@@ -1047,9 +1049,6 @@ def inpl_mult(qf, mult_int, treat_overflow=True):
 
     quantum_bit_shift(qf, bit_shift, treat_overflow)
 
-    if treat_overflow and bit_shift < 0 and qf.signed:
-        cx(qf[-1], qf[bit_shift - 1 : -1])
-
 
 def quantum_bit_shift(qf, bit_shift, treat_overflow=True):
 
@@ -1078,6 +1077,10 @@ def quantum_bit_shift(qf, bit_shift, treat_overflow=True):
 
     if qf.signed:
         cyclic_shift(qf[:-1], bit_shift)
+
+        # The vacated bits of highest significance need to hold the sign
+        if treat_overflow and bit_shift < 0:
+            cx(qf[-1], qf[bit_shift - 1 : -1])
     else:
         cyclic_shift(qf, bit_shift)
 
-- 
2.43.0


From e8c363fe8060fcc7461f02c6b829020388aee81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:31 +0000
Subject: [PATCH 33/83] fix: do not leave phases in the controlled Gidney adder

---
 .../arithmetic/adders/gidney_adder.py         | 33 ++++++++++++++++---
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py
index bcdefe7..18846eb 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py
@@ -125,6 +125,29 @@ def _apply_x_bit(target, ctrl=None):
         x(target)
 
 
+def _apply_controlled_cx(ctrl, control_qb, target):
+    """Apply a CNOT from ``control_qb`` to ``target``, controlled by ``ctrl``.
+
+    The Gidney AND gate introduces relative phases unless its target is in
+    state ``|0>``, so the AND is computed into a fresh ancilla.
+
+    Parameters
+    ----------
+    ctrl : Qubit
+        The outer control qubit.
+    control_qb : Qubit
+        The control qubit of the CNOT.
+    target : Qubit
+        The qubit to flip.
+
+    """
+    and_anc = QuantumBool(name="gidney_and_anc*")
+    mcx([ctrl, control_qb], and_anc[0], method="gidney")
+    cx(and_anc[0], target)
+    mcx([ctrl, control_qb], and_anc[0], method="gidney_inv")
+    and_anc.delete()
+
+
 def _apply_classical_carry_chain(gidney_anc, b_qbs, n, a_int, ctrl):
     """Apply carry-chain phases for classical input values.
 
@@ -267,9 +290,9 @@ def _apply_quantum_carry_chain(gidney_anc, a_qbs, b_qbs, n, c_in_qb, c_out_qb, c
     # MSB carry-out and sum.
     # The carry from position n-2 toggles b_qbs[n-1].
     if ctrl is not None:
-        mcx([ctrl, gidney_anc[n - 2]], b_qbs[n - 1], method="gidney")
+        _apply_controlled_cx(ctrl, gidney_anc[n - 2], b_qbs[n - 1])
         if c_out_qb is None:
-            mcx([ctrl, a_qbs[n - 1]], b_qbs[n - 1], method="gidney")
+            _apply_controlled_cx(ctrl, a_qbs[n - 1], b_qbs[n - 1])
     # When c_out_qb is None:  b_qbs[n-1] is b's MSB
     #   — both the carry and a_qbs[n-1] contribute (full b += a).
     # When c_out_qb is not None:  c_out_qb was appended to b_qbs,
@@ -290,7 +313,7 @@ def _apply_quantum_carry_chain(gidney_anc, a_qbs, b_qbs, n, c_in_qb, c_out_qb, c
         if ctrl is not None:
             # ctrl is already in the qubit list, so CustomControlEnvironment
             # takes the targeting_control=True path (no double-add).
-            mcx([ctrl, a_qbs[i]], b_qbs[i], method="gidney")
+            _apply_controlled_cx(ctrl, a_qbs[i], b_qbs[i])
             cx(gidney_anc[i - 1], a_qbs[i])
             cx(gidney_anc[i - 1], b_qbs[i])
         else:
@@ -484,7 +507,7 @@ def gidney_adder(
     if c_in_qb is not None:
         with control(n <= 1):
             if ctrl is not None:
-                mcx([ctrl, c_in_qb], b_qbs[0], method="gidney")
+                _apply_controlled_cx(ctrl, c_in_qb, b_qbs[0])
             else:
                 cx(c_in_qb, b_qbs[0])
 
@@ -498,7 +521,7 @@ def gidney_adder(
     # The carry chain handles positions 1 .. n-1; the least-significant
     # bit is the only remaining XOR not yet performed.
     if ctrl is not None:
-        mcx([ctrl, a_qbs[0]], b_qbs[0], method="gidney")
+        _apply_controlled_cx(ctrl, a_qbs[0], b_qbs[0])
     else:
         cx(a_qbs[0], b_qbs[0])
 
-- 
2.43.0


From 950223026d9b40ab2fb94007f3760c0eb7534be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:31 +0000
Subject: [PATCH 34/83] fix: control the carry-out of the Cuccaro adder

---
 src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
index dade943..a3710a4 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
@@ -152,7 +152,10 @@ def cuccaro_adder(
 
     # cnot
     if c_out is not None:
-        cx(a[-1], ancilla2)
+        if ctrl is None:
+            cx(a[-1], ancilla2)
+        else:
+            mcx([ctrl, a[-1]], ancilla2)
 
     if ctrl is None:
         # iterator uma gate application
-- 
2.43.0


From 3578406dc99125142da3ea24701ca3c693d01421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:31 +0000
Subject: [PATCH 35/83] fix: compute carry-out and controlled carry-in of the
 venting adder correctly

---
 .../arithmetic/adders/gidney_venting_adder.py  | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/gidney_venting_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/gidney_venting_adder.py
index f87f1c9..83d8225 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/gidney_venting_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/gidney_venting_adder.py
@@ -780,6 +780,17 @@ def gidney_cq_venting_adder(
     from qrisp.alg_primitives.arithmetic.adders.gidney_adder import gidney_adder
     from qrisp.jasp.program_control.prefix_control import q_cond
 
+    # The carry-out is the most significant bit of the sum in an extended register
+    if c_out is not None:
+        d = d & ((1 << jlen(target)) - 1)
+        target = target[:] + c_out[:]
+
+    # The carry-in must only participate if the control is active
+    if c_in is not None and ctrl is not None:
+        uncontrolled_c_in = c_in[0] if isinstance(c_in, QuantumVariable) else c_in
+        c_in = QuantumBool(name="c_in_anc*")
+        mcx([ctrl, uncontrolled_c_in], c_in[0])
+
     num_targets = jlen(target)
     n_half = (num_targets - 1) >> 1
 
@@ -807,7 +818,7 @@ def gidney_cq_venting_adder(
         measurements and is therefore deterministic under @terminal_sampling.
         The 3 clean ancillae are unused (gidney_adder allocates its own).
         """
-        gidney_adder(d, target, c_in=c_in, c_out=c_out, ctrl=ctrl)
+        gidney_adder(d, target, c_in=c_in, ctrl=ctrl)
         clean_anc.delete()
 
     def split_path(target, clean_anc):
@@ -852,7 +863,6 @@ def gidney_cq_venting_adder(
             ancilla=clean_anc[1:],
             c_in=clean0,
             ctrl=ctrl,
-            c_out=c_out,
         )
 
         # Step 5: MX measurement on clean0 (X-basis: H then Z-measurement).
@@ -904,3 +914,7 @@ def gidney_cq_venting_adder(
     #   internal q_cond creates nested tracing sessions that interfere.
     # n >= 6 → split_path  (split-half carry-venting, faithful to the paper)
     q_cond(num_targets < 6, gidney_path, split_path, target, clean_anc)
+
+    if c_in is not None and ctrl is not None:
+        mcx([ctrl, uncontrolled_c_in], c_in[0])
+        c_in.delete()
-- 
2.43.0


From 3beadbacac7095b028aed6e840ee1bbe316ecf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:05 +0000
Subject: [PATCH 36/83] fix: accept qubit lists and wide constants in the
 Cuccaro adder

---
 .../arithmetic/adders/cuccaro_adder.py        | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
index a3710a4..d9d5ecd 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
@@ -20,7 +20,7 @@ import jax.numpy as jnp
 from qrisp.circuit import Qubit
 from qrisp.core import QuantumVariable, cx, mcx, x
 from qrisp.environments import conjugate, custom_control
-from qrisp.jasp import check_for_tracing_mode, jlen, jrange
+from qrisp.jasp import DynamicQubitArray, check_for_tracing_mode, jlen, jrange
 from qrisp.misc import int_encoder
 from qrisp.qtypes import QuantumBool, QuantumFloat
 
@@ -50,7 +50,7 @@ def cuccaro_adder(
 
     Parameters
     ----------
-    a : int or QuantumVariable
+    a : int or QuantumVariable or list[Qubit]
         The value that should be added.
     b : QuantumVariable or list[Qubit]
         The value that should be modified in the in-place addition.
@@ -86,9 +86,12 @@ def cuccaro_adder(
 
     """
     # convert the classical input to a quantum input
-    if not isinstance(a, QuantumVariable):
+    if not isinstance(a, (QuantumVariable, list, DynamicQubitArray)):
         # create a QuantumFloat of the same size as the other quantum input
-        q_a = b.duplicate()
+        q_a = QuantumFloat(jlen(b))
+
+        if not check_for_tracing_mode():
+            a = a % 2 ** len(b)
 
         with conjugate(int_encoder)(q_a, a):
             cuccaro_adder(q_a, b, c_in=c_in, c_out=c_out, ctrl=ctrl)
@@ -98,13 +101,13 @@ def cuccaro_adder(
         q_a.delete()
         return
 
-    if not isinstance(b, QuantumVariable):
-        raise ValueError("The second argument must be of type QuantumVariable.")
+    if not isinstance(b, (QuantumVariable, list, DynamicQubitArray)):
+        raise ValueError("The second argument must be of type QuantumVariable or list[Qubit].")
 
     # when the inputs are of unequal length
     # pad the size of the input with the smaller size
-    dim_a = a.size
-    dim_b = b.size
+    dim_a = jlen(a)
+    dim_b = jlen(b)
 
     max_size = jnp.maximum(dim_a, dim_b)
 
-- 
2.43.0


From d00e35df445aa8d09858d2ce7b3e66c0d12f362c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:05 +0000
Subject: [PATCH 37/83] fix: keep the Montgomery shift in products of a
 QuantumModulus with a constant

---
 src/qrisp/qtypes/quantum_modulus.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/qtypes/quantum_modulus.py b/src/qrisp/qtypes/quantum_modulus.py
index e057abc..ae38003 100644
--- a/src/qrisp/qtypes/quantum_modulus.py
+++ b/src/qrisp/qtypes/quantum_modulus.py
@@ -121,6 +121,10 @@ def comparison_wrapper(func):
 
             if _moduli_neq(self.modulus, other.modulus):
                 raise ValueError("Tried to compare QuantumModulus instances of differing modulus")
+
+            # The Montgomery representation preserves equality but not the order.
+            if self.m != 0 and func.__name__ not in ("__eq__", "__ne__"):
+                raise ValueError("Tried to evaluate QuantumModulus order comparison with non-zero Montgomery shift")
         elif not check_for_tracing_mode() and self.m != 0:
             # Comparing against a non-QuantumModulus (e.g. QuantumFloat)
             # requires standard representation (m == 0).
@@ -407,12 +411,19 @@ class QuantumModulus(QuantumFloat):
                 cq_montgomery_multiply,
             )
 
+            if not isinstance(other, BigInteger) and not isinstance(self.modulus, BigInteger):
+                other = other % self.modulus
+
             shift = best_montgomery_shift(other, self.modulus)
             if isinstance(self.modulus, BigInteger):
                 if not isinstance(other, BigInteger):
                     other = _coerce_bigint_operand(other, self.modulus)
-                return cq_montgomery_multiply(other.get_larger(), self, self.modulus.get_larger(), shift)
-            return cq_montgomery_multiply(other, self, self.modulus, shift)
+                res = cq_montgomery_multiply(other.get_larger(), self, self.modulus.get_larger(), shift)
+            else:
+                res = cq_montgomery_multiply(other, self, self.modulus, shift)
+            # The factor acts on the encoded value, therefore the product carries the same Montgomery shift
+            res.m = self.m
+            return res
         else:
             raise TypeError(f"Quantum modular multiplication with type {type(other)} not implemented")
 
@@ -436,6 +447,9 @@ class QuantumModulus(QuantumFloat):
             if isinstance(other, np.integer):
                 other = int(other)
 
+            if not isinstance(other, BigInteger) and not isinstance(self.modulus, BigInteger):
+                other = other % self.modulus
+
             shift = best_montgomery_shift(other, self.modulus)
             if isinstance(self.modulus, BigInteger):
                 if not isinstance(other, BigInteger):
-- 
2.43.0


From 25a913ef20f5db0789d4248f0e80fe7f3c68beb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:43 +0000
Subject: [PATCH 38/83] fix: Correct long division and bit size of BigInteger

---
 .../arithmetic/jasp_arithmetic/jasp_bigintiger.py    | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
index feefe67..61dc9eb 100644
--- a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
+++ b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
@@ -909,7 +909,7 @@ class BigInteger:
             ms = lax.while_loop(cond_fun, body_fun, n - 1)
             limb = self.digits[ms]
             # bit length of a 32-bit limb
-            limb_bits = jnp.floor(jnp.log2(jnp.float64(limb))).astype(jnp.int64) + 1
+            limb_bits = jnp.int64(32) - _clz32(limb)
             return jnp.int64(32) * jnp.int64(ms) + limb_bits
 
         return lax.cond(is_zero, lambda: jnp.int64(0), nonzero_len)
@@ -1223,18 +1223,22 @@ def _remainder_division_knuth(u: jnp.ndarray, v: jnp.ndarray) -> tuple[jnp.ndarr
                         qhat = jnp.minimum(num // den, jnp.uint64(0xFFFFFFFF))
                         rhat = num - qhat * den
 
-                        # Refinement (at most twice)
+                        # Refinement (at most twice). As soon as rhat exceeds a single
+                        # limb the estimate can not be too large anymore.
                         vm2 = jnp.uint64(v_norm[m - 2])
                         u0 = jnp.uint64(u_norm[ujm - 2])
 
                         cond1 = jnp.logical_and(
-                            qhat == jnp.uint64(0xFFFFFFFF),
+                            rhat < BASE64,
                             qhat * vm2 > (rhat << jnp.uint64(32)) + u0,
                         )
                         qhat = jnp.where(cond1, qhat - jnp.uint64(1), qhat)
                         rhat = jnp.where(cond1, rhat + den, rhat)
 
-                        cond2 = qhat * vm2 > (rhat << jnp.uint64(32)) + u0
+                        cond2 = jnp.logical_and(
+                            rhat < BASE64,
+                            qhat * vm2 > (rhat << jnp.uint64(32)) + u0,
+                        )
                         qhat = jnp.where(cond2, qhat - jnp.uint64(1), qhat)
                         rhat = jnp.where(cond2, rhat + den, rhat)
 
-- 
2.43.0


From 4466dccf83240d8f987a6f23d1a311d3c51f5ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:43 +0000
Subject: [PATCH 39/83] fix: Correct fermionic term sorting and complex
 coefficients

---
 .../operators/fermionic/fermionic_operator.py |  6 ++++--
 .../operators/fermionic/fermionic_term.py     | 19 ++++++++++++-------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/qrisp/operators/fermionic/fermionic_operator.py b/src/qrisp/operators/fermionic/fermionic_operator.py
index ec15357..08ec2da 100644
--- a/src/qrisp/operators/fermionic/fermionic_operator.py
+++ b/src/qrisp/operators/fermionic/fermionic_operator.py
@@ -148,6 +148,7 @@ class FermionicOperator(Hamiltonian):
                 if daggered_sorted_term in new_terms_dict:
                     sorted_term = daggered_sorted_term
                     flip_sign = daggered_flip_sign
+                    coeff = np.conj(coeff)
 
             # Compute the new coefficient.
             new_terms_dict[sorted_term] = flip_sign * coeff + new_terms_dict.get(sorted_term, 0)
@@ -450,7 +451,7 @@ class FermionicOperator(Hamiltonian):
         if not isinstance(other, FermionicOperator):
             raise TypeError("Cannot add FermionicOperator and " + str(type(other)))
 
-        for ladder_term, coeff in other.terms_dict.items():
+        for ladder_term, coeff in list(other.terms_dict.items()):
             self.terms_dict[ladder_term] = self.terms_dict.get(ladder_term, 0) + coeff
             if abs(self.terms_dict[ladder_term]) < threshold:
                 del self.terms_dict[ladder_term]
@@ -472,7 +473,7 @@ class FermionicOperator(Hamiltonian):
         if not isinstance(other, FermionicOperator):
             raise TypeError("Cannot add FermionicOperator and " + str(type(other)))
 
-        for ladder_term, coeff in other.terms_dict.items():
+        for ladder_term, coeff in list(other.terms_dict.items()):
             self.terms_dict[ladder_term] = self.terms_dict.get(ladder_term, 0) - coeff
             if abs(self.terms_dict[ladder_term]) < threshold:
                 del self.terms_dict[ladder_term]
@@ -500,6 +501,7 @@ class FermionicOperator(Hamiltonian):
                 res_terms_dict[curr_ladder_term] = res_terms_dict.get(curr_ladder_term, 0) + coeff1 * coeff2
 
         self.terms_dict = res_terms_dict
+        return self
 
     #
     # Miscellaneous
diff --git a/src/qrisp/operators/fermionic/fermionic_term.py b/src/qrisp/operators/fermionic/fermionic_term.py
index dcc0b1d..9e7a113 100644
--- a/src/qrisp/operators/fermionic/fermionic_term.py
+++ b/src/qrisp/operators/fermionic/fermionic_term.py
@@ -122,16 +122,21 @@ class FermionicTerm:
         ladder_list = [self.ladder_list[i] for i in perm]
         flip_sign = permutation_signature(perm)
 
-        for i in range(len(ladder_list) - 1):
-            if ladder_list[i][0] == ladder_list[i + 1][0]:
-                if ladder_list[i][1] == ladder_list[i + 1][1]:
-                    flip_sign = 0
-                    break
-                if i > 1 and ladder_list[i][0] == ladder_list[i - 1][0]:
+        reduced_list = []
+        for ladder in ladder_list:
+            if len(reduced_list) and reduced_list[-1][0] == ladder[0]:
+                # a*a = c*c = 0
+                if reduced_list[-1][1] == ladder[1]:
                     flip_sign = 0
+                    reduced_list = ladder_list
                     break
+                # a*c*a = a, c*a*c = c
+                if len(reduced_list) > 1 and reduced_list[-2][0] == ladder[0]:
+                    reduced_list.pop()
+                    continue
+            reduced_list.append(ladder)
 
-        return FermionicTerm(ladder_list), flip_sign
+        return FermionicTerm(reduced_list), flip_sign
 
     def fermionic_swap(self, permutation):
 
-- 
2.43.0


From 37e7fe503055c3f45561cb6afaed874b915beb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:43 +0000
Subject: [PATCH 40/83] fix: Let fermionic trotterization handle complex and
 constant terms

---
 .../operators/fermionic/trotterization.py     | 29 +++++++++++++++++--
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/operators/fermionic/trotterization.py b/src/qrisp/operators/fermionic/trotterization.py
index e50f3e9..3ec5157 100644
--- a/src/qrisp/operators/fermionic/trotterization.py
+++ b/src/qrisp/operators/fermionic/trotterization.py
@@ -15,7 +15,9 @@
 ********************************************************************************
 """
 
-from qrisp import IterationEnvironment, conjugate, merge
+import numpy as np
+
+from qrisp import IterationEnvironment, conjugate, merge, p
 from qrisp.jasp import check_for_tracing_mode, jrange
 from qrisp.operators.hamiltonian_tools import group_up_iterable
 
@@ -38,7 +40,7 @@ def fermionic_trotterization(H, forward_evolution=True):
 
     def trotter_step(qarg, t, steps):
 
-        n = H.find_minimal_qubit_amount()
+        n = max(1, H.find_minimal_qubit_amount())
         qarg = [qarg[i] for i in range(n)]
 
         for group in groups:
@@ -109,11 +111,32 @@ def fermionic_trotterization(H, forward_evolution=True):
                             if factor == "Z":
                                 raise Exception("Fermionic matching failed: Z Operator found")
 
+                    coeff = coeff * qubit_operator.terms_dict[qubit_term]
+
+                    # The phase of a complex coefficient is absorbed by rotating
+                    # one of the ladder operators around the Z axis.
+                    phase = 0
+                    if isinstance(coeff, (complex, np.complexfloating)):
+                        ladders = [i for i, factor in qubit_term.factor_dict.items() if factor in ["A", "C"]]
+                        if coeff.imag != 0 and len(ladders) != 0:
+                            phase = np.angle(coeff)
+                            if qubit_term.factor_dict[ladders[0]] == "C":
+                                phase = -phase
+                            coeff = np.abs(coeff)
+                        else:
+                            coeff = coeff.real
+
+                    if phase != 0:
+                        p(phase, new_qarg[ladders[0]])
+
                     qubit_term.simulate(
-                        -coeff * t / steps * qubit_operator.terms_dict[qubit_term] * (-1) ** int(forward_evolution),
+                        -coeff * t / steps * (-1) ** int(forward_evolution),
                         new_qarg,
                     )
 
+                    if phase != 0:
+                        p(-phase, new_qarg[ladders[0]])
+
     def U(qarg, t=1, steps=1, iter=1):
         if check_for_tracing_mode():
             for i in jrange(iter * steps):
-- 
2.43.0


From 6987fe11ab26365401e3dd4340157389f2d2e619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:43 +0000
Subject: [PATCH 41/83] fix: Separate projector and Pauli terms when
 diagonalising commuting groups

---
 src/qrisp/operators/qubit/jasp_measurement.py |  5 +--
 src/qrisp/operators/qubit/measurement.py      |  2 +-
 src/qrisp/operators/qubit/qubit_operator.py   | 35 ++++++++++++++-----
 src/qrisp/operators/qubit/qubit_term.py       | 12 +++++++
 4 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/src/qrisp/operators/qubit/jasp_measurement.py b/src/qrisp/operators/qubit/jasp_measurement.py
index c9a71bd..df77b93 100644
--- a/src/qrisp/operators/qubit/jasp_measurement.py
+++ b/src/qrisp/operators/qubit/jasp_measurement.py
@@ -72,7 +72,7 @@ def get_jasp_measurement(
             groups.extend(group.group_up(lambda a, b: a.ladders_agree(b) or not a.ladders_intersect(b)))
 
     elif diagonalisation_method == "commuting":
-        temp_groups = hamiltonian.group_up(lambda a, b: a.commute_pauli(b))
+        temp_groups = hamiltonian.group_up(lambda a, b: a.commute_pauli(b) and a.pauli_qubits_disjoint(b))
         groups = []
         # In order for the change of basis function (below) to work properly,
         # the ladder terms either need to completely agree or completely disagree
@@ -105,7 +105,8 @@ def get_jasp_measurement(
             group.change_of_basis(qv, method=diagonalisation_method)
             return qv
 
-        shots = int(shots_list[index] / precision**2)
+        # Constant groups have no variance but still require a sample
+        shots = max(1, int(shots_list[index] / precision**2))
         res = sample(new_state_prep, shots=shots)(state_args)
 
         samples.append(jnp.int64(res))
diff --git a/src/qrisp/operators/qubit/measurement.py b/src/qrisp/operators/qubit/measurement.py
index 98fc7b6..b1edde9 100644
--- a/src/qrisp/operators/qubit/measurement.py
+++ b/src/qrisp/operators/qubit/measurement.py
@@ -158,7 +158,7 @@ class QubitOperatorMeasurement:
                 self.groups.extend(group.group_up(lambda a, b: a.ladders_agree(b) or not a.ladders_intersect(b)))
 
         elif diagonalisation_method == "commuting":
-            temp_groups = hamiltonian.group_up(lambda a, b: a.commute_pauli(b))
+            temp_groups = hamiltonian.group_up(lambda a, b: a.commute_pauli(b) and a.pauli_qubits_disjoint(b))
             self.groups = []
             # In order for the change of basis function (below) to work properly,
             # the ladder terms either need to completely agree or completely disagree
diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index c2c34cf..0f4986f 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -391,7 +391,7 @@ class QubitOperator(Hamiltonian):
         if not isinstance(other, QubitOperator):
             raise TypeError("Cannot add QubitOperator and " + str(type(other)))
 
-        for term, coeff in other.terms_dict.items():
+        for term, coeff in list(other.terms_dict.items()):
             self.terms_dict[term] = self.terms_dict.get(term, 0) + coeff
             if abs(self.terms_dict[term]) < threshold:
                 del self.terms_dict[term]
@@ -412,7 +412,7 @@ class QubitOperator(Hamiltonian):
         if not isinstance(other, QubitOperator):
             raise TypeError("Cannot add QubitOperator and " + str(type(other)))
 
-        for term, coeff in other.terms_dict.items():
+        for term, coeff in list(other.terms_dict.items()):
             self.terms_dict[term] = self.terms_dict.get(term, 0) - coeff
             if abs(self.terms_dict[term]) < threshold:
                 del self.terms_dict[term]
@@ -707,7 +707,7 @@ class QubitOperator(Hamiltonian):
                 factor_amount = max(participating_indices) + 1
             else:
                 res = 1
-                M = sp.csr_matrix((1, 1))
+                M = sp.csr_matrix((1, 1), dtype=complex)
                 for coeff in coeffs:
                     res *= coeff
                 if coeffs:
@@ -780,7 +780,7 @@ class QubitOperator(Hamiltonian):
         res = 0
         for term, coeff in self.terms_dict.items():
             res += coeff * term.to_pauli()
-        if isinstance(res, (float, int)):
+        if isinstance(res, (float, int, complex)):
             return QubitOperator({QubitTerm({}): res})
         return res
 
@@ -889,11 +889,22 @@ class QubitOperator(Hamiltonian):
                 continue
 
             if term.adjoint() in new_terms_dict:
-                new_terms_dict[term.adjoint()] += coeff
+                new_terms_dict[term.adjoint()] += np.conjugate(coeff)
             else:
                 new_terms_dict[term] = coeff
 
-        return QubitOperator(new_terms_dict).apply_threshold(0)
+        # The remaining ladder terms represent real multiples of (L + h.c.)/2.
+        # The imaginary part of a coefficient c contributes Im(c)*(i*L + h.c.)/2,
+        # which is expressed in terms of Pauli operators instead.
+        imag_part = QubitOperator({})
+        for term, coeff in list(new_terms_dict.items()):
+            if not isinstance(coeff, (complex, np.complexfloating)) or coeff.imag == 0:
+                continue
+            if any(factor in ["A", "C"] for factor in term.factor_dict.values()):
+                new_terms_dict[term] = coeff.real
+                imag_part += QubitOperator({term: 1j * coeff.imag}).hermitize().to_pauli()
+
+        return (QubitOperator(new_terms_dict) + imag_part).apply_threshold(0)
 
     def ground_state_energy(self):
         """Calculates the ground state energy (i.e., the minimum eigenvalue) of the operator classically.
@@ -915,6 +926,9 @@ class QubitOperator(Hamiltonian):
 
         M = self.hermitize().to_sparse_matrix()
         # Compute the smallest eigenvalue
+        if M.shape[0] <= 2:
+            # The sparse solver requires at least two qubits
+            return np.linalg.eigvalsh(M.toarray())[0]
         eigenvalues, _ = eigsh(M, k=1, which="SA")  # 'SA' stands for smallest algebraic
         E = eigenvalues[0]
 
@@ -1116,6 +1130,9 @@ class QubitOperator(Hamiltonian):
         if not check_for_tracing_mode() and len(qarg) < n:
             raise Exception("Tried to change the basis of an Operator on a quantum argument with insufficient qubits.")
 
+        if len(self.terms_dict) == 0:
+            return QubitOperator({})
+
         # This dictionary will contain the new terms/coefficient comination for the
         # diagonal operator
         new_terms_dict = {}
@@ -1821,9 +1838,9 @@ class QubitOperator(Hamiltonian):
 
             def trotter_step(qarg, t, steps):
                 for com_group in commuting_groups:
-                    qw_groups = com_group.group_up(lambda a, b: a.ladders_agree(b))
+                    qw_groups = com_group.group_up(lambda a, b: a.ladders_agree(b) and a.pauli_qubits_disjoint(b))
                     for qw_group in qw_groups:
-                        with conjugate(com_group.change_of_basis)(qarg, method="commuting") as diagonal_operator:
+                        with conjugate(qw_group.change_of_basis)(qarg, method="commuting") as diagonal_operator:
                             intersect_groups = diagonal_operator.group_up(lambda a, b: not a.intersect(b))
                             for intersect_group in intersect_groups:
                                 for term, coeff in intersect_group.terms_dict.items():
@@ -2015,7 +2032,7 @@ class QubitOperator(Hamiltonian):
         # within a (dynamic) loop where j is sampled at random.
         O = self.hermitize().eliminate_ladder_conjugates()
         terms = list(O.terms_dict.keys())
-        coeffs = np.array(list(O.terms_dict.values()))
+        coeffs = np.real(np.array(list(O.terms_dict.values())))
         signs = (-1) ** int(not forward_evolution) * jnp.sign(coeffs)
 
         # List of functions performing forward evolution e^{-itH_j}.
diff --git a/src/qrisp/operators/qubit/qubit_term.py b/src/qrisp/operators/qubit/qubit_term.py
index 32e1571..82e0e35 100644
--- a/src/qrisp/operators/qubit/qubit_term.py
+++ b/src/qrisp/operators/qubit/qubit_term.py
@@ -718,6 +718,18 @@ class QubitTerm:
         """Checks if two QubitTerms operate on the same qubit."""
         return len(set(self.factor_dict.keys()).intersection(other.factor_dict.keys())) != 0
 
+    def pauli_qubits_disjoint(self, other):
+        """Checks that no qubit is acted on by a Pauli factor of one QubitTerm and by a
+        ladder or projector factor of the other one.
+
+        Only terms with this property can be diagonalized together by a change of basis
+        that mixes the Pauli factors of several qubits.
+        """
+        for key in set(self.factor_dict.keys()).intersection(other.factor_dict.keys()):
+            if (self.factor_dict[key] in ["X", "Y", "Z"]) != (other.factor_dict[key] in ["X", "Y", "Z"]):
+                return False
+        return True
+
     def ladders_agree(self, other):
         """Checks if the ladder operators of two QubitTerms operate on the same set of qubits.
 
-- 
2.43.0


From 04535baaad3ae0bc3729e0af1f1a1b8b1b9449fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:43 +0000
Subject: [PATCH 42/83] fix: Execute the only branch of q_switch directly

---
 src/qrisp/jasp/program_control/prefix_control.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/jasp/program_control/prefix_control.py b/src/qrisp/jasp/program_control/prefix_control.py
index a4b15db..7b8dafe 100644
--- a/src/qrisp/jasp/program_control/prefix_control.py
+++ b/src/qrisp/jasp/program_control/prefix_control.py
@@ -423,6 +423,10 @@ def _q_switch_c(index, branches, *operands):
     if not check_for_tracing_mode():
         return branches[index](*operands)
 
+    # Jax does not create a switch equation for a single branch
+    if len(branches) == 1:
+        return branches[0](*operands)
+
     def convert_branch(branch):
 
         def new_branch(*operands):
-- 
2.43.0


From 1ffcc1c42362aac5e7ffed7f04d7525a517c5127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:46:58 +0000
Subject: [PATCH 43/83] fix: Add up sampled counts that are post-processed to
 the same value

---
 .../interpreters/terminal_sampling_interpreter.py    | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/terminal_sampling_interpreter.py b/src/qrisp/jasp/interpreter_tools/interpreters/terminal_sampling_interpreter.py
index 517f742..affbf7d 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/terminal_sampling_interpreter.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/terminal_sampling_interpreter.py
@@ -283,7 +283,9 @@ def terminal_sampling_evaluator(sampling_res_type):
                                 sampling_res += outvalues * v
                             elif sampling_res_type == "array":
                                 # sampling_res.extend(v*[outvalues[0]])
-                                sampling_res_dict[outvalues.item()] = v
+                                # Distinct measurement results can be decoded to the same value
+                                key = outvalues.item()
+                                sampling_res_dict[key] = sampling_res_dict.get(key, 0) + v
                                 # sampling_res.extend(v*[key])
                             elif sampling_res_type == "dict":
                                 key = outvalues
@@ -294,14 +296,15 @@ def terminal_sampling_evaluator(sampling_res_type):
                                         v = int(v.item())
                                     else:
                                         raise
-                                sampling_res[key.item()] = v
+                                sampling_res[key.item()] = sampling_res.get(key.item(), 0) + v
 
                         # If the user given function returned more than one
                         # value, the key is a tuple to be build up
                         elif sampling_res_type == "ev":
                             sampling_res += jnp.array(outvalues) * v
                         elif sampling_res_type == "array":
-                            sampling_res_dict[tuple(np.array(outvalues))] = v
+                            key = tuple(np.array(outvalues))
+                            sampling_res_dict[key] = sampling_res_dict.get(key, 0) + v
                         elif sampling_res_type == "dict":
                             if type(v) not in [int, float]:
                                 if v.dtype in [np.float64, np.float32]:
@@ -310,7 +313,8 @@ def terminal_sampling_evaluator(sampling_res_type):
                                     v = int(v.item())
                                 else:
                                     raise
-                            sampling_res[tuple(x.item() for x in outvalues)] = v
+                            key = tuple(x.item() for x in outvalues)
+                            sampling_res[key] = sampling_res.get(key, 0) + v
 
                     if sampling_res_type == "array":
                         keys = np.array(list(sampling_res_dict.keys()))
-- 
2.43.0


From c6552c114d54372b7c2c63b1aae54c3114a5d2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:15:56 +0000
Subject: [PATCH 44/83] fix: Correct phases and parity traversal of Gray
 synthesis

---
 .../logic_synthesis/gray_synthesis.py         | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
index 5835e76..930eceb 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
@@ -232,12 +232,14 @@ def single_qb_traversal(locations, bit_amount):
     # Solve Hamming TSP to get traversal sequence
     tr_seq = hamming_tsp(locations, bit_amount)
 
-    # Make sure 0 appears last
+    # Make sure 0 appears last and first
+    # Since each step of the sequence is implemented by a single CNOT gate, consecutive
+    # entries may only differ by one bit
     if tr_seq[-1] != 0:
-        tr_seq = tr_seq + [0]
+        tr_seq = tr_seq + hamming_movement(tr_seq[-1], 0, bit_amount)
 
     if tr_seq[0] != 0:
-        tr_seq = [0] + tr_seq
+        tr_seq = [0] + hamming_movement(0, tr_seq[0], bit_amount) + tr_seq[1:]
 
     # Turn into binaries
     tr_seq_bin = [int_as_array(x, bit_amount) for x in tr_seq]
@@ -409,6 +411,11 @@ class GraySynthGate(Operation):
 
         definition = gray_synth_qc(target_phases, phase_tolerant)
 
+        # Gray synthesis only determines the phases relative to the first one
+        if not phase_tolerant and target_phases[0] != 0:
+            definition = definition.copy()
+            definition.gphase(target_phases[0], definition.qubits[0])
+
         Operation.__init__(
             self,
             num_qubits=len(definition.qubits),
@@ -574,7 +581,12 @@ def gray_logic_synth(input_var, output_var, tt, phase_tolerant=False, lin_solve=
     input_var_dupl.qs.data = []
 
     if not phase_tolerant:
-        gray_phase_synth(input_var_dupl, residual_phases)
+        # The phase tolerant synthesis doesn't induce a phase on the first state
+        residual_phases -= residual_phases[0]
+
+        # The i-th entry belongs to the state where the input variable holds the integer i,
+        # ie. the most significant qubit comes first
+        gray_phase_synth_qb_list(input_var_dupl.qs, input_var_dupl.reg[::-1], residual_phases)
 
     qc.data.extend(input_var_dupl.qs.data)
 
-- 
2.43.0


From d2927c26754f1aff199f9e7521d1e2fa78ced0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:15:56 +0000
Subject: [PATCH 45/83] fix: Let PPRM synthesis act on every input qubit

---
 src/qrisp/alg_primitives/logic_synthesis/pprm_synthesis.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/pprm_synthesis.py b/src/qrisp/alg_primitives/logic_synthesis/pprm_synthesis.py
index 15b28ea..05befd2 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/pprm_synthesis.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/pprm_synthesis.py
@@ -78,5 +78,10 @@ def pprm_synth(input_var, output_var, tt, qb_nr, phase_tolerant=False):
 
 @gate_wrap(is_qfree=True, permeability=[0])
 def pprm(input_var, output_var, tt, phase_tolerant=False):
+    # Make sure the resulting gate acts on every input qubit, even
+    # if the truth table doesn't depend on some of them
+    for qb in input_var.reg:
+        input_var.qs.id(qb)
+
     for column in range(tt.shape[1]):
         pprm_synth(input_var, output_var, tt, column, phase_tolerant)
-- 
2.43.0


From af423410b58afe5d3f024a78c34fd038cbdbf2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:15:56 +0000
Subject: [PATCH 46/83] fix: Support tuples as labels of a single
 QuantumDictionary key

---
 src/qrisp/core/quantum_dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/core/quantum_dictionary.py b/src/qrisp/core/quantum_dictionary.py
index de153ae..c618c2d 100644
--- a/src/qrisp/core/quantum_dictionary.py
+++ b/src/qrisp/core/quantum_dictionary.py
@@ -237,7 +237,7 @@ class QuantumDictionary(dict):
             for i in range(len(quantum_key)):
                 qv = quantum_key[i]
 
-                if isinstance(k, tuple):
+                if len(quantum_key) > 1:
                     bin_string += bin_rep(qv.encoder(k[i]), qv.size)[::-1]
                 else:
                     bin_string += bin_rep(qv.encoder(k), qv.size)[::-1]
-- 
2.43.0


From fd85919a13717adc985736f76cfb0c6e4833410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:07 +0000
Subject: [PATCH 47/83] fix: Support q_cond branches without any effect

---
 src/qrisp/jasp/program_control/prefix_control.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/jasp/program_control/prefix_control.py b/src/qrisp/jasp/program_control/prefix_control.py
index 7b8dafe..7b5195e 100644
--- a/src/qrisp/jasp/program_control/prefix_control.py
+++ b/src/qrisp/jasp/program_control/prefix_control.py
@@ -341,9 +341,9 @@ def q_cond(pred, true_fun, false_fun, *operands):
 
     from qrisp.jasp import Jaspr
 
-    if (not isinstance(false_jaxpr.jaxpr.outvars[-1].aval, AbstractQuantumState)) and (
-        not isinstance(true_jaxpr.jaxpr.outvars[-1].aval, AbstractQuantumState)
-    ):
+    # If no branch modifies the quantum state, Jax removes it from the outputs
+    last_outvars = false_jaxpr.jaxpr.outvars[-1:] + true_jaxpr.jaxpr.outvars[-1:]
+    if not any(isinstance(outvar.aval, AbstractQuantumState) for outvar in last_outvars):
         eqn.invars.pop(-1)
         false_jaxpr.jaxpr.invars.pop(-1)
         true_jaxpr.jaxpr.invars.pop(-1)
-- 
2.43.0


From a70b924d332495478c41b7f20f77b2e0c0698987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:07 +0000
Subject: [PATCH 48/83] fix: Apply the inverse gate in sx_dg

---
 src/qrisp/core/gate_application_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index a101f9b..098737b 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -1036,7 +1036,7 @@ def sx_dg(qubits):
         The Qubit to perform the daggered SX gate on.
 
     """
-    append_operation(std_ops.SXDGGate().inverse(), [qubits])
+    append_operation(std_ops.SXDGGate(), [qubits])
     return qubits
 
 
-- 
2.43.0


From 3e8c6f9d5c06b97d8d15df9a5e0b6e9bec8caf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:07 +0000
Subject: [PATCH 49/83] fix: Decode all outcomes of multi_measurement results

---
 src/qrisp/interface/measurement_result.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/interface/measurement_result.py b/src/qrisp/interface/measurement_result.py
index 10e81c3..a3dac28 100644
--- a/src/qrisp/interface/measurement_result.py
+++ b/src/qrisp/interface/measurement_result.py
@@ -406,6 +406,8 @@ class MultiMeasurementResult(LazyDict):
 
         new_counts: dict = {}
         for bitstring, count in raw_counts.items():
+            # Some backends separate the classical registers by spaces.
+            bitstring = bitstring.replace(" ", "")
             labels = []
             offset = 0
             for j, cl_reg in enumerate(regs):
@@ -429,7 +431,7 @@ class MultiMeasurementResult(LazyDict):
 
             outcome = tuple(labels)
             try:
-                new_counts[outcome] = count / total
+                new_counts[outcome] = new_counts.get(outcome, 0) + count / total
             except TypeError as exc:
                 raise TypeError(
                     "Tried to create measurement outcome dic for QuantumVariable with unhashable labels"
-- 
2.43.0


From bac70de1a552bf40db09524facbe376ada1cb6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:07 +0000
Subject: [PATCH 50/83] fix: Return the result of Qiskit jobs after polling
 their status

---
 .../provider_backends/qiskit_backend.py       | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/qrisp/interface/provider_backends/qiskit_backend.py b/src/qrisp/interface/provider_backends/qiskit_backend.py
index b751f18..f224cfd 100644
--- a/src/qrisp/interface/provider_backends/qiskit_backend.py
+++ b/src/qrisp/interface/provider_backends/qiskit_backend.py
@@ -25,7 +25,7 @@ import warnings
 from collections.abc import Mapping
 from typing import cast
 
-from qiskit import QuantumCircuit, transpile
+from qiskit import ClassicalRegister, QuantumCircuit, transpile
 from qiskit.primitives import BackendSamplerV2
 from qiskit.providers import Backend as QiskitBackendBase
 from qiskit.providers import BackendV2
@@ -137,9 +137,11 @@ class QiskitJob(Job):
             If *timeout* expires before the job completes.
 
         """
+        if self._cached_result is not None:
+            return self._cached_result
+
         if self._last_known_status in JOB_FINAL_STATES:
             self._raise_for_status(self._last_known_status)
-            return cast(JobResult, self._cached_result)
 
         try:
             # Only pass timeout when explicitly requested: local backends such
@@ -378,19 +380,16 @@ class QiskitBackend(Backend):
         self._check_circuit_limit(circuits)
 
         # Convert each Qrisp circuit to a Qiskit QuantumCircuit, then rebuild
-        # with integer-indexed qubits and transpile for the target backend.
+        # with a single classical register and transpile for the target backend.
         qiskit_circuits = []
         for circuit in circuits:
             qc = circuit.to_qiskit()
 
-            # Rebuild with plain integer indices to avoid register-name mismatches.
-            new_qc = QuantumCircuit(len(qc.qubits), len(qc.clbits))
+            # Rebuild with a single classical register to avoid register-name mismatches.
+            # The bits are kept such that conditions on them stay valid.
+            new_qc = QuantumCircuit(qc.qubits, ClassicalRegister(name="c", bits=qc.clbits))
             for instr in qc:
-                new_qc.append(
-                    instr.operation,
-                    [qc.qubits.index(qb) for qb in instr.qubits],
-                    [qc.clbits.index(cb) for cb in instr.clbits],
-                )
+                new_qc.append(instr)
 
             qiskit_circuits.append(transpile(new_qc, backend=self.backend))
 
-- 
2.43.0


From 0802fe2b70b0068b442f40775787efc4d28be3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:07 +0000
Subject: [PATCH 51/83] fix: Include condition bits in converted Qiskit
 conditionals

---
 src/qrisp/interface/converter/qiskit_converter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/interface/converter/qiskit_converter.py b/src/qrisp/interface/converter/qiskit_converter.py
index d408eb6..168d4eb 100644
--- a/src/qrisp/interface/converter/qiskit_converter.py
+++ b/src/qrisp/interface/converter/qiskit_converter.py
@@ -112,14 +112,16 @@ def convert_to_qiskit(qc, transpile=False, is_definition=False):
                 else:
                     base_qiskit_ins = create_qiskit_instruction(op.base_op, params)
                     body_qc.append(base_qiskit_ins, qubit_list)
+                # Qiskit only respects the order of measurements and conditions,
+                # if the condition bits are part of the body.
+                body_qc.add_bits(clbit_list)
                 # Conditions on several classical bits are expressed by nesting
                 for clbit, value in list(zip(clbit_list, op.ctrl_state))[:0:-1]:
                     outer_qc = QuantumCircuit(*qregs)
-                    outer_qc.add_bits(clbit_list[1:])
-                    outer_qc.append(IfElseOp((clbit, int(value)), true_body=body_qc), qubit_list, list(body_qc.clbits))
+                    outer_qc.add_bits(clbit_list)
+                    outer_qc.append(IfElseOp((clbit, int(value)), true_body=body_qc), qubit_list, clbit_list)
                     body_qc = outer_qc
                 qiskit_ins = IfElseOp((clbit_list[0], int(op.ctrl_state[0])), true_body=body_qc)
-                clbit_list = list(body_qc.clbits)
             except ImportError:
                 base_qiskit_ins = create_qiskit_instruction(op.base_op, params)
                 cl_reg = ClassicalRegister(op.num_clbits)
-- 
2.43.0


From db017d1cf68359e4483d267bac5642cfc990a02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:07 +0000
Subject: [PATCH 52/83] fix: Convert classical control on zero and empty
 parities to Stim

---
 src/qrisp/interface/converter/stim_converter.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/interface/converter/stim_converter.py b/src/qrisp/interface/converter/stim_converter.py
index ae6d3fb..3f0d25d 100644
--- a/src/qrisp/interface/converter/stim_converter.py
+++ b/src/qrisp/interface/converter/stim_converter.py
@@ -290,9 +290,8 @@ def qrisp_to_stim(
                 # Populate observable_map - key is ParityHandle (hashable by clbits and expectation)
                 observable_map[parity_handle] = new_stim_idx
 
-                # Emit instruction if there are targets
-                if stim_targets:
-                    stim_circuit.append("OBSERVABLE_INCLUDE", stim_targets, [new_stim_idx])
+                # Also emit the instruction if there are no targets to keep the indices aligned
+                stim_circuit.append("OBSERVABLE_INCLUDE", stim_targets, [new_stim_idx])
 
             else:
                 # --- Detector Mode ---
@@ -303,9 +302,8 @@ def qrisp_to_stim(
                 # Populate detector_map - key is ParityHandle (hashable by clbits and expectation)
                 detector_map[parity_handle] = detector_counter
 
-                # Emit DETECTOR
-                if stim_targets:
-                    stim_circuit.append("DETECTOR", stim_targets, op.params)
+                # Also emit DETECTOR if there are no targets to keep the indices aligned
+                stim_circuit.append("DETECTOR", stim_targets, op.params)
 
                 detector_counter += 1
 
@@ -361,6 +359,10 @@ def qrisp_to_stim(
             # Apply the conditional gate for each target qubit
             for q_idx in qubit_indices:
                 stim_circuit.append(stim_gate, [rec_target, q_idx])
+                # Stim feedback acts if the record is 1. If the gate is conditioned on 0,
+                # applying it once more unconditionally flips the condition.
+                if op.ctrl_state == "0":
+                    stim_circuit.append(op.base_op.name.upper(), [q_idx])
 
         # Unknown gate
         else:
-- 
2.43.0


From ee6145df949dd65b92e003163965276d0be4e90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:07 +0000
Subject: [PATCH 53/83] fix: Report correct records and expectations in
 find_detectors

---
 src/qrisp/misc/stim_tools/find_detectors.py | 86 ++++++++++++++-------
 1 file changed, 57 insertions(+), 29 deletions(-)

diff --git a/src/qrisp/misc/stim_tools/find_detectors.py b/src/qrisp/misc/stim_tools/find_detectors.py
index d547704..54f867b 100644
--- a/src/qrisp/misc/stim_tools/find_detectors.py
+++ b/src/qrisp/misc/stim_tools/find_detectors.py
@@ -64,9 +64,37 @@ _TWO_QUBIT_OPS = frozenset({"CX", "CY", "CZ", "XCZ", "YCZ", "SWAP", "ISWAP"})
 # ───────────────────── internal helpers ────────────────────────────────
 
 
-def _tvals(inst):
-    """Return plain target-value list for a stim instruction."""
-    return [t.value for t in inst.targets_copy()]
+def _rename_late_resets(stim_circ):
+    """Rename qubits that are reset after having been acted on in the same round.
+
+    Resets are moved to the beginning of their round in :func:`_prepare_for_tqecd`.
+    This is only possible if no gate of this round acted on the qubit before. A
+    reset that follows such a gate discards the previous state of the qubit, which
+    is therefore equivalent to continuing with a fresh qubit.
+
+    Returns a list of ``(name, targets, gate_args)`` tuples.
+    """
+    insts = [inst for inst in stim_circ.flattened() if inst.name != "TICK"]
+    current = {
+        t.value: t.value for inst in insts for t in inst.targets_copy() if not t.is_measurement_record_target
+    }
+    fresh = max(current, default=-1) + 1
+    touched, measuring, res = set(), False, []
+    for inst in insts:
+        vals = [t.value for t in inst.targets_copy()]
+        if measuring and inst.name not in _MEASUREMENT_OPS:
+            touched = set()
+        measuring = inst.name in _MEASUREMENT_OPS
+        if inst.name in _RESET_OPS:
+            for v in vals:
+                if v in touched:
+                    current[v] = fresh
+                    touched.remove(v)
+                    fresh += 1
+        elif not measuring:
+            touched.update(vals)
+        res.append((inst.name, [current.get(v, v) for v in vals], inst.gate_args_copy()))
+    return res
 
 
 def _build_analysis_args(jaspr, n_qubits, quantum_arrays):
@@ -115,22 +143,21 @@ def _prepare_for_tqecd(stim_circ):
     The first fragment receives implicit ``R`` (Z-basis reset) for every qubit
     that was not explicitly reset by the user's circuit.
     """
+    insts = _rename_late_resets(stim_circ)
+
     # Collect all qubit indices
-    all_qubits = {
-        t.value for i in stim_circ.flattened() for t in i.targets_copy() if not t.is_measurement_record_target
-    }
+    all_qubits = {t for _, targets, _ in insts for t in targets if t >= 0}
 
     # Split instructions into rounds.
     # A round boundary occurs when we've accumulated measurements and the
     # next instruction is no longer a measurement.
     rounds, cur = [], {"R": [], "G": [], "M": []}
-    for inst in stim_circ.flattened():
-        if inst.name == "TICK":
-            continue
-        if cur["M"] and inst.name not in _MEASUREMENT_OPS:
+    for inst in insts:
+        name = inst[0]
+        if cur["M"] and name not in _MEASUREMENT_OPS:
             rounds.append(cur)
             cur = {"R": [], "G": [], "M": []}
-        key = "R" if inst.name in _RESET_OPS else "M" if inst.name in _MEASUREMENT_OPS else "G"
+        key = "R" if name in _RESET_OPS else "M" if name in _MEASUREMENT_OPS else "G"
         cur[key].append(inst)
     if cur["M"]:
         rounds.append(cur)
@@ -141,44 +168,45 @@ def _prepare_for_tqecd(stim_circ):
 
     for ri, rnd in enumerate(rounds):
         # First round: implicit R for un-reset qubits (tqecd requires it)
-        reset_qbs = {t.value for i in rnd["R"] for t in i.targets_copy()}
+        reset_qbs = {t for _, targets, _ in rnd["R"] for t in targets}
         if ri == 0 and (unreset := sorted(all_qubits - reset_qbs)):
             out.append("R", unreset)
         for i in rnd["R"]:
-            out.append(i.name, _tvals(i), i.gate_args_copy())
+            out.append(*i)
         out.append("TICK")
 
         # Gate moments — two-qubit gates each get their own moment
 
-        for i in rnd["G"]:
-            tgts, ga = i.targets_copy(), i.gate_args_copy()
-            if i.name in _TWO_QUBIT_OPS:
+        for name, tgts, ga in rnd["G"]:
+            if name in _TWO_QUBIT_OPS:
                 for j in range(0, len(tgts), 2):
-                    out.append(i.name, [tgts[j].value, tgts[j + 1].value], ga)
+                    out.append(name, [tgts[j], tgts[j + 1]], ga)
                     out.append("TICK")
             else:
-                out.append(i.name, _tvals(i), ga)
+                out.append(name, tgts, ga)
                 out.append("TICK")
 
         # Measurements
         for i in rnd["M"]:
-            out.append(i.name, _tvals(i), i.gate_args_copy())
+            out.append(*i)
         if ri < len(rounds) - 1:
             out.append("TICK")
     return out
 
 
-def _extract_detectors(annotated_circ, total_meas, inv_meas_map):
+def _extract_detectors(annotated_circ, inv_meas_map):
     """Extract detector definitions from an annotated stim circuit.
 
     Returns a list of lists of :class:`~qrisp.circuit.Clbit`, one list per
     ``DETECTOR`` instruction.
     """
-    return [
-        [inv_meas_map[total_meas + t.value] for t in inst.targets_copy() if t.is_measurement_record_target]
-        for inst in annotated_circ.flattened()
-        if inst.name == "DETECTOR"
-    ]
+    # Record targets are relative to the position of the DETECTOR instruction
+    n_meas, dets = 0, []
+    for inst in annotated_circ.flattened():
+        if inst.name == "DETECTOR":
+            dets.append([inv_meas_map[n_meas + t.value] for t in inst.targets_copy() if t.is_measurement_record_target])
+        n_meas += inst.num_measurements
+    return dets
 
 
 # ───────────────────── public API ──────────────────────────────────────
@@ -617,15 +645,15 @@ def find_detectors(func=None, *, return_circuits=False):
             annotated = tqecd.annotate_detectors_automatically(tqecd_circ)
 
             # Extract detector Clbit sets
-            all_dets = _extract_detectors(annotated, tqecd_circ.num_measurements, inv_map)
+            all_dets = _extract_detectors(annotated, inv_map)
 
             # Keep only detectors whose Clbits all appear in returned measurements
             returned = set(analysis_clbits)
             relevant = [(i, d) for i, d in enumerate(all_dets) if all(cb in returned for cb in d)]
 
-            # --- 2b. Simulate noiseless circuit to determine detector expectations ---
-            # Use stim's built-in method to remove all noise processes
-            expectations = annotated.without_noise().compile_detector_sampler().sample(shots=1)[0].tolist()
+            # --- 2b. Determine the noiseless parities of the detectors ---
+            # (the detector sampler of stim only reports deviations from these)
+            expectations = annotated.reference_detector_and_observable_signs()[0].tolist()
 
             # --- 3. Call real function & map analysis Clbits to traced booleans ---
             real_returns = fn(*args, **kwargs)
-- 
2.43.0


From f6052ae2a1c752863f2bc289f284905c5ae3a61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:07 +0000
Subject: [PATCH 54/83] fix: Keep the number of detector coordinates in
 permute_detectors

---
 src/qrisp/misc/stim_tools/detector_permutation.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/qrisp/misc/stim_tools/detector_permutation.py b/src/qrisp/misc/stim_tools/detector_permutation.py
index 47db6a3..1f19ecf 100644
--- a/src/qrisp/misc/stim_tools/detector_permutation.py
+++ b/src/qrisp/misc/stim_tools/detector_permutation.py
@@ -121,16 +121,12 @@ def permute_detectors(circuit: stim.Circuit, permutation) -> stim.Circuit:
 
             old_args = np.array(instr.gate_args_copy())
 
-            # Ensure size matches for subtraction
-            max_len = max(len(old_args), len(accum_shift))
+            # Stim only shifts the coordinates that the detector specifies
+            p_accum = np.zeros(len(old_args))
+            n_shift = min(len(old_args), len(accum_shift))
+            p_accum[:n_shift] = accum_shift[:n_shift]
 
-            p_old = np.zeros(max_len)
-            p_old[: len(old_args)] = old_args
-
-            p_accum = np.zeros(max_len)
-            p_accum[: len(accum_shift)] = accum_shift
-
-            new_args = p_old - p_accum
+            new_args = old_args - p_accum
 
             new_args_list = list(new_args)
 
-- 
2.43.0


From 1c24762113aed9da637c7e248990db36ef791fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:07 +0000
Subject: [PATCH 55/83] fix: Return typed detector handles for scalar detectors
 in return order

---
 src/qrisp/jasp/evaluation_tools/stim_extraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/jasp/evaluation_tools/stim_extraction.py b/src/qrisp/jasp/evaluation_tools/stim_extraction.py
index 2fcf39c..9d6e750 100644
--- a/src/qrisp/jasp/evaluation_tools/stim_extraction.py
+++ b/src/qrisp/jasp/evaluation_tools/stim_extraction.py
@@ -585,7 +585,7 @@ def extract_stim(func=None, *, detector_order="chronological"):
                             if isinstance(val, np.ndarray) and type(val) == StimDetectorHandles:
                                 # Map old indices to new indices
                                 old_indices = val.view(np.ndarray)
-                                new_indices = inverse_perm[old_indices]
+                                new_indices = np.asarray(inverse_perm[old_indices])
                                 new_result[i] = new_indices.reshape(val.shape).view(StimDetectorHandles)
 
                 # Reconstruct the original PyTree structure from the flat results
-- 
2.43.0


From 5166042cd737c354b5b15dd87355b48187249e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:32:12 +0000
Subject: [PATCH 56/83] fix: Combine detectors that share unreturned
 measurements

---
 src/qrisp/misc/stim_tools/find_detectors.py | 36 +++++++++++++++++----
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/qrisp/misc/stim_tools/find_detectors.py b/src/qrisp/misc/stim_tools/find_detectors.py
index 54f867b..a739c66 100644
--- a/src/qrisp/misc/stim_tools/find_detectors.py
+++ b/src/qrisp/misc/stim_tools/find_detectors.py
@@ -209,6 +209,28 @@ def _extract_detectors(annotated_circ, inv_meas_map):
     return dets
 
 
+def _eliminate_clbits(detectors, returned):
+    """Remove all clbits that are not in *returned* from a list of detectors.
+
+    *detectors* is a list of ``(clbits, expectation)`` tuples. If several
+    detectors share a clbit that is not returned, one of them is multiplied into
+    the others (which cancels the clbit) and discarded.
+    """
+    detectors = list(detectors)
+    for cb in dict.fromkeys(cb for clbits, _ in detectors for cb in clbits if cb not in returned):
+        # Use the detector with the fewest clbits as pivot
+        affected = sorted((i for i, det in enumerate(detectors) if cb in det[0]), key=lambda i: len(detectors[i][0]))
+        if not affected:
+            continue
+        pivot_clbits, pivot_expectation = detectors[affected[0]]
+        for i in affected[1:]:
+            clbits, expectation = detectors[i]
+            product = [c for c in clbits if c not in pivot_clbits] + [c for c in pivot_clbits if c not in clbits]
+            detectors[i] = (product, expectation ^ pivot_expectation)
+        detectors.pop(affected[0])
+    return [det for det in detectors if det[0]]
+
+
 # ───────────────────── public API ──────────────────────────────────────
 
 
@@ -269,7 +291,8 @@ def find_detectors(func=None, *, return_circuits=False):
     **Detectors referencing non-returned measurements are discarded**
         If a detector involves a measurement whose result is *not* part of
         the decorated function's return value, the detector is silently
-        dropped.  Make sure all relevant measurements are returned.
+        dropped, unless the measurement cancels in a product with another
+        detector.  Make sure all relevant measurements are returned.
 
         For example, if you measure both syndrome qubits but only return
         one measurement, detectors involving the unreturned measurement
@@ -647,14 +670,13 @@ def find_detectors(func=None, *, return_circuits=False):
             # Extract detector Clbit sets
             all_dets = _extract_detectors(annotated, inv_map)
 
-            # Keep only detectors whose Clbits all appear in returned measurements
-            returned = set(analysis_clbits)
-            relevant = [(i, d) for i, d in enumerate(all_dets) if all(cb in returned for cb in d)]
-
             # --- 2b. Determine the noiseless parities of the detectors ---
             # (the detector sampler of stim only reports deviations from these)
             expectations = annotated.reference_detector_and_observable_signs()[0].tolist()
 
+            # Keep only detectors whose Clbits all appear in returned measurements
+            relevant = _eliminate_clbits(list(zip(all_dets, expectations)), set(analysis_clbits))
+
             # --- 3. Call real function & map analysis Clbits to traced booleans ---
             real_returns = fn(*args, **kwargs)
             if not isinstance(real_returns, tuple):
@@ -666,9 +688,9 @@ def find_detectors(func=None, *, return_circuits=False):
             det_results = [
                 parity(
                     *[cb_to_traced[cb] for cb in det],
-                    expectation=int(expectations[idx]),
+                    expectation=int(expectation),
                 )
-                for idx, det in relevant
+                for det, expectation in relevant
             ]
 
             out = (det_results,) + real_returns
-- 
2.43.0


From baeb38c3bb4a7d71f06d6e9942e79714992b2a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:44:23 +0000
Subject: [PATCH 57/83] fix: Use the matching gate in the change of basis for
 Pauli Y

---
 src/qrisp/operators/qubit/qubit_operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 0f4986f..0b9c1e4 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -21,7 +21,7 @@ import jax.numpy as jnp
 import numpy as np
 import sympy as sp
 
-from qrisp import IterationEnvironment, conjugate, cx, cz, h, invert, merge, s, sx_dg
+from qrisp import IterationEnvironment, conjugate, cx, cz, h, invert, merge, s, sx
 from qrisp.jasp import check_for_tracing_mode, jrange
 from qrisp.operators.hamiltonian import Hamiltonian
 from qrisp.operators.hamiltonian_tools import group_up_iterable
@@ -1186,7 +1186,7 @@ class QubitOperator(Hamiltonian):
                             h(qarg[j])
 
                         if factor_dict[j] == "Y":
-                            sx_dg(qarg[j])
+                            sx(qarg[j])
 
                     new_factor_dict[j] = "Z"
 
-- 
2.43.0


From 958f58cc2e75eaa699ce61a4cb6aacae9b881ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:44:23 +0000
Subject: [PATCH 58/83] fix: Correct infeasible cost and mixer of MinSetCover

---
 .../algorithms/qaoa/problems/minSetCover.py      | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/algorithms/qaoa/problems/minSetCover.py b/src/qrisp/algorithms/qaoa/problems/minSetCover.py
index e7d7b13..51a64e2 100644
--- a/src/qrisp/algorithms/qaoa/problems/minSetCover.py
+++ b/src/qrisp/algorithms/qaoa/problems/minSetCover.py
@@ -45,11 +45,15 @@ def create_min_set_cover_mixer(sets, universe):
         x(anc)
         for anc_index, element in enumerate(sets[i]):
             other_sets = [item for item in membership_dict[element] if item != i]
-            mcx(
-                [qv[set_index] for set_index in other_sets],
-                anc[anc_index],
-                ctrl_state="0" * len(other_sets),
-            )
+            if len(other_sets) == 0:
+                # No other set covers this element, so the set can never be swapped out.
+                x(anc[anc_index])
+            else:
+                mcx(
+                    [qv[set_index] for set_index in other_sets],
+                    anc[anc_index],
+                    ctrl_state="0" * len(other_sets),
+                )
         qbl = QuantumBool()
         mcx(anc, qbl)
         return qbl
@@ -84,7 +88,7 @@ def create_min_set_cover_cl_cost_function(sets, universe):
             if len(solution_sets) > 0 and set.union(*solution_sets) == universe:
                 cost += len(indices) * prob
             else:
-                cost += len(sets)
+                cost += len(sets) * prob
 
         return cost
 
-- 
2.43.0


From 1a8c5732f53f60a5007beca9b8c3ac3007972400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:44:23 +0000
Subject: [PATCH 59/83] fix: Use both nodes in the pair rule of QIRO
 MaxIndepSet

---
 src/qrisp/algorithms/qiro/qiroproblems/qiroMaxIndepSet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxIndepSet.py b/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxIndepSet.py
index f1c808d..5f345f0 100644
--- a/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxIndepSet.py
+++ b/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxIndepSet.py
@@ -61,7 +61,7 @@ def create_max_indep_replacement_routine(res, problem_updated):
         return graph, solutions, 0, exclusions
 
     # create a copy of the graph
-    new_graph = copy.copy(graph)
+    new_graph = copy.deepcopy(graph)
 
     # we remove nodes from the graph, as suggested by the replacement rules
     # if the item is an int, it is a single node, else it is an edge
@@ -86,7 +86,7 @@ def create_max_indep_replacement_routine(res, problem_updated):
 
     elif sign < 0:
         # remove all nodes connected to both nodes
-        intersect = list(set(list(graph.adj[max_item[0]].keys())) & set(list(graph.adj[max_item[0]].keys())))
+        intersect = list(set(list(graph.adj[max_item[0]].keys())) & set(list(graph.adj[max_item[1]].keys())))
         new_graph.remove_nodes_from(intersect)
         exclusions += intersect
 
-- 
2.43.0


From d795d2ee7bff3872fe39c941f501557291d40a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:44:23 +0000
Subject: [PATCH 60/83] fix: Use both nodes in the pair rule of QIRO MaxClique

---
 src/qrisp/algorithms/qiro/qiroproblems/qiroMaxClique.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxClique.py b/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxClique.py
index e793cea..79e0917 100644
--- a/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxClique.py
+++ b/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxClique.py
@@ -80,13 +80,12 @@ def create_max_clique_replacement_routine(res, problem_updated):
     elif sign > 0:
         # keep the two items in solution and remove all that are not adjacent to both
 
-        intersect = list(set(list(graph.adj[max_item[0]].keys())) & set(list(graph.adj[max_item[0]].keys())))
+        intersect = list(set(list(graph.adj[max_item[0]].keys())) & set(list(graph.adj[max_item[1]].keys())))
         intersect.append(max_item[0])
         intersect.append(max_item[1])
         to_remove = [int(item) for item in graph.nodes() if item not in intersect]
         new_graph.remove_nodes_from([item for item in graph.nodes() if item not in intersect])
-        solutions.append(max_item[0])
-        solutions.append(max_item[1])
+        solutions += [item for item in max_item if item not in solutions]
         exclusions += to_remove
 
     elif sign < 0:
-- 
2.43.0


From 292bbc3222ef2ba7289c725162de4e6cdffc9a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:44:23 +0000
Subject: [PATCH 61/83] fix: Index and rewrite clauses consistently in QIRO
 MaxSat

---
 .../qiro/qiroproblems/qiroMaxSat.py           | 84 +++++++------------
 1 file changed, 32 insertions(+), 52 deletions(-)

diff --git a/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxSat.py b/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxSat.py
index 140e924..fb45a0e 100644
--- a/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxSat.py
+++ b/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxSat.py
@@ -56,8 +56,8 @@ def create_maxsat_replacement_routine(res, problem_updated):
     clauses = copy.deepcopy(problem[1])
 
     # FOR SINGLE QUBIT CORRELATIONS
-    # make -1 here for consistency in the find max
-    orig_nodes = [i - 1 for i in list(range(1, numVars + 1)) if i not in exclusions]
+    # solutions and exclusions hold qubit indices, i.e. variable i of the problem is found at index i - 1
+    orig_nodes = [i for i in range(numVars) if i not in exclusions]
     combinations_list = list(combinations(orig_nodes, 2))
 
     max_item, sign = find_max(orig_nodes, combinations_list, res, solutions)
@@ -66,60 +66,40 @@ def create_maxsat_replacement_routine(res, problem_updated):
 
     # we just directly remove clauses from the problem, or literals from the clause.
     if isinstance(max_item, int):
-        max_item += 1
+        # the literal which is TRUE according to the correlation
+        literal = max_item + 1 if sign < 0 else -(max_item + 1)
 
+        new_clauses = []
         for sgl_clause in clauses:
-            if sign < 0:
-                # clause evaluates to TRUE, can empty the clause
-                if max_item in sgl_clause:
-                    sgl_clause.clear()
-                # clause evaluates to FALSE, can remove the literal
-                # if its last literal remaining in the clause, we just remove the clause
-                elif -1 * max_item in sgl_clause:
-                    if len(sgl_clause) == 1:
-                        clauses.remove(sgl_clause)
-                    else:
-                        val = -1 * max_item
-                        sgl_clause.remove(val)
-                solutions.append(max_item)
-                exclusions.append(max_item)
-
-            # same as above
-            elif sign > 0:
-                if -1 * max_item in sgl_clause:
-                    sgl_clause.clear()
-                elif max_item in sgl_clause:
-                    if len(sgl_clause) == 1:
-                        clauses.remove(sgl_clause)
-                    else:
-                        val = max_item
-                        sgl_clause.remove(val)
-                exclusions.append(max_item)
+            # clause evaluates to TRUE, can empty the clause
+            if literal in sgl_clause or len(sgl_clause) == 0:
+                new_clauses.append([])
+                continue
+            # the negated literal evaluates to FALSE, can remove it
+            # if no literal remains in the clause, we just remove the clause
+            remaining = [item for item in sgl_clause if item != -literal]
+            if len(remaining) > 0:
+                new_clauses.append(remaining)
+        clauses = new_clauses
+
+        if sign < 0:
+            solutions.append(max_item)
+        exclusions.append(max_item)
 
     else:
-        max_item = [max_item[0] + 1, max_item[1] + 1]
-
-        if sign > 0:
-            for sgl_clause in clauses:
-                # replace with pos. correlated number if its in an item
-                if max_item[1] in sgl_clause:
-                    temp = sgl_clause.index(max_item[1])
-                    sgl_clause[temp] = max_item[0]
-                if -1 * max_item[1] in sgl_clause:
-                    temp = sgl_clause.index(-1 * max_item[1])
-                    sgl_clause[temp] = -1 * max_item[0]
-                exclusions.append(max_item[1])
-
-        elif sign < 0:
-            for sgl_clause in clauses:
-                # replace with neg. correlated number if its in an item
-                if max_item[1] in sgl_clause:
-                    temp = sgl_clause.index(max_item[1])
-                    sgl_clause[temp] = -1 * max_item[0]
-                if -1 * max_item[1] in sgl_clause:
-                    temp = sgl_clause.index(-1 * max_item[1])
-                    sgl_clause[temp] = max_item[0]
-                exclusions.append(max_item[1])
+        # replace the second variable with the (negated) first one if its in an item
+        kept, replaced = max_item[0] + 1, max_item[1] + 1
+        if sign < 0:
+            kept = -kept
+
+        for sgl_clause in clauses:
+            for i, item in enumerate(sgl_clause):
+                if item == replaced:
+                    sgl_clause[i] = kept
+                elif item == -replaced:
+                    sgl_clause[i] = -kept
+
+        exclusions.append(max_item[1])
 
     # create sign list somewhere?
     return [numVars, clauses], solutions, sign, exclusions
-- 
2.43.0


From aa1400699b0fb3f3242e8524d2badb86998f297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:44:23 +0000
Subject: [PATCH 62/83] fix: Count the diagonal of QUBO matrices once in COLD

---
 src/qrisp/algorithms/cold/dcqo_problem.py  | 4 ++--
 src/qrisp/algorithms/cold/problems/QUBO.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/algorithms/cold/dcqo_problem.py b/src/qrisp/algorithms/cold/dcqo_problem.py
index 629c22b..bcf73ff 100644
--- a/src/qrisp/algorithms/cold/dcqo_problem.py
+++ b/src/qrisp/algorithms/cold/dcqo_problem.py
@@ -77,7 +77,7 @@ class DCQOProblem:
         N = Q.shape[0]
 
         # Define QUBO problem hamiltonian
-        h = -0.5 * np.diag(Q) - 0.5 * np.sum(Q, axis=1)
+        h = -0.5 * np.sum(Q, axis=1)
         J = 0.5 * Q
 
         H_init = 1 * sum([X(i) for i in range(N)])
@@ -151,7 +151,7 @@ class DCQOProblem:
         # Qubo characteristics
         self.Q = Q
         self.J = 0.5 * Q
-        self.h = -0.5 * np.diag(Q) - 0.5 * np.sum(Q, axis=1)
+        self.h = -0.5 * np.sum(Q, axis=1)
 
         # Placeholder for the _precompute_timegrid function
         self.lam = None
diff --git a/src/qrisp/algorithms/cold/problems/QUBO.py b/src/qrisp/algorithms/cold/problems/QUBO.py
index 2f96745..39c8ea1 100644
--- a/src/qrisp/algorithms/cold/problems/QUBO.py
+++ b/src/qrisp/algorithms/cold/problems/QUBO.py
@@ -43,7 +43,7 @@ def create_COLD_instance(Q, uniform_AGP_coeffs):
 
     """
     N = len(Q[0])
-    h = -0.5 * np.diag(Q) - 0.5 * np.sum(Q, axis=1)
+    h = -0.5 * np.sum(Q, axis=1)
     J = 0.5 * Q
 
     def lam():
@@ -204,7 +204,7 @@ def create_LCD_instance(Q, agp_type, uniform_AGP_coeffs=True):
         return builders[(agp_type, uniform_AGP_coeffs)]
 
     N = len(Q[0])
-    h = -0.5 * np.diag(Q) - 0.5 * np.sum(Q, axis=1)
+    h = -0.5 * np.sum(Q, axis=1)
     J = 0.5 * Q
 
     def lam():
-- 
2.43.0


From aa5ba81cc8a154dbb71ed485a86902b3fa022d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:44:23 +0000
Subject: [PATCH 63/83] fix: Do not fuse allocation gates

---
 src/qrisp/circuit/pass_management/passes/fuse_adjacents.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
index 82fc213..0bb4415 100644
--- a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
+++ b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
@@ -476,6 +476,10 @@ def _fuse_operations(op_a, op_b, gphase_array):
         * ``None`` — no fusion possible.
 
     """
+    # Allocations and deallocations are not gates and have to stay visible.
+    if op_a.name[-5:] == "alloc" or op_b.name[-5:] == "alloc":
+        return None
+
     # 1. SWAP fusion with neighbouring two-qubit gates.
     result = _fuse_swap_with_neighbour(op_a, op_b)
     if result is not None:
-- 
2.43.0


From 9555612b8075bb319e6f5a727a21c9e1dc3fee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:44:23 +0000
Subject: [PATCH 64/83] fix: Handle negative and empty slices in resource
 profilers

---
 .../interpreter_tools/interpreters/count_ops_metric.py | 10 ++++++++--
 .../interpreters/num_qubits_metric.py                  | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/count_ops_metric.py b/src/qrisp/jasp/interpreter_tools/interpreters/count_ops_metric.py
index 588d885..d3cd3a1 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/count_ops_metric.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/count_ops_metric.py
@@ -144,8 +144,14 @@ class CountOpsMetric(BaseMetric):
 
         # For the slice operation, we need to make sure, we don't go out
         # of bounds.
-        start = jnp.max(jnp.array([invalues[1], 0]))
-        stop = jnp.min(jnp.array([invalues[2], invalues[0]]))
+        size, start, stop = invalues
+
+        # Negative bounds count from the end of the array
+        start += (start < 0) * size
+        stop += (stop < 0) * size
+
+        start = jnp.maximum(start, 0)
+        stop = jnp.maximum(jnp.minimum(stop, size), start)
         return stop - start
 
     def handle_quantum_gate(self, invalues, eqn, context_dic):
diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/num_qubits_metric.py b/src/qrisp/jasp/interpreter_tools/interpreters/num_qubits_metric.py
index f2a9134..e98c1ac 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/num_qubits_metric.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/num_qubits_metric.py
@@ -182,8 +182,14 @@ class NumQubitsMetric(BaseMetric):
 
     def handle_slice(self, invalues, eqn, context_dic):
 
-        start = jnp.max(jnp.array([invalues[1], 0]))
-        stop = jnp.min(jnp.array([invalues[2], invalues[0]]))
+        size, start, stop = invalues
+
+        # Negative bounds count from the end of the array
+        start += (start < 0) * size
+        stop += (stop < 0) * size
+
+        start = jnp.maximum(start, 0)
+        stop = jnp.maximum(jnp.minimum(stop, size), start)
 
         # Associate the following in context_dic:
         # QubitArray -> size
-- 
2.43.0


From 81cb57d77cb3457ad1a72b6ece0ab2c306cd07a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:44:23 +0000
Subject: [PATCH 65/83] fix: Count cy gates in cnot_depth

---
 src/qrisp/misc/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index 697ef76..52d4eb9 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -1991,7 +1991,7 @@ def cnot_depth_indicator(op):
         return op.definition.cnot_depth()
     if op.num_qubits == 1 or op.name == "barrier":
         return 0
-    elif op.name in ["cx", "cx", "cz"]:
+    elif op.name in ["cx", "cy", "cz"]:
         return 1
     else:
         raise Exception(f"Gate {op.name} not implemented")
-- 
2.43.0


From 7a515331dc0a08fa87899330b015c7efc9ba7521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:44:23 +0000
Subject: [PATCH 66/83] fix: Treat views and out-of-bounds indices of
 QuantumArrays correctly

---
 src/qrisp/core/quantum_array.py | 42 ++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/qrisp/core/quantum_array.py b/src/qrisp/core/quantum_array.py
index 81f8b94..9b17678 100644
--- a/src/qrisp/core/quantum_array.py
+++ b/src/qrisp/core/quantum_array.py
@@ -265,7 +265,11 @@ class QuantumArray:
         # Retrieve the index address
         # This can either be an integer or an array slice, depending on what
         # the type of key is
-        sliced_ind_array = self.ind_array[key]
+        if check_for_tracing_mode():
+            sliced_ind_array = self.ind_array[key]
+        else:
+            # Jax arrays silently clip out-of-bounds indices, numpy arrays raise
+            sliced_ind_array = jnp.asarray(np.asarray(self.ind_array)[key])
 
         if len(sliced_ind_array.shape):
             # If the sliced_ind_array has a non trivial shape,
@@ -288,9 +292,6 @@ class QuantumArray:
                 qv.qs = self.qs
                 return qv
             else:
-                for i in range(len(key)):
-                    if key[i] >= self.shape[i]:
-                        raise Exception(f"Index {key} out of bounds for QuantumArray with shape {self.shape}")
                 return self.qv_list[index]
 
     def __setitem__(self, key, value):
@@ -354,7 +355,7 @@ class QuantumArray:
         for i in jrange(self.size):
             flat_self[i][:] = flattened_value_array[i]
 
-    def reshape(self, *args):
+    def reshape(self, *args, order="C"):
         """Adjusts the shape of the QuantumArray with similar semantics as
         `numpy.ndarray.reshape <https://numpy.org/doc/stable/reference/generated/numpy.ndarray.reshape.html>`_.
 
@@ -412,7 +413,7 @@ class QuantumArray:
         else:
             shape = args
         res = copy.copy(self)
-        res.ind_array = self.ind_array.reshape(shape)
+        res.ind_array = self.ind_array.reshape(shape, order=order)
         return res
 
     def flatten(self):
@@ -579,10 +580,13 @@ class QuantumArray:
 
         """
         if check_for_tracing_mode():
-            self.qs.clear_qubits(self.qb_array)
+            # The array can be a view, so only the entries addressed by it are deleted
+            flattened_qa = self.flatten()
+            for i in jrange(self.size):
+                self.qs.clear_qubits(flattened_qa[i].reg)
         else:
-            for i in range(self.size):
-                self.qv_list[i].delete(verify=verify)
+            for qv in self:
+                qv.delete(verify=verify)
 
     def measure(self):
         from qrisp.core.gate_application_functions import measure
@@ -961,7 +965,14 @@ class QuantumArray:
 
         res = copy.copy(self)
 
-        ind_array_other_shifted = other.ind_array + self.size
+        # The indices refer to all the entries of the underlying array
+        # (which can be more than self.size if self is a view)
+        if check_for_tracing_mode():
+            entry_amount = self.qb_array.size // self.qtype_size
+        else:
+            entry_amount = len(self.qv_list)
+
+        ind_array_other_shifted = other.ind_array + entry_amount
 
         concat_ind_array = jnp.concatenate((self.ind_array, ind_array_other_shifted), axis=axis)
 
@@ -1023,6 +1034,7 @@ class QuantumArray:
 
         """
         res = copy.copy(self)
+        res.ind_array = jnp.arange(self.size).reshape(self.shape)
 
         if check_for_tracing_mode():
             qs = self.qs
@@ -1032,8 +1044,10 @@ class QuantumArray:
             if init:
                 from qrisp import cx
 
-                for i in jrange(self.size * self.qtype_size):
-                    cx(self.qb_array[i], res.qb_array[i])
+                self_view = self.flatten()
+                res_view = res.flatten()
+                for i in jrange(self.size):
+                    cx(self_view[i], res_view[i])
 
         else:
             if qs is None:
@@ -1042,8 +1056,8 @@ class QuantumArray:
                 res.qs = qs
 
             res.qv_list = []
-            for i in range(self.size):
-                res.qv_list.append(self.qv_list[i].duplicate(name=self.qtype.name + "*", qs=res.qs, init=init))
+            for qv in self:
+                res.qv_list.append(qv.duplicate(name=self.qtype.name + "*", qs=res.qs, init=init))
 
         return res
 
-- 
2.43.0


From 8a5d3a0568843d626ad83e52e17f31010746ff0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:44:23 +0000
Subject: [PATCH 67/83] fix: Correct shapes and sizes in quantum matrix
 multiplication

---
 .../arithmetic/matrix_multiplication.py       | 101 ++++--------------
 1 file changed, 23 insertions(+), 78 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py b/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py
index 3bba091..1fca8ce 100644
--- a/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py
+++ b/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py
@@ -23,7 +23,6 @@ from qrisp.alg_primitives.arithmetic.SBP_arithmetic import (
     polynomial_encoder,
 )
 from qrisp.core import QuantumArray
-from qrisp.core.gate_application_functions import p, z
 
 
 def q_matmul(q_array_0, q_array_1, output_array=None, res_bit_shape="eq", phase_tolerant=False):
@@ -94,7 +93,7 @@ def q_matmul(q_array_0, q_array_1, output_array=None, res_bit_shape="eq", phase_
         if isinstance(res_bit_shape, QuantumFloat):
             qtype = res_bit_shape.duplicate()
 
-        if res_bit_shape == "safe":
+        elif res_bit_shape == "safe":
             from sympy import Symbol
 
             q_array_0_symbols = []
@@ -111,7 +110,7 @@ def q_matmul(q_array_0, q_array_1, output_array=None, res_bit_shape="eq", phase_
 
             qtype = create_output_qf(list(q_array_0.flatten()) + list(q_array_1.flatten()), poly)
 
-        if res_bit_shape == "eq":
+        elif res_bit_shape == "eq":
             qtype = q_array_0[0, 0]
 
         res = QuantumArray(shape=(L, J), qtype=qtype, qs=q_array_0.qs)
@@ -140,49 +139,7 @@ def q_matmul(q_array_0, q_array_1, output_array=None, res_bit_shape="eq", phase_
                         )
                     continue
 
-                # If the res_bit_shape is safe,we can use the strategy
-                # of correcting phases on the result as displayed in hybrid mult
-                if res_bit_shape == "safe" and not phase_tolerant:
-                    if k == 0:
-                        hybrid_mult(
-                            q_array_0[i, k],
-                            q_array_1[k, j],
-                            output_qf=res[i, j],
-                            init_op="h",
-                            terminal_op=None,
-                            phase_tolerant=True,
-                        )
-
-                    elif k == K - 1:
-                        hybrid_mult(
-                            q_array_0[i, k],
-                            q_array_1[k, j],
-                            output_qf=res[i, j],
-                            init_op=None,
-                            terminal_op="qft",
-                            phase_tolerant=True,
-                        )
-
-                    elif k != q_array_0.shape[1] - 1:
-                        hybrid_mult(
-                            q_array_0[i, k],
-                            q_array_1[k, j],
-                            output_qf=res[i, j],
-                            init_op=None,
-                            terminal_op=None,
-                            phase_tolerant=True,
-                        )
-
-                        for m in range(res[i, j].size):
-                            p(
-                                -(2 * np.pi) * 2**l / 2 ** (res[i, j].size + 1),
-                                res[i, j][m],
-                            )
-
-                        if res[i, j].signed and K % 2:
-                            z(res[i, j][-1])
-
-                elif k == 0:
+                if k == 0:
                     if output_array is not None:
                         hybrid_mult(
                             q_array_0[i, k],
@@ -283,19 +240,16 @@ def semi_classic_matmul(q_matrix, cl_matrix, output_array=None, res_bit_shape="e
         if isinstance(res_bit_shape, QuantumFloat):
             qtype = res_bit_shape.duplicate()
 
-        if res_bit_shape == "safe":
-            q_array_0_symbols = []
-            poly = 0
-            for i in range(K):
-                q_array_0_symbols.append(Symbol(q_matrix[0, i].name))
-
-                poly += Symbol(q_matrix[0, i].name)
-
-            from qrisp.alg_primitives.arithmetic import create_output_qf
+        elif res_bit_shape == "safe":
+            # The entries of the result are bounded by the column sums of the classical matrix
+            qf = q_matrix[0, 0]
+            bound = max(1, np.max(np.sum(np.abs(cl_matrix), axis=0)))
+            msize = qf.msize + int(np.ceil(np.log2(bound)))
+            signed = qf.signed or bool(np.any(np.asarray(cl_matrix) < 0))
 
-            qtype = create_output_qf(list(q_matrix.flatten()), poly)
+            qtype = QuantumFloat(msize, qf.exponent, signed=signed)
 
-        if res_bit_shape == "eq":
+        elif res_bit_shape == "eq":
             qtype = q_matrix[0, 0]
 
         output_array = QuantumArray(shape=(L, J), qtype=qtype, qs=q_matrix.qs)
@@ -490,7 +444,6 @@ def inplace_matrix_app(vector, matrix):
 
         # Now determine the remaining polynomial
         eval_poly = eval_eq[i].subs({x[elim_var]: 0})
-        print(inplace_mult_coeff)
         polynomial_encoder(
             non_elim_var_list,
             vector[elim_var],
@@ -522,6 +475,8 @@ def auto_matmul_wrapper(a, b, out=None):
         return semi_classic_matmul(a, b, out)
 
     elif isinstance(b, QuantumArray):
+        if out is not None:
+            out = out.transpose()
         return semi_classic_matmul(b.transpose(), a.transpose(), out).transpose()
 
     else:
@@ -600,31 +555,21 @@ def dot(a, b, out=None):
     elif len(a.shape) == 2 and len(b.shape) == 2:
         return auto_matmul_wrapper(a, b, out)
 
-    elif len(b.shape) == 1:
-        temp_0 = a.reshape((a.size // b.shape[-1], b.shape[-1]))
-        temp_1 = b.reshape((b.shape[0], 1))
-
-        new_shape = list(b.shape)
-        new_shape[-1] = b.shape[0]
-
-        res = (auto_matmul_wrapper(temp_0, temp_1, out)).reshape(new_shape)
-
-        return res
-
     else:
-        temp_0 = a.reshape((a.size // b.shape[-1], b.shape[-1]))
-
-        temp_1 = np.swapaxes(b, 0, -2)
-        temp_1 = np.reshape(temp_1, (temp_1.shape[0], temp_1.size // temp_1.shape[0]))
+        # Contract the last axis of a with the second-to-last axis of b (or the only one, if b is a vector)
+        axis = max(len(b.shape) - 2, 0)
+        n = b.shape[axis]
+        free_axes = [i for i in range(len(b.shape)) if i != axis]
 
-        res = auto_matmul_wrapper(temp_0, temp_1, out)
+        temp_0 = a.reshape((a.size // n, n))
+        temp_1 = b.transpose([axis] + free_axes).reshape((n, b.size // n))
 
-        res_shape = list(temp_1.shape)
-        res_shape.pop(-2)
+        res_shape = (list(a.shape[:-1]) or [1]) + [b.shape[i] for i in free_axes]
 
-        res_shape = list(temp_0.shape)[:-1] + res_shape
+        if out is not None:
+            out = out.reshape((a.size // n, b.size // n))
 
-        return np.reshape(res, res_shape)
+        return auto_matmul_wrapper(temp_0, temp_1, out).reshape(res_shape)
 
 
 def tensordot(a, b, axes):
-- 
2.43.0


From b9179d40d2641e6eb3d14ccc46204ac094d81e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:44:23 +0000
Subject: [PATCH 68/83] fix: Apply exact phase correction in accumulating
 products

---
 .../alg_primitives/arithmetic/SBP_arithmetic.py    | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
index 8208307..ae622c1 100644
--- a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
+++ b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
@@ -728,6 +728,12 @@ def hybrid_mult(
     else:
         output_qf.exp_shift(-(x_exp + y_exp))
 
+    # The phases can be corrected using only single qubit gates if the output is exactly
+    # the product of x and y, ie. if nothing has been added before and it can not overflow
+    value_phase_correction = (
+        init_op == "h" and terminal_op == "qft" and output_qf.msize + output_qf.exponent >= x.msize + y.msize
+    )
+
     output_qf.extend(1, position=0)
 
     # output_qf.exp_shift(-1)
@@ -806,7 +812,7 @@ def hybrid_mult(
 
     # Negate output_qf in order to perform the conditional addition/subtraction
 
-    if not phase_tolerant and terminal_op != "qft":
+    if not phase_tolerant and not value_phase_correction:
         hybrid_mult_anc = QuantumVariable(1)
         if y.signed:
             cx(y[-1], hybrid_mult_anc[0])
@@ -823,7 +829,7 @@ def hybrid_mult(
         # because if y[i] is active output_qf has been negated
         applied_phases = U_g_inpl_adder(output_qf, x, -(2**i) * cl_factor)
 
-        if not phase_tolerant and terminal_op != "qft":
+        if not phase_tolerant and not value_phase_correction:
             if i != 0:
                 cx(y[i - 1], hybrid_mult_anc[0])
             cx(y[i], hybrid_mult_anc[0])
@@ -848,7 +854,7 @@ def hybrid_mult(
             # of y (command [6])
             cx(y[i], output_qf)  # command [5]
 
-    if not phase_tolerant and terminal_op != "qft":
+    if not phase_tolerant and not value_phase_correction:
         cx(y[i], hybrid_mult_anc[0])
         if y.signed:
             cx(y[-1], hybrid_mult_anc[0])
@@ -883,7 +889,7 @@ def hybrid_mult(
     if terminal_op == "qft":
         QFT(output_qf, inv=True, exec_swap=False)
 
-    if not phase_tolerant and terminal_op == "qft":
+    if not phase_tolerant and value_phase_correction:
         # This is a phase tolerant correction using only single qubit gates.
         # We found it by looking at the sbp of the correction using cp gates and
         # identified the sbp of x*y in it.
-- 
2.43.0


From f478cb88146128f4c41186605a177bff1f7fae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:47:17 +0000
Subject: [PATCH 69/83] fix: q_switch leaves the caller's branch list alone and
 pads with an identity of any arity

---
 src/qrisp/alg_primitives/program_control/quantum_switch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/program_control/quantum_switch.py b/src/qrisp/alg_primitives/program_control/quantum_switch.py
index 690dedf..e561603 100644
--- a/src/qrisp/alg_primitives/program_control/quantum_switch.py
+++ b/src/qrisp/alg_primitives/program_control/quantum_switch.py
@@ -341,10 +341,10 @@ def _q_switch_q(index, branches, *operands, branch_amount=None, method="auto", i
         elif isinstance(branches, list):
             if len(branches) % 2 != 0:
 
-                def identity(_):
+                def identity(*_):
                     pass
 
-                branches.append(identity)
+                branches = branches + [identity]
 
             if check_for_tracing_mode():
 
-- 
2.43.0


From e2475414ddbf39e36fc35b71a1fd75b90707536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:47:17 +0000
Subject: [PATCH 70/83] fix: traced QFT respects qiskit_endian and inplace_mult

---
 src/qrisp/alg_primitives/qft.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/alg_primitives/qft.py b/src/qrisp/alg_primitives/qft.py
index e40682d..9667bd5 100644
--- a/src/qrisp/alg_primitives/qft.py
+++ b/src/qrisp/alg_primitives/qft.py
@@ -183,7 +183,7 @@ def QFT(
     if inv:
         with invert():
             if check_for_tracing_mode():
-                jasp_qft(qv, exec_swap)
+                jasp_qft(qv, exec_swap, qiskit_endian, inplace_mult)
             else:
                 gate_wrap(permeability=[], is_qfree=False, name=name)(QFT_inner)(
                     qv,
@@ -195,7 +195,7 @@ def QFT(
                 )
 
     elif check_for_tracing_mode():
-        jasp_qft(qv, exec_swap)
+        jasp_qft(qv, exec_swap, qiskit_endian, inplace_mult)
     else:
         gate_wrap(permeability=[], is_qfree=False, name=name)(QFT_inner)(
             qv,
@@ -209,19 +209,25 @@ def QFT(
     return qv
 
 
-@qache(static_argnums=[1])
-def jasp_qft(qv, exec_swap):
+@qache(static_argnums=[1, 2, 3])
+def jasp_qft(qv, exec_swap, qiskit_endian=True, inplace_mult=1):
     """Performs qft on the first n qubits in circuit (without swaps)"""
+    if inplace_mult % 2 == 0:
+        raise Exception("Tried to perform non-invertible inplace multiplication during Fourier-Transform")
+
     if isinstance(qv, list):
         n = len(qv)
     else:
         n = qv.size
 
+    def position(i):
+        return n - 1 - i if qiskit_endian else i
+
     for i in jrange(n):
         # pass
-        h(qv[n - 1 - i])
+        h(qv[position(i)])
         for k in jrange(n - i - 1):
-            cp(2.0 * np.pi / pow(2.0, (k + 2)), qv[n - 1 - (k + i + 1)], qv[n - 1 - i])
+            cp(inplace_mult * 2.0 * np.pi / pow(2.0, (k + 2)), qv[position(k + i + 1)], qv[position(i)])
 
     if exec_swap:
         for i in jrange(n // 2):
-- 
2.43.0


From 57c1fdad166a282bc3957fa85c6c5dc87267d009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:47:17 +0000
Subject: [PATCH 71/83] fix: reflection applies its global phase once for
 QuantumArrays

---
 src/qrisp/alg_primitives/reflection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/reflection.py b/src/qrisp/alg_primitives/reflection.py
index 90adfb5..715cd46 100644
--- a/src/qrisp/alg_primitives/reflection.py
+++ b/src/qrisp/alg_primitives/reflection.py
@@ -218,4 +218,4 @@ def reflection(
     else:
         inner_reflection(qubits, phase)
 
-    gphase(np.pi, qargs[0][0])
+    gphase(np.pi, flattened_qargs[0][0])
-- 
2.43.0


From 80c7da04916f39580fa4b06c8b66e9a4ae925866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:47:17 +0000
Subject: [PATCH 72/83] fix: find_order keeps the base for the order extraction

---
 src/qrisp/algorithms/shor/shors_algorithm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/algorithms/shor/shors_algorithm.py b/src/qrisp/algorithms/shor/shors_algorithm.py
index c12adaa..929c995 100644
--- a/src/qrisp/algorithms/shor/shors_algorithm.py
+++ b/src/qrisp/algorithms/shor/shors_algorithm.py
@@ -76,10 +76,11 @@ def find_order(a, N, inpl_adder=None, mes_kwargs={}):
     qg[:] = 1
     qpe_res = QuantumFloat(2 * qg.size + 1, exponent=-(2 * qg.size + 1))
     h(qpe_res)
+    x = a
     for i in range(len(qpe_res)):
         with control(qpe_res[i]):
-            qg *= a
-            a = (a * a) % N
+            qg *= x
+            x = (x * x) % N
     QFT(qpe_res, inv=True, inpl_adder=inpl_adder)
 
     mes_res = qpe_res.get_measurement(**mes_kwargs)
-- 
2.43.0


From 8ea597b0b8f46d916be816cda62ab7719a677f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:47:17 +0000
Subject: [PATCH 73/83] fix: session search does not call user functions found
 in arguments

---
 src/qrisp/core/session_merging_tools.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/core/session_merging_tools.py b/src/qrisp/core/session_merging_tools.py
index c8bf3a2..ddd5df6 100644
--- a/src/qrisp/core/session_merging_tools.py
+++ b/src/qrisp/core/session_merging_tools.py
@@ -364,13 +364,10 @@ def recursive_qs_search(input):
         result = [input]
     elif isinstance(input, QuantumEnvironment):
         result = [input.env_qs]
+    elif isinstance(input, weakref.ref):
+        if isinstance(input(), QuantumSession):
+            result = [input()]
     else:
-        try:
-            if isinstance(input(), QuantumSession):
-                result = [input()]
-        except TypeError:
-            pass
-
         try:
             if isinstance(input.qs(), QuantumSession):
                 result = [input.qs()]
-- 
2.43.0


From 6f6fceef4a4033c726141438c99e1c7405918d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:47:17 +0000
Subject: [PATCH 74/83] fix: mcp on a single qubit applies a phase gate

---
 src/qrisp/core/gate_application_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index 098737b..a857ae4 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -807,6 +807,8 @@ def mcp(phi, qubits, method="auto", ctrl_state=-1):
         if check_for_tracing_mode():
             mcp_gate = std_ops.PGate(sympy.Symbol("alpha")).control(n - 1, ctrl_state=ctrl_state[:-1], method=method)
             append_operation(mcp_gate, qubits, param_tracers=[phi])
+        elif n == 1:
+            p(phi, qubits[0])
         else:
             mcp_gate = std_ops.PGate(phi).control(n - 1, ctrl_state=ctrl_state[:-1], method=method)
             append_operation(mcp_gate, qubits)
-- 
2.43.0


From cea8c669e467e262284223f52e0ebf67c3dba97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:10:03 +0000
Subject: [PATCH 75/83] fix: keep the normalization of a single-term LCU block
 encoding positive

---
 src/qrisp/block_encodings/constructors/from_lcu.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/block_encodings/constructors/from_lcu.py b/src/qrisp/block_encodings/constructors/from_lcu.py
index 5d630f2..16063fe 100644
--- a/src/qrisp/block_encodings/constructors/from_lcu.py
+++ b/src/qrisp/block_encodings/constructors/from_lcu.py
@@ -23,6 +23,7 @@ import numpy.typing as npt
 
 from qrisp.alg_primitives.state_preparation import prepare
 from qrisp.block_encodings.block_encoding_base import BlockEncoding
+from qrisp.core.gate_application_functions import gphase
 from qrisp.environments import conjugate, invert
 from qrisp.jasp import q_switch, qache
 from qrisp.qtypes import QuantumFloat
@@ -146,10 +147,19 @@ def build_from_lcu(
     # Block encoding of a single unitary (up to normalization)
     if m == 1:
         if np.abs(complex_coeffs[0].imag) < _TOLERANCE:
+            single_unitary = unitaries[0]
+
+            # The normalization factor is positive, the sign is part of the unitary
+            if complex_coeffs[0].real < 0:
+
+                def single_unitary(*args):
+                    unitaries[0](*args)
+                    gphase(np.pi, args[0][0])
+
             return cls(
-                complex_coeffs[0].real,
+                alpha,
                 [],
-                unitaries[0],
+                single_unitary,
                 num_ops=num_ops,
                 is_hermitian=is_hermitian,
             )
-- 
2.43.0


From 84d1b46b29a9a6c67c9221d8d40b0da5822bf6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:10:03 +0000
Subject: [PATCH 76/83] fix: gate wrapping a call without quantum arguments

---
 src/qrisp/misc/utility.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index 52d4eb9..96a0847 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -446,6 +446,9 @@ def gate_wrap_inner(function, permeability=None, is_qfree=None, name=None, verif
             qs = find_qs(args)
         except:
             qs_list = recursive_qs_search([args, kwargs])
+            # Without quantum arguments there is nothing to wrap
+            if len(qs_list) == 0:
+                return function(*args, **kwargs)
             qs = qs_list[0]
 
         initial_qubits = set(qs.qubits)
-- 
2.43.0


From 069a4f97ce44016be790ccfd8f99e2c790c0ec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:10:03 +0000
Subject: [PATCH 77/83] fix: do not mark the qubitization walk operator as
 Hermitian

---
 src/qrisp/block_encodings/block_encoding_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/block_encodings/block_encoding_base.py b/src/qrisp/block_encodings/block_encoding_base.py
index 1aafccc..2d7c87e 100644
--- a/src/qrisp/block_encodings/block_encoding_base.py
+++ b/src/qrisp/block_encodings/block_encoding_base.py
@@ -853,7 +853,7 @@ class BlockEncoding:
                 self._anc_templates,
                 new_unitary_hermitian,
                 num_ops=self.num_ops,
-                is_hermitian=True,
+                is_hermitian=False,
             )
 
         # We construct a strictly Hermitian block-encoding of A = (A + A†)/2.
@@ -890,7 +890,7 @@ class BlockEncoding:
             new_anc_templates,
             new_unitary,
             num_ops=self.num_ops,
-            is_hermitian=True,
+            is_hermitian=False,
         )
 
     def _hermitianization(self) -> BlockEncoding:
-- 
2.43.0


From d80d378c53aefb7bc4d422d06c7bc9f743ee2200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:10:03 +0000
Subject: [PATCH 78/83] fix: angle finding for complex and constant polynomials

---
 src/qrisp/algorithms/gqsp/gqsp_angles.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/algorithms/gqsp/gqsp_angles.py b/src/qrisp/algorithms/gqsp/gqsp_angles.py
index e84d912..3cddde3 100644
--- a/src/qrisp/algorithms/gqsp/gqsp_angles.py
+++ b/src/qrisp/algorithms/gqsp/gqsp_angles.py
@@ -188,8 +188,8 @@ def _inlft(a: "ArrayLike", b: "ArrayLike") -> Array:
         # Return the new carry state and the output we want to accumulate (Fk)
         return (a_star_new, b_new), Fk
 
-    # Initial state for the carry
-    initial_carry = (jnp.conjugate(a), b)
+    # Initial state for the carry: the complementary polynomial is analytic in z and takes the role of a^*
+    initial_carry = (a, b)
 
     # Execute the scan loop for the length of 'a'
     # jax.lax.scan returns the final state (which we ignore with '_') and the stacked outputs
@@ -572,6 +572,10 @@ def qsvt_angles(p: "ArrayLike", parity: Literal["even", "odd"] = "odd") -> tuple
 
     d = len(phi_qsp) - 1
 
+    # Constant polynomial
+    if d == 0:
+        return phi_qsp, alpha
+
     phi_qsvt = jnp.zeros(d + 1)
     phi_qsvt = phi_qsvt.at[0].set(phi_qsp[0] + (2 * d - 1) * np.pi / 4)
     phi_qsvt = phi_qsvt.at[1:].set(phi_qsp[1:] - np.pi / 2)
-- 
2.43.0


From eb55236caf2864a70820ee75ec6aa6f407af8f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:10:03 +0000
Subject: [PATCH 79/83] fix: QET of polynomials with vanishing highest
 coefficient

---
 src/qrisp/algorithms/gqsp/qet.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/algorithms/gqsp/qet.py b/src/qrisp/algorithms/gqsp/qet.py
index 52bb1ac..3c17230 100644
--- a/src/qrisp/algorithms/gqsp/qet.py
+++ b/src/qrisp/algorithms/gqsp/qet.py
@@ -18,6 +18,7 @@
 from typing import TYPE_CHECKING, Literal
 
 import jax.numpy as jnp
+import numpy as np
 
 from qrisp.alg_primitives.reflection import reflection
 from qrisp.algorithms.gqsp.gqsp_angles import gqsp_angles
@@ -170,6 +171,10 @@ def QET(
     angles, alpha = gqsp_angles(p)
     phi = angles[1][::-1]
 
+    # If the highest order coefficient is not of the parity of the polynomial (i.e. zero), the sequence starts one order below
+    shift = jnp.where(is_odd, d, d + 1) % 2
+    phi = phi.at[shift].add(shift * np.pi / 2)
+
     def T2(*args):
         with conjugate(H.unitary)(*args):
             reflection(args[:m])
@@ -177,11 +182,11 @@ def QET(
 
     def new_unitary(*args):
 
-        rx(-2 * phi[0], args[0])
-        for i in jrange(1, (d + 1) // 2):
+        rx(-2 * phi[shift], args[0])
+        for i in jrange(1, (d - shift + 1) // 2):
             with control(args[0], ctrl_state=0):
                 T2(*args[1:])
-            rx(-2 * phi[2 * i], args[0])
+            rx(-2 * phi[2 * i + shift], args[0])
 
         with control(is_odd):
             H.unitary(*args[1:])
-- 
2.43.0


From 4925b033499a78e61067d7bb642f866aa3022f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:10:03 +0000
Subject: [PATCH 80/83] fix: pseudo inverse of non-Hermitian block encodings

---
 src/qrisp/algorithms/gqsp/pseudo_inversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/algorithms/gqsp/pseudo_inversion.py b/src/qrisp/algorithms/gqsp/pseudo_inversion.py
index 8a8b0e8..3398b09 100644
--- a/src/qrisp/algorithms/gqsp/pseudo_inversion.py
+++ b/src/qrisp/algorithms/gqsp/pseudo_inversion.py
@@ -186,7 +186,8 @@ def pseudo_inversion(
     p = _pseudo_inversion_cheb(theta, delta, eps)
 
     # Set _rescale=False to apply p(A/α) instead of p(A).
-    A_pseudo_inv = QSVT(A, p, kind="Chebyshev", rescale=False)
+    # The pseudo inverse maps the left to the right singular vectors, hence it is a function of the Hermitian conjugate
+    A_pseudo_inv = QSVT(A.dagger(), p, kind="Chebyshev", rescale=False)
 
     # Adjust scaling factor since (A/α)^{-1} = αA^{-1}.
     A_pseudo_inv.alpha = A_pseudo_inv.alpha / A.alpha
-- 
2.43.0


From 5662d3bee3f9a6fd5f7de0d39db05d585105c476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:10:03 +0000
Subject: [PATCH 81/83] fix: Fourier series loading of a signal with a single
 frequency

---
 src/qrisp/algorithms/gqsp/fourier_series_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/algorithms/gqsp/fourier_series_loader.py b/src/qrisp/algorithms/gqsp/fourier_series_loader.py
index a3f74d4..247a4a8 100644
--- a/src/qrisp/algorithms/gqsp/fourier_series_loader.py
+++ b/src/qrisp/algorithms/gqsp/fourier_series_loader.py
@@ -191,7 +191,7 @@ def fourier_series_loader(
             scaling_factor = 1.0
 
         # Compression
-        compressed_frequencies = jnp.concatenate([frequencies[-k:], frequencies[: k + 1]])
+        compressed_frequencies = jnp.concatenate([frequencies[len(frequencies) - k :], frequencies[: k + 1]])
     else:
         raise Exception("Either signal or frequencies must be specified")
 
-- 
2.43.0


From 34ae8aa4b2992df434b28854ffcabc3d8eeb01fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:10:03 +0000
Subject: [PATCH 82/83] fix: control environments inside a conjugator under
 nested controls

---
 src/qrisp/environments/conjugation_environment.py | 6 ++++++
 src/qrisp/environments/control_environment.py     | 2 ++
 src/qrisp/environments/quantum_conditionals.py    | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/src/qrisp/environments/conjugation_environment.py b/src/qrisp/environments/conjugation_environment.py
index bf05c78..3f78cca 100644
--- a/src/qrisp/environments/conjugation_environment.py
+++ b/src/qrisp/environments/conjugation_environment.py
@@ -139,6 +139,8 @@ class ConjugationEnvironment(QuantumEnvironment):
 
         self.manual_allocation_management = allocation_management
 
+        self.applying_conjugator = False
+
         QuantumEnvironment.__init__(self)
 
     def __enter__(self):
@@ -155,11 +157,15 @@ class ConjugationEnvironment(QuantumEnvironment):
 
         qv_set_before = set(self.env_qs.qv_list)
 
+        # The conjugator is not controlled by the surrounding environments
+        self.applying_conjugator = True
         try:
             res = self.conjugation_function(*self.args, **self.kwargs)
         except Exception as e:
             QuantumEnvironment.__exit__(self, type(e), e, "")
             raise e
+        finally:
+            self.applying_conjugator = False
 
         temp_data = list(self.env_qs.data)
         self.env_qs.data = []
diff --git a/src/qrisp/environments/control_environment.py b/src/qrisp/environments/control_environment.py
index 8b315b8..7d1770d 100644
--- a/src/qrisp/environments/control_environment.py
+++ b/src/qrisp/environments/control_environment.py
@@ -146,6 +146,8 @@ class ControlEnvironment(QuantumEnvironment):
             if isinstance(env, (ControlEnvironment, ConditionEnvironment)):
                 self.parent_cond_env = env
                 break
+            if isinstance(env, ConjugationEnvironment) and env.applying_conjugator:
+                break
             if not isinstance(env, (InversionEnvironment, ConjugationEnvironment)):
                 if not type(env) == QuantumEnvironment:
                     break
diff --git a/src/qrisp/environments/quantum_conditionals.py b/src/qrisp/environments/quantum_conditionals.py
index bc11368..281911e 100644
--- a/src/qrisp/environments/quantum_conditionals.py
+++ b/src/qrisp/environments/quantum_conditionals.py
@@ -357,6 +357,8 @@ class ConditionEnvironment(QuantumEnvironment):
             if isinstance(env, (ConditionEnvironment, ControlEnvironment)):
                 self.parent_cond_env = env
                 break
+            if isinstance(env, ConjugationEnvironment) and env.applying_conjugator:
+                break
             if not isinstance(env, (InversionEnvironment, ConjugationEnvironment)):
                 if not type(env) == QuantumEnvironment:
                     break
-- 
2.43.0


From 39630e79dc36ff97e7416bc86e97fcde7d0da999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:10:03 +0000
Subject: [PATCH 83/83] fix: invariant state of backtracking subtrees

---
 .../quantum_backtracking/backtracking_tree.py          | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/qrisp/algorithms/quantum_backtracking/backtracking_tree.py b/src/qrisp/algorithms/quantum_backtracking/backtracking_tree.py
index a313e2f..74f63b6 100644
--- a/src/qrisp/algorithms/quantum_backtracking/backtracking_tree.py
+++ b/src/qrisp/algorithms/quantum_backtracking/backtracking_tree.py
@@ -1737,17 +1737,13 @@ class Subtree(QuantumBacktrackingTree):
 
         rev_branch_qa = self.branch_qa[::-1]
 
-        with self.h == self.max_depth:
-            for k in range(len(self.root_path)):
-                rev_branch_qa[k][:] = self.root_path[k]
+        for k in range(len(self.root_path)):
+            rev_branch_qa[k][:] = self.root_path[k]
 
         for i in range(1, len(path) + 1):
             with self.h == self.max_depth - i:
                 for j in range(i):
-                    rev_branch_qa[j].encode(path[j], permit_dirtyness=True)
-
-                for k in range(len(self.root_path)):
-                    rev_branch_qa[k + i][:] = self.root_path[k]
+                    rev_branch_qa[len(self.root_path) + j].encode(path[j], permit_dirtyness=True)
 
     def subtree(self, path):
         return self.original_tree.subtree(path)
-- 
2.43.0

