From 0a92767d4a0c076b198a713fb0dda3f6e33fd4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:58 +0000
Subject: [PATCH 001/130] fix: apply a reset that is followed by measurements
 or control uses of the qubit

The simulator dropped a reset when every later operation on the qubit was
permeable. Such operations (measurements, control knobs) still read the
value of the qubit, so x; reset; measure reported 1.
---
 src/qrisp/simulator/circuit_preprocessing.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/qrisp/simulator/circuit_preprocessing.py b/src/qrisp/simulator/circuit_preprocessing.py
index ea9f8a2..9c54dea 100644
--- a/src/qrisp/simulator/circuit_preprocessing.py
+++ b/src/qrisp/simulator/circuit_preprocessing.py
@@ -783,8 +783,7 @@ def insert_multiverse_measurements(qc):
 
             for j in range(len(data)):
                 if meas_qubit in data[j].qubits:
-                    if not is_permeable(data[j].op, [data[j].qubits.index(meas_qubit)]):
-                        break
+                    break
             else:
                 continue
 
-- 
2.43.0


From 6d4d148ed1459c0a9324309589a9bf976a60b8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:58 +0000
Subject: [PATCH 002/130] fix: do not move a reset in front of operations that
 use the measured qubit

When a measured qubit served as a control before being reset, the simulator
merged the reset into the measurement, so the control read 0.
---
 src/qrisp/simulator/circuit_preprocessing.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/simulator/circuit_preprocessing.py b/src/qrisp/simulator/circuit_preprocessing.py
index 9c54dea..f1bed09 100644
--- a/src/qrisp/simulator/circuit_preprocessing.py
+++ b/src/qrisp/simulator/circuit_preprocessing.py
@@ -744,13 +744,18 @@ def insert_multiverse_measurements(qc):
             meas_clbit = instr.clbits[0]
 
             next_instr_is_reset = False
+            qubit_is_used = False
             for j in range(len(data)):
                 if meas_qubit in data[j].qubits:
                     if data[j].op.name == "reset":
-                        next_instr_is_reset = True
-                        data.pop(j)
+                        # The reset may only be merged into the measurement
+                        # if nothing in between uses the qubit.
+                        if not qubit_is_used:
+                            next_instr_is_reset = True
+                            data.pop(j)
                         break
-                    elif not is_permeable(data[j].op, [data[j].qubits.index(meas_qubit)]):
+                    qubit_is_used = True
+                    if not is_permeable(data[j].op, [data[j].qubits.index(meas_qubit)]):
                         break
                 if meas_clbit in data[j].clbits and not isinstance(data[j], ClControlledOperation):
                     break
-- 
2.43.0


From 79b66fb53429617e4d01e776a0370777062f1b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:58 +0000
Subject: [PATCH 003/130] fix: let a repeated measurement overwrite its
 classical bit

Measuring twice into the same classical bit made the simulator report the
stale and the new outcome as two separate bits.
---
 src/qrisp/simulator/circuit_preprocessing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qrisp/simulator/circuit_preprocessing.py b/src/qrisp/simulator/circuit_preprocessing.py
index f1bed09..51cc1d2 100644
--- a/src/qrisp/simulator/circuit_preprocessing.py
+++ b/src/qrisp/simulator/circuit_preprocessing.py
@@ -768,6 +768,8 @@ def insert_multiverse_measurements(qc):
             else:
                 new_data.append(Instruction(disentangler, [meas_qubit]))
                 new_measurements.append((instr.qubits[0], instr.clbits[0]))
+                # This result overwrites any previous content of the clbit
+                cb_to_qb_dic.pop(meas_clbit, None)
                 continue
 
             qb = qc.add_qubit()
-- 
2.43.0


From af0bbacf55b39eef00c9a35b9f67af7a95c8dfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:55 +0000
Subject: [PATCH 004/130] fix: respect the control pattern order in the
 definition of multi-controlled global phases

---
 src/qrisp/circuit/operation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 0be1812..35cb135 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -679,17 +679,17 @@ class PTControlledOperation(Operation):
 
             if num_ctrl_qubits > 1:
                 temp_gate = PGate(base_operation.params[0]).control(
-                    num_ctrl_qubits - 1, ctrl_state=self.ctrl_state[1:], method=method
+                    num_ctrl_qubits - 1, ctrl_state=self.ctrl_state[:-1], method=method
                 )
             else:
                 temp_gate = PGate(base_operation.params[0])
 
-            if self.ctrl_state[0] == "0":
+            if self.ctrl_state[-1] == "0":
                 definition_circ.x(definition_circ.qubits[-2])
 
             definition_circ.append(temp_gate, definition_circ.qubits[:num_ctrl_qubits])
 
-            if self.ctrl_state[0] == "0":
+            if self.ctrl_state[-1] == "0":
                 definition_circ.x(definition_circ.qubits[-2])
 
         elif self.base_operation.name == "gray_phase_gate":
-- 
2.43.0


From 621f347eede0ce0b123dac4d9cec75a59d959256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:55 +0000
Subject: [PATCH 005/130] fix: synthesize multi-controlled y with the correct
 sign

---
 src/qrisp/circuit/controlled_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/circuit/controlled_operations.py b/src/qrisp/circuit/controlled_operations.py
index 07dde7d..88ddbb0 100644
--- a/src/qrisp/circuit/controlled_operations.py
+++ b/src/qrisp/circuit/controlled_operations.py
@@ -134,9 +134,9 @@ def multi_controlled_u3_circ(u3_gate, control_amount, ctrl_state, method=None):
 
     # Treat pauli gates
     elif u3_gate.name == "y":
-        qc.s(target_qubit)
-        qc.append(XGate().control(control_amount, method=method), qc.qubits)
         qc.s_dg(target_qubit)
+        qc.append(XGate().control(control_amount, method=method), qc.qubits)
+        qc.s(target_qubit)
 
     elif u3_gate.name == "z":
         qc.h(target_qubit)
-- 
2.43.0


From 1cee14d488d538b525c872e4a7a3b4d3ef7881e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:31 +0000
Subject: [PATCH 006/130] fix: keep the classical bits of conditioned gates in
 the prx conversion

---
 src/qrisp/circuit/pass_management/passes/convert_to_prx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/circuit/pass_management/passes/convert_to_prx.py b/src/qrisp/circuit/pass_management/passes/convert_to_prx.py
index e68edfd..163cee7 100644
--- a/src/qrisp/circuit/pass_management/passes/convert_to_prx.py
+++ b/src/qrisp/circuit/pass_management/passes/convert_to_prx.py
@@ -123,7 +123,11 @@ def convert_to_prx(qc: QuantumCircuit) -> QuantumCircuit:
                 # Append gate if not identity
                 if abs(conversion_op.theta % (2 * np.pi)) >= 1e-5:
                     if isinstance(op, ClControlledOperation):
-                        qc_new.append(prx_0.c_if(op.num_control, op.ctrl_state), qc.data[i].qubits)  # type: ignore[arg-type]
+                        qc_new.append(
+                            prx_0.c_if(op.num_control, op.ctrl_state),  # type: ignore[arg-type]
+                            qc.data[i].qubits,
+                            qc.data[i].clbits,
+                        )
                     else:
                         qc_new.append(prx_0, qc.data[i].qubits)
 
-- 
2.43.0


From 1def7f89184b30fa0b3c4ee968b37869b76f4b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:31 +0000
Subject: [PATCH 007/130] fix: account for the sign of dropped gates in the prx
 conversion

---
 .../pass_management/passes/convert_to_prx.py       | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/circuit/pass_management/passes/convert_to_prx.py b/src/qrisp/circuit/pass_management/passes/convert_to_prx.py
index 163cee7..2294dd8 100644
--- a/src/qrisp/circuit/pass_management/passes/convert_to_prx.py
+++ b/src/qrisp/circuit/pass_management/passes/convert_to_prx.py
@@ -117,11 +117,14 @@ def convert_to_prx(qc: QuantumCircuit) -> QuantumCircuit:
             if abs(conversion_op.lam + conversion_op.phi) < 1e-5:
                 prx_0 = PRXGate(conversion_op.theta, conversion_op.phi + np.pi / 2)
 
+                # Append gate if not identity
+                is_identity = abs(conversion_op.theta % (2 * np.pi)) < 1e-5
+
                 # Track global phase
-                accumulated_phase += _get_phase_diff(U_orig, prx_0.get_unitary())
+                U_prx = np.eye(2) if is_identity else prx_0.get_unitary()
+                accumulated_phase += _get_phase_diff(U_orig, U_prx)
 
-                # Append gate if not identity
-                if abs(conversion_op.theta % (2 * np.pi)) >= 1e-5:
+                if not is_identity:
                     if isinstance(op, ClControlledOperation):
                         qc_new.append(
                             prx_0.c_if(op.num_control, op.ctrl_state),  # type: ignore[arg-type]
@@ -137,7 +140,10 @@ def convert_to_prx(qc: QuantumCircuit) -> QuantumCircuit:
                 prx_1 = PRXGate(np.pi, (conversion_op.phi - conversion_op.lam) / 2 + np.pi / 2)
 
                 # Combined unitary: PRX_1 · PRX_0  (prx_0 applied first in circuit)
-                U_prx = prx_1.get_unitary() @ prx_0.get_unitary()
+                # Gates that are dropped below do not contribute their sign
+                U_prx = prx_1.get_unitary()
+                if not (abs(prx_0.alpha % (2 * np.pi)) < 1e-5):
+                    U_prx = U_prx @ prx_0.get_unitary()
                 accumulated_phase += _get_phase_diff(U_orig, U_prx)
 
                 if not (abs(prx_0.alpha % (2 * np.pi)) < 1e-5):
-- 
2.43.0


From ab60e33577c4e0c732b94a04cb6e52ae585ccf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:51 +0000
Subject: [PATCH 008/130] fix: do not cancel phase gates controlled on zero
 when the control is zero

---
 .../pass_management/passes/cancel_zero_controls.py  | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py b/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py
index 243223b..99d9ad4 100644
--- a/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py
+++ b/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py
@@ -33,12 +33,13 @@ _DIAGONAL_1Q = frozenset({"p", "rz", "z", "s", "t", "s_dg", "t_dg", "id", "gphas
 def _is_cancelled_by_zero(op: Operation, qubits: list[Qubit], fresh: set[Qubit]) -> bool:
     r"""Return True if *op* on *qubits* is a no-op given a set of \|0⟩ qubits."""
     # Symmetric controlled-phase gates: diag(1,1,1,e^{iφ}).
-    # Identity whenever *either* qubit is \|0⟩.
-    if op.name in ("cp", "cz"):
-        return any(qb in fresh for qb in qubits)
-
-    # PTControlledOperation wrapping a phase gate on 2 qubits (≡ CP)
-    if isinstance(op, PTControlledOperation) and op.base_operation.name == "p" and op.num_qubits == 2:
+    # Identity whenever *either* qubit is \|0⟩ (for a control on \|0⟩ only the target counts).
+    # This includes PTControlledOperations wrapping a phase gate on 2 qubits (≡ CP)
+    if op.name in ("cp", "cz") or (
+        isinstance(op, PTControlledOperation) and op.base_operation.name == "p" and op.num_qubits == 2
+    ):
+        if getattr(op, "ctrl_state", "1") == "0":
+            return qubits[1] in fresh
         return any(qb in fresh for qb in qubits)
 
     # General controlled operations: cancel when a control-on-\|1⟩ is still \|0⟩.
-- 
2.43.0


From 09b667de281e36992f8faa9d420cb14b6b6ce698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:51 +0000
Subject: [PATCH 009/130] fix: respect controls on zero when converting
 two-qubit gates to cx or cz

---
 src/qrisp/circuit/pass_management/passes/convert_to_cx.py | 8 ++++++++
 src/qrisp/circuit/pass_management/passes/convert_to_cz.py | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/qrisp/circuit/pass_management/passes/convert_to_cx.py b/src/qrisp/circuit/pass_management/passes/convert_to_cx.py
index 8c5d89c..0f83a00 100644
--- a/src/qrisp/circuit/pass_management/passes/convert_to_cx.py
+++ b/src/qrisp/circuit/pass_management/passes/convert_to_cx.py
@@ -93,6 +93,11 @@ def convert_to_cx(
         for instr in qc.data:
             op = instr.op
 
+            # Gates that are controlled on zero share the name of the standard gate
+            ctrl_on_zero = op.name in ("cz", "cy") and getattr(op, "ctrl_state", "1") == "0"
+            if ctrl_on_zero:
+                qc_new.x(instr.qubits[0])
+
             if op.num_qubits == 2 and op.name not in ("cx", "barrier"):
                 if op.name == "cz":
                     qc_new.h(instr.qubits[1])
@@ -113,6 +118,9 @@ def convert_to_cx(
             else:
                 qc_new.append(instr)
 
+            if ctrl_on_zero:
+                qc_new.x(instr.qubits[0])
+
         return qc_new
 
     return _convert_to_cx
diff --git a/src/qrisp/circuit/pass_management/passes/convert_to_cz.py b/src/qrisp/circuit/pass_management/passes/convert_to_cz.py
index d209dc8..bffe885 100644
--- a/src/qrisp/circuit/pass_management/passes/convert_to_cz.py
+++ b/src/qrisp/circuit/pass_management/passes/convert_to_cz.py
@@ -94,6 +94,11 @@ def convert_to_cz(
         for instr in qc.data:
             op = instr.op
 
+            # Gates that are controlled on zero share the name of the standard gate
+            ctrl_on_zero = op.name in ("cx", "cy") and getattr(op, "ctrl_state", "1") == "0"
+            if ctrl_on_zero:
+                qc_new.x(instr.qubits[0])
+
             if op.num_qubits == 2 and op.name not in ("cz", "barrier"):
                 if op.name == "cx":
                     qc_new.h(instr.qubits[1])
@@ -124,6 +129,9 @@ def convert_to_cz(
             else:
                 qc_new.append(instr)
 
+            if ctrl_on_zero:
+                qc_new.x(instr.qubits[0])
+
         return qc_new
 
     return _convert_to_cz
-- 
2.43.0


From f210e2c98cc29de1fb49b408fd50f8a6f467dc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:09 +0000
Subject: [PATCH 010/130] fix: respect controls on zero when fusing adjacent
 gates

---
 .../pass_management/passes/fuse_adjacents.py        | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
index 876a857..5e04c3e 100644
--- a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
+++ b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
@@ -93,6 +93,11 @@ _FUSION_CANCEL = object()
 # =============================================================================
 
 
+def _is_zero_controlled(op):
+    """Return True if *op* has a control on zero (such gates share the name of the standard gate)."""
+    return "0" in str(getattr(op, "ctrl_state", ""))
+
+
 def _fuse_swap_with_neighbour(op_a, op_b):
     """Try to fuse a SWAP gate with a neighbouring symmetric two-qubit gate.
 
@@ -120,7 +125,7 @@ def _fuse_swap_with_neighbour(op_a, op_b):
     """
     with fast_append(0):
         # --- swap-a then something ---
-        if "swap" == op_a.name:
+        if "swap" == op_a.name and not _is_zero_controlled(op_b):
             if op_b.name == "cx":
                 # SWAP · CX(0,1) = CX(0,1) · CX(1,0)
                 half_swap_qc = QuantumCircuit(2)
@@ -148,7 +153,7 @@ def _fuse_swap_with_neighbour(op_a, op_b):
 
         # --- something then swap-b ---
         # Mirrors the cases above but with SWAP on the right.
-        if "swap" == op_b.name:
+        if "swap" == op_b.name and not _is_zero_controlled(op_a):
             if op_a.name == "cx":
                 # CX(0,1) · SWAP = CX(1,0) · CX(0,1)
                 half_swap_qc = QuantumCircuit(2)
@@ -546,8 +551,8 @@ def _resolve_qubit_order(instr_a, instr_b):
         if the qubits cannot be matched.
 
     """
-    a_sym = instr_a.op.name in _SYMMETRIC_GATES
-    b_sym = instr_b.op.name in _SYMMETRIC_GATES
+    a_sym = instr_a.op.name in _SYMMETRIC_GATES and not _is_zero_controlled(instr_a.op)
+    b_sym = instr_b.op.name in _SYMMETRIC_GATES and not _is_zero_controlled(instr_b.op)
 
     if a_sym or b_sym:
         # Symmetric match by set — qubit order difference is tolerated.
-- 
2.43.0


From 3e510750c228ce1378714f1c81f96b9d5ac1d4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:09 +0000
Subject: [PATCH 011/130] fix: make the gray-synthesis toffoli exact including
 its phase

---
 src/qrisp/circuit/pass_management/passes/gray_synth_toffoli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qrisp/circuit/pass_management/passes/gray_synth_toffoli.py b/src/qrisp/circuit/pass_management/passes/gray_synth_toffoli.py
index c35d075..f95a6ad 100644
--- a/src/qrisp/circuit/pass_management/passes/gray_synth_toffoli.py
+++ b/src/qrisp/circuit/pass_management/passes/gray_synth_toffoli.py
@@ -49,6 +49,7 @@ def _get_gray_toffoli_qc() -> QuantumCircuit:
     qc.cx(0, 2)
     qc.h(2)
     qc.rzz(-np.pi / 4, 0, 1)
+    qc.gphase(-np.pi / 8, 0)
     return qc
 
 
-- 
2.43.0


From e1262845657b67b9b2f1d96050710911a568be31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:09 +0000
Subject: [PATCH 012/130] fix: do not commute swaps past instructions that
 share classical bits

---
 .../circuit/pass_management/passes/commute_swaps.py      | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/qrisp/circuit/pass_management/passes/commute_swaps.py b/src/qrisp/circuit/pass_management/passes/commute_swaps.py
index a7e470d..6ea1c81 100644
--- a/src/qrisp/circuit/pass_management/passes/commute_swaps.py
+++ b/src/qrisp/circuit/pass_management/passes/commute_swaps.py
@@ -114,6 +114,15 @@ def commute_swaps(qc: QuantumCircuit) -> QuantumCircuit:
         else:
             instr_index = len(qc_new.data) - 1
 
+            # Instructions sharing a classical bit with a later instruction
+            # (and everything in front of them) must not move past it.
+            if instr.clbits:
+                for qb, indices in last_instruction_dic.items():
+                    for k in range(len(indices) - 1, -1, -1):
+                        if set(qc_new.data[indices[k]].clbits) & set(instr.clbits):
+                            last_instruction_dic[qb] = indices[k + 1 :]
+                            break
+
             if instr.op.num_qubits == 1 and len(instr.qubits) == 1:
                 qb = instr.qubits[0]
                 last_instruction_dic[qb].append(instr_index)
-- 
2.43.0


From 90f2045cc9c456424f40f55a2c40769b643fc098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:10 +0000
Subject: [PATCH 013/130] fix: transpile circuits that have classical bits but
 no qubits

---
 src/qrisp/circuit/transpiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/circuit/transpiler.py b/src/qrisp/circuit/transpiler.py
index 5666ee4..18ca399 100644
--- a/src/qrisp/circuit/transpiler.py
+++ b/src/qrisp/circuit/transpiler.py
@@ -42,7 +42,7 @@ def transpile(qc, transpilation_level=np.inf, transpile_predicate=None, **kwargs
                 transpiled_qc.add_qubit(Qubit(qb.identifier))
 
         for cb in qc.clbits:
-            if isinstance(qb, Qubit):
+            if isinstance(cb, Clbit):
                 transpiled_qc.add_clbit(cb)
             else:
                 transpiled_qc.add_clbit(Clbit(cb.identifier))
-- 
2.43.0


From b999f5d1b56207d4b4efbaac15f3b8993bb82ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:29 +0000
Subject: [PATCH 014/130] fix: sum equal labels and ignore register spaces in
 joint measurement results

---
 src/qrisp/interface/measurement_result.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/interface/measurement_result.py b/src/qrisp/interface/measurement_result.py
index 10e81c3..e44db81 100644
--- a/src/qrisp/interface/measurement_result.py
+++ b/src/qrisp/interface/measurement_result.py
@@ -406,6 +406,7 @@ class MultiMeasurementResult(LazyDict):
 
         new_counts: dict = {}
         for bitstring, count in raw_counts.items():
+            bitstring = bitstring.replace(" ", "")
             labels = []
             offset = 0
             for j, cl_reg in enumerate(regs):
@@ -429,7 +430,7 @@ class MultiMeasurementResult(LazyDict):
 
             outcome = tuple(labels)
             try:
-                new_counts[outcome] = count / total
+                new_counts[outcome] = new_counts.get(outcome, 0) + count / total
             except TypeError as exc:
                 raise TypeError(
                     "Tried to create measurement outcome dic for QuantumVariable with unhashable labels"
-- 
2.43.0


From a54cabd631cf0987d97cfb918592750c7b88899c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:23 +0000
Subject: [PATCH 015/130] fix: download the result of a Qiskit job that was
 already seen as done

---
 src/qrisp/interface/provider_backends/qiskit_backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/interface/provider_backends/qiskit_backend.py b/src/qrisp/interface/provider_backends/qiskit_backend.py
index b751f18..ecfebbb 100644
--- a/src/qrisp/interface/provider_backends/qiskit_backend.py
+++ b/src/qrisp/interface/provider_backends/qiskit_backend.py
@@ -139,7 +139,8 @@ class QiskitJob(Job):
         """
         if self._last_known_status in JOB_FINAL_STATES:
             self._raise_for_status(self._last_known_status)
-            return cast(JobResult, self._cached_result)
+            if self._cached_result is not None:
+                return self._cached_result
 
         try:
             # Only pass timeout when explicitly requested: local backends such
-- 
2.43.0


From 0e0e566a1adb6e8fa806f0dca14d45b1d1ef303a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:23 +0000
Subject: [PATCH 016/130] fix: never leave a final job status again

---
 src/qrisp/interface/provider_backends/aqt_backend.py    | 9 +++++----
 src/qrisp/interface/provider_backends/iqm_backend.py    | 2 ++
 src/qrisp/interface/provider_backends/qiskit_backend.py | 8 ++++----
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/qrisp/interface/provider_backends/aqt_backend.py b/src/qrisp/interface/provider_backends/aqt_backend.py
index e62113a..4b1ddef 100644
--- a/src/qrisp/interface/provider_backends/aqt_backend.py
+++ b/src/qrisp/interface/provider_backends/aqt_backend.py
@@ -22,6 +22,7 @@ from qiskit import QuantumCircuit as QiskitQuantumCircuit
 from qrisp.circuit.quantum_circuit import QuantumCircuit
 from qrisp.interface.backend import Backend
 from qrisp.interface.job import (
+    JOB_FINAL_STATES,
     Job,
     JobCancelledError,
     JobFailureError,
@@ -115,11 +116,10 @@ class AQTJob(Job):
         try:
             aqt_result = self._aqt_job.result()
         except TimeoutError:
-            self._last_known_status = _map_aqt_status(self._aqt_job)
+            self.status()
             raise
         except Exception as exc:
-            terminal_status = _map_aqt_status(self._aqt_job)
-            self._last_known_status = terminal_status
+            terminal_status = self.status()
             if terminal_status == JobStatus.CANCELLED:
                 raise JobCancelledError(f"AQT job {self._job_id!r} was cancelled.") from exc
             raise JobFailureError(f"AQT job {self._job_id!r} failed: {exc}") from exc
@@ -144,7 +144,8 @@ class AQTJob(Job):
 
     def status(self) -> JobStatus:
         """Return the current :class:`~qrisp.interface.JobStatus` by querying the AQT job."""
-        self._last_known_status = _map_aqt_status(self._aqt_job)
+        if self._last_known_status not in JOB_FINAL_STATES:
+            self._last_known_status = _map_aqt_status(self._aqt_job)
         return self._last_known_status
 
 
diff --git a/src/qrisp/interface/provider_backends/iqm_backend.py b/src/qrisp/interface/provider_backends/iqm_backend.py
index 005a729..f336d0f 100644
--- a/src/qrisp/interface/provider_backends/iqm_backend.py
+++ b/src/qrisp/interface/provider_backends/iqm_backend.py
@@ -196,6 +196,8 @@ class IQMJob(Job):
 
     def status(self) -> JobStatus:
         """Return the current :class:`~qrisp.interface.JobStatus` by querying the IQM server."""
+        if self._last_known_status in JOB_FINAL_STATES:
+            return self._last_known_status
         try:
             self._iqm_job.update()
         except Exception:
diff --git a/src/qrisp/interface/provider_backends/qiskit_backend.py b/src/qrisp/interface/provider_backends/qiskit_backend.py
index ecfebbb..4f3b8ff 100644
--- a/src/qrisp/interface/provider_backends/qiskit_backend.py
+++ b/src/qrisp/interface/provider_backends/qiskit_backend.py
@@ -150,11 +150,10 @@ class QiskitJob(Job):
             else:
                 qiskit_result = self._qiskit_job.result()
         except TimeoutError:
-            self._last_known_status = _map_qiskit_status(self._qiskit_job)
+            self.status()
             raise
         except Exception as exc:
-            terminal_status = _map_qiskit_status(self._qiskit_job)
-            self._last_known_status = terminal_status
+            terminal_status = self.status()
             if terminal_status == JobStatus.CANCELLED:
                 raise JobCancelledError(f"Qiskit job {self._job_id!r} was cancelled.") from exc
             raise JobFailureError(f"Qiskit job {self._job_id!r} failed: {exc}") from exc
@@ -194,7 +193,8 @@ class QiskitJob(Job):
 
     def status(self) -> JobStatus:
         """Return the current :class:`~qrisp.interface.JobStatus` by querying the Qiskit job."""
-        self._last_known_status = _map_qiskit_status(self._qiskit_job)
+        if self._last_known_status not in JOB_FINAL_STATES:
+            self._last_known_status = _map_qiskit_status(self._qiskit_job)
         return self._last_known_status
 
 
-- 
2.43.0


From a0ec38365dd83344e8e69d00c84edc75b6c91910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:23 +0000
Subject: [PATCH 017/130] fix: report an IQM job as cancelled only once the
 server says so

---
 src/qrisp/interface/provider_backends/iqm_backend.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/qrisp/interface/provider_backends/iqm_backend.py b/src/qrisp/interface/provider_backends/iqm_backend.py
index f336d0f..4e9aaef 100644
--- a/src/qrisp/interface/provider_backends/iqm_backend.py
+++ b/src/qrisp/interface/provider_backends/iqm_backend.py
@@ -189,7 +189,6 @@ class IQMJob(Job):
             return False
         try:
             self._iqm_job.cancel()
-            self._last_known_status = JobStatus.CANCELLED
             return True
         except Exception:
             return False
-- 
2.43.0


From 23d8a6618bce5e025d118bfc3ef5d45ac81a5c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:08 +0000
Subject: [PATCH 018/130] fix: clear free symbols and cached matrix when
 binding an operation

---
 src/qrisp/circuit/operation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 35cb135..d55defc 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -416,6 +416,9 @@ class Operation:
         if res.definition is not None:
             res.definition = res.definition.bind_parameters(subs_dic)
 
+        res.abstract_params = set()
+        res.__dict__.pop("unitary", None)
+
         return res
 
     def c_if(self, num_control=1, ctrl_state=-1):
@@ -815,7 +818,8 @@ class PTControlledOperation(Operation):
             res.definition = self.definition.bind_parameters(subs_dic)
         res.base_operation = self.base_operation.bind_parameters(subs_dic)
         res.params = res.base_operation.params
-        res.abstract_params = set(self.base_operation.params) - set(subs_dic.keys())
+        res.abstract_params = set(res.base_operation.abstract_params)
+        res.__dict__.pop("unitary", None)
 
         return res
 
-- 
2.43.0


From 021e694759f5f304b9abd7d051a88365eac07336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:25 +0000
Subject: [PATCH 019/130] fix: bind the base gate of a classically controlled
 operation

---
 src/qrisp/circuit/operation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index d55defc..320773d 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -916,3 +916,6 @@ class ClControlledOperation(Operation):
         )
 
         self.permeability = dict(base_op.permeability)
+
+    def bind_parameters(self, subs_dic):
+        return ClControlledOperation(self.base_op.bind_parameters(subs_dic), self.num_control, self.ctrl_state)
-- 
2.43.0


From 5367ebaef4e7e6a805de8a29f20ee71eb2ced72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:25 +0000
Subject: [PATCH 020/130] fix: keep the free symbols of a circuit when
 transpiling it

---
 src/qrisp/circuit/transpiler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qrisp/circuit/transpiler.py b/src/qrisp/circuit/transpiler.py
index 18ca399..f9e6366 100644
--- a/src/qrisp/circuit/transpiler.py
+++ b/src/qrisp/circuit/transpiler.py
@@ -56,6 +56,7 @@ def transpile(qc, transpilation_level=np.inf, transpile_predicate=None, **kwargs
             transpile_predicate_ = lambda i, op: i < transpilation_level and transpile_predicate(op)
 
         transpile_inner(qc, transpiled_qc, translation_dic, transpile_predicate_)
+        transpiled_qc.abstract_params = set(getattr(qc, "abstract_params", ()))
 
         QuantumCircuit.fast_append = False
 
-- 
2.43.0


From 6f2ae20a239a7333380fb49c58ee5944795f7c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:49:23 +0000
Subject: [PATCH 021/130] fix: do not group gates across a conditioned gate on
 several qubits

---
 src/qrisp/simulator/circuit_preprocessing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/simulator/circuit_preprocessing.py b/src/qrisp/simulator/circuit_preprocessing.py
index 51cc1d2..157e227 100644
--- a/src/qrisp/simulator/circuit_preprocessing.py
+++ b/src/qrisp/simulator/circuit_preprocessing.py
@@ -565,7 +565,7 @@ def binary_get_circuit_block_jitted(int_qc_list, qubits, n, established_indices)
         # Determine the intersection between the qubits of the instruction
         # and the qubits of the group
         # intersection = instr_qubits.intersection(qubits)
-        intersection = qubits & instr_qubits
+        intersection = qubits & abs(instr_qubits)
 
         # If the intersection is empty, this instruction is not part of the group
         # and no further action needs to be taken
@@ -627,7 +627,7 @@ def binary_get_circuit_block(int_qc_list, qubits, n, established_indices):
         # Determine the intersection between the qubits of the instruction
         # and the qubits of the group
         # intersection = instr_qubits.intersection(qubits)
-        intersection = qubits & instr_qubits
+        intersection = qubits & abs(instr_qubits)
 
         # If the intersection is empty, this instruction is not part of the group
         # and no further action needs to be taken
@@ -637,7 +637,7 @@ def binary_get_circuit_block(int_qc_list, qubits, n, established_indices):
         # If the instruction is non-unitary, no further instruction
         # on this qubit can be part of the group
         if instr_qubits < 0:
-            qubits = qubits & (((1 << n) - 1) ^ instr_qubits)
+            qubits = qubits & (((1 << n) - 1) ^ (-instr_qubits))
             # qubits = qubits - instr_qubits
             continue
 
-- 
2.43.0


From 1a9169ff1840934a7f728ff3de80eb36925b312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:25 +0000
Subject: [PATCH 022/130] fix: treat composite gates with free symbols as
 non-permeable instead of failing

---
 src/qrisp/permeability/type_checker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qrisp/permeability/type_checker.py b/src/qrisp/permeability/type_checker.py
index 1987f75..39566ee 100644
--- a/src/qrisp/permeability/type_checker.py
+++ b/src/qrisp/permeability/type_checker.py
@@ -78,6 +78,9 @@ def is_permeable(gate, qubit_indices):
 
             return True
 
+    if gate.abstract_params:
+        return False
+
     for par in gate.params:
         if isinstance(par, sp.Expr):
             return False
-- 
2.43.0


From 292b5a44aa71eca13c40012f8382f17dc8e4919b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:22 +0000
Subject: [PATCH 023/130] fix: drop the cached matrix of the base gate when
 binding

---
 src/qrisp/circuit/operation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 320773d..17de7dd 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -418,6 +418,7 @@ class Operation:
 
         res.abstract_params = set()
         res.__dict__.pop("unitary", None)
+        res.__dict__.pop("unitary_array", None)
 
         return res
 
@@ -820,6 +821,7 @@ class PTControlledOperation(Operation):
         res.params = res.base_operation.params
         res.abstract_params = set(res.base_operation.abstract_params)
         res.__dict__.pop("unitary", None)
+        res.__dict__.pop("unitary_array", None)
 
         return res
 
-- 
2.43.0


From 296eee275633b6661136d37ffa42bfbd94b96dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:22 +0000
Subject: [PATCH 024/130] fix: do not compare symbolic matrices numerically
 when fusing gates

---
 src/qrisp/circuit/pass_management/passes/fuse_adjacents.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
index 5e04c3e..2ce2c45 100644
--- a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
+++ b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
@@ -426,6 +426,10 @@ def _check_inverse_cancel(op_a, op_b):
         if inv_op.num_qubits > 4 or op_b.num_qubits > 4:
             return None
 
+        # The unitaries of gates with free symbols can not be compared
+        if inv_op.abstract_params or op_b.abstract_params:
+            return None
+
         # Retrieve the unitaries
         try:
             unitary_a = inv_op.get_unitary()
-- 
2.43.0


From aaa389012b25031a94e7c92ab2575719dd5d1602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:22 +0000
Subject: [PATCH 025/130] fix: track free symbols in accelerated append mode

---
 src/qrisp/circuit/quantum_circuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qrisp/circuit/quantum_circuit.py b/src/qrisp/circuit/quantum_circuit.py
index 8f4a4df..faaf572 100644
--- a/src/qrisp/circuit/quantum_circuit.py
+++ b/src/qrisp/circuit/quantum_circuit.py
@@ -1510,8 +1510,10 @@ class QuantumCircuit:
     ) -> None:
         """Handle the XLA accelerated compilation fast path."""
         if isinstance(operation_or_instruction, Instruction):
+            self.abstract_params.update(operation_or_instruction.op.abstract_params)
             self.data.append(operation_or_instruction)
             return
+        self.abstract_params.update(operation_or_instruction.abstract_params)
         if self.xla_mode <= 1:
             if not isinstance(qubits, list):
                 raise TypeError(
-- 
2.43.0


From 786606f0455911066ce8a410b25d6ab3765943b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:39 +0000
Subject: [PATCH 026/130] fix: accept cy and id gates in the T-depth and
 CNOT-depth metrics

---
 src/qrisp/misc/utility.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index 32bd0bf..7d66a52 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -1909,8 +1909,9 @@ def t_depth_indicator(op, epsilon):
     elif op.definition is not None:
         return op.definition.t_depth(epsilon)
     elif op.name in [
+        "id",
         "cx",
-        "cx",
+        "cy",
         "cz",
         "x",
         "y",
@@ -1979,7 +1980,7 @@ def cnot_depth_indicator(op):
         return op.definition.cnot_depth()
     if op.num_qubits == 1 or op.name == "barrier":
         return 0
-    elif op.name in ["cx", "cx", "cz"]:
+    elif op.name in ["cx", "cy", "cz"]:
         return 1
     else:
         raise Exception(f"Gate {op.name} not implemented")
-- 
2.43.0


From be19bdd5d98e2984806a9c07400bc9e9dcac4ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:39 +0000
Subject: [PATCH 027/130] fix: use all three angles for the T-depth of a u3
 gate

---
 src/qrisp/misc/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index 7d66a52..297682c 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -1942,7 +1942,7 @@ def t_depth_indicator(op, epsilon):
     elif op.name == "u3":
         res = 0
         for i in range(3):
-            par = op.params[0] / (np.pi) % 1
+            par = op.params[i] / (np.pi) % 1
             if par in [0, 1 / 2]:
                 pass
             elif par in [1 / 4, 3 / 4]:
-- 
2.43.0


From 972e6bad23846e79ad2a2d34419fa43245b30da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:02:26 +0000
Subject: [PATCH 028/130] fix: ignore rounding errors of Clifford and T angles
 in the T-depth metric

---
 src/qrisp/misc/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index 297682c..2fe8a2d 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -1930,7 +1930,7 @@ def t_depth_indicator(op, epsilon):
     ]:
         return 0
     elif op.name in ["rx", "ry", "rz", "p", "u1"]:
-        par = op.params[0] / (np.pi) % 1
+        par = np.round(op.params[0] / (np.pi), 10) % 1
         if par in [0, 1 / 2]:
             return 0
         elif par in [1 / 4, 3 / 4]:
@@ -1942,7 +1942,7 @@ def t_depth_indicator(op, epsilon):
     elif op.name == "u3":
         res = 0
         for i in range(3):
-            par = op.params[i] / (np.pi) % 1
+            par = np.round(op.params[i] / (np.pi), 10) % 1
             if par in [0, 1 / 2]:
                 pass
             elif par in [1 / 4, 3 / 4]:
-- 
2.43.0


From dda8193a299b51ad04166dd93a406c97c96f1d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:31 +0000
Subject: [PATCH 029/130] fix: export all bits and values of a classical
 condition to Qiskit

---
 .../interface/converter/qiskit_converter.py   | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/interface/converter/qiskit_converter.py b/src/qrisp/interface/converter/qiskit_converter.py
index b59daa4..891a602 100644
--- a/src/qrisp/interface/converter/qiskit_converter.py
+++ b/src/qrisp/interface/converter/qiskit_converter.py
@@ -106,14 +106,20 @@ def convert_to_qiskit(qc, transpile=False):
                 from qiskit.circuit import IfElseOp
 
                 qregs = [qiskit_qc.qregs[qc.qubits.index(qb)] for qb in qc.data[i].qubits]
-                body_qc = QuantumCircuit(*qregs)
+                cl_regs = [qiskit_qc.cregs[qc.clbits.index(cb)] for cb in qc.data[i].clbits]
+                body_qc = QuantumCircuit(*qregs, *dict.fromkeys(cl_regs))
                 if op.base_op.definition:
-                    body_qc = body_qc.compose(op.base_op.definition.to_qiskit())
+                    base_qc = op.base_op.definition
                 else:
-                    base_qiskit_ins = create_qiskit_instruction(op.base_op, params)
-                    body_qc.append(base_qiskit_ins, qubit_list)
-                qiskit_ins = IfElseOp((clbit_list[0], 1), true_body=body_qc)
-                clbit_list = []
+                    base_qc = _single_operation_circuit(op.base_op)
+                body_qc = body_qc.compose(convert_to_qiskit(base_qc), qubit_list, clbit_list[op.num_control :])
+
+                # Several condition bits are expressed by nesting
+                clbit_list = body_qc.clbits
+                for cb, value in list(zip(qc.data[i].clbits, op.ctrl_state))[: op.num_control][::-1]:
+                    qiskit_ins = IfElseOp((bit_dic[cb.identifier], int(value)), true_body=body_qc)
+                    body_qc = body_qc.copy_empty_like()
+                    body_qc.append(qiskit_ins, body_qc.qubits, body_qc.clbits)
             except ImportError:
                 base_qiskit_ins = create_qiskit_instruction(op.base_op, params)
                 cl_reg = ClassicalRegister(op.num_clbits)
@@ -151,6 +157,14 @@ def convert_to_qiskit(qc, transpile=False):
     return qiskit_qc
 
 
+def _single_operation_circuit(op):
+    from qrisp.circuit import QuantumCircuit
+
+    qc = QuantumCircuit(op.num_qubits, op.num_clbits)
+    qc.append(op, qc.qubits, qc.clbits)
+    return qc
+
+
 def create_qiskit_instruction(op, params=[]):
     import qiskit.circuit.library.standard_gates as qsk_gates
     from qiskit import QiskitError
-- 
2.43.0


From 5396f76a3afe653cb058d3f7bbec5f74d7029148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:33 +0000
Subject: [PATCH 030/130] fix: keep the condition of conditional blocks
 imported from Qiskit

---
 .../interface/converter/qiskit_converter.py   | 37 ++++++++++++-------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/qrisp/interface/converter/qiskit_converter.py b/src/qrisp/interface/converter/qiskit_converter.py
index 891a602..103acc5 100644
--- a/src/qrisp/interface/converter/qiskit_converter.py
+++ b/src/qrisp/interface/converter/qiskit_converter.py
@@ -328,15 +328,28 @@ def convert_from_qiskit(qiskit_qc):
     for i in range(len(qiskit_qc.data)):
         qiskit_op = qiskit_qc.data[i].operation
 
-        if hasattr(qiskit_op, "condition_bits"):
-            condition_bits = [cb_dic[cb] for cb in qiskit_op.condition_bits]
-            if condition_bits:
-                condition_value = qiskit_op.condition[1]
-        elif hasattr(qiskit_op, "is_control_flow") and qiskit_op.is_control_flow():
-            condition_bits = [cb_dic[cb] for cb in qiskit_qc.data[i].clbits]
-            condition_value = qiskit_op.condition[1]
-        else:
-            condition_bits = []
+        clbits = [cb_dic[cb] for cb in qiskit_qc.data[i].clbits]
+        condition_bits = []
+        condition_value = ""
+
+        # (Nested) conditional blocks
+        while qiskit_op.name == "if_else":
+            if len(qiskit_op.params) > 1 and qiskit_op.params[1] is not None:
+                raise Exception("Could not convert Qiskit conditional with an else block to Qrisp")
+            cond, value = qiskit_op.condition
+            cond = list(cond) if hasattr(cond, "size") else [cond]
+            condition_bits += [cb_dic[cb] for cb in cond]
+            condition_value += bin_rep(int(value), len(cond))[::-1]
+            body = qiskit_op.params[0]
+            if len(body.data) == 1 and body.data[0].operation.name == "if_else":
+                qiskit_op = body.data[0].operation
+            else:
+                if any(ins.clbits for ins in body.data):
+                    raise Exception("Could not convert Qiskit conditional with classical operations to Qrisp")
+                gate_qc = QiskitQuantumCircuit(body.qubits, global_phase=body.global_phase)
+                for ins in body.data:
+                    gate_qc.append(ins.operation, ins.qubits)
+                qiskit_op = gate_qc.to_gate()
 
         params = list(qiskit_op.params)
 
@@ -357,9 +370,6 @@ def convert_from_qiskit(qiskit_qc):
                 qrisp_params.append(float(p))
             elif isinstance(p, complex):
                 qrisp_params.append(p)
-            elif isinstance(p, QiskitQuantumCircuit):
-                qiskit_op = p.to_gate()
-                break
             else:
                 print(p)
                 raise Exception(f"Could not convert parameter type {type(p)}")
@@ -401,10 +411,9 @@ def convert_from_qiskit(qiskit_qc):
             op = Barrier(qiskit_op.num_qubits)
 
         qubits = [qb_dic[qb] for qb in qiskit_qc.data[i].qubits]
-        clbits = [cb_dic[cb] for cb in qiskit_qc.data[i].clbits]
 
         if condition_bits:
-            clbits += condition_bits
+            clbits = condition_bits
             op = op.c_if(len(condition_bits), condition_value)
 
         qc.append(op, qubits, clbits)
-- 
2.43.0


From e26148b76103cbe459935e2004405e32bcb0ef41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:14 +0000
Subject: [PATCH 031/130] fix: export the r gate to Qiskit with the matrix it
 has in Qrisp

---
 src/qrisp/interface/converter/qiskit_converter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/interface/converter/qiskit_converter.py b/src/qrisp/interface/converter/qiskit_converter.py
index 103acc5..44cb3cf 100644
--- a/src/qrisp/interface/converter/qiskit_converter.py
+++ b/src/qrisp/interface/converter/qiskit_converter.py
@@ -257,7 +257,8 @@ def create_qiskit_instruction(op, params=[]):
     elif op.name == "u3":
         qiskit_ins = qsk_gates.U3Gate(*params)
     elif op.name == "r":
-        qiskit_ins = qsk_gates.RGate(*params)
+        # The Qrisp r gate rotates around an axis that is shifted by pi/2
+        qiskit_ins = qsk_gates.RGate(params[0], params[1] - np.pi / 2)
     elif isinstance(op, PRXGate):
         qiskit_ins = qsk_gates.RGate(op.alpha, op.beta)
     elif op.name == "id":
-- 
2.43.0


From 259314f9442fe90438d9ba97f0a130928248735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:14 +0000
Subject: [PATCH 032/130] fix: respect the different phase of the u1 gate when
 converting to and from Qiskit

---
 src/qrisp/interface/converter/qiskit_converter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/interface/converter/qiskit_converter.py b/src/qrisp/interface/converter/qiskit_converter.py
index 44cb3cf..671349e 100644
--- a/src/qrisp/interface/converter/qiskit_converter.py
+++ b/src/qrisp/interface/converter/qiskit_converter.py
@@ -237,7 +237,7 @@ def create_qiskit_instruction(op, params=[]):
     elif op.name == "p":
         qiskit_ins = qsk_gates.PhaseGate(params[0])
     elif op.name == "u1":
-        qiskit_ins = qsk_gates.PhaseGate(params[0])
+        qiskit_ins = qsk_gates.RZGate(params[0])
     elif op.name == "s":
         qiskit_ins = qsk_gates.SGate()
     elif op.name == "s_dg":
@@ -281,6 +281,8 @@ def create_qiskit_instruction(op, params=[]):
 
 op_dic = {op().name: op for op in op_list}
 op_dic["u"] = op_dic["u3"]
+# The Qiskit u1 gate is a phase gate, the Qrisp u1 gate is a Z rotation
+op_dic["u1"] = op_dic["p"]
 
 
 def convert_from_qiskit(qiskit_qc):
-- 
2.43.0


From 3187a6be450a5d3c3f3cac34a1adcd0b5c71811b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:14 +0000
Subject: [PATCH 033/130] fix: account for the phase of the Qiskit sx gate in
 both directions

---
 .../interface/converter/qiskit_converter.py   | 33 ++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/interface/converter/qiskit_converter.py b/src/qrisp/interface/converter/qiskit_converter.py
index 671349e..95bb3c3 100644
--- a/src/qrisp/interface/converter/qiskit_converter.py
+++ b/src/qrisp/interface/converter/qiskit_converter.py
@@ -146,11 +146,14 @@ def convert_to_qiskit(qc, transpile=False):
             elif op.num_qubits == op.base_operation.num_qubits:
                 qiskit_ins = create_qiskit_instruction(op.base_operation, params)
             else:
-                base_gate = create_qiskit_instruction(op.base_operation, params)
+                base_gate = create_qiskit_base_gate(op.base_operation, params)
                 qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
         else:
             qiskit_ins = create_qiskit_instruction(op, params)
 
+            # The Qiskit sx gate has an additional phase
+            qiskit_qc.global_phase += {"sx": -np.pi / 4, "sx_dg": np.pi / 4}.get(op.name, 0)
+
         # Append to qiskit circuit
         qiskit_qc.append(qiskit_ins, qubit_list, clbit_list)
     # Return result
@@ -165,6 +168,15 @@ def _single_operation_circuit(op):
     return qc
 
 
+def create_qiskit_base_gate(op, params=[]):
+    # Under control, the phase of the Qiskit sx gate matters
+    from qiskit.circuit.library.standard_gates import RXGate
+
+    if op.name in ["sx", "sx_dg"]:
+        return RXGate(np.pi / 2 if op.name == "sx" else -np.pi / 2)
+    return create_qiskit_instruction(op, params)
+
+
 def create_qiskit_instruction(op, params=[]):
     import qiskit.circuit.library.standard_gates as qsk_gates
     from qiskit import QiskitError
@@ -201,7 +213,7 @@ def create_qiskit_instruction(op, params=[]):
             qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
 
         else:
-            base_gate = create_qiskit_instruction(op.base_operation, params)
+            base_gate = create_qiskit_base_gate(op.base_operation, params)
             qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
     elif op.name == "rxx":
         qiskit_ins = qsk_gates.RXXGate(*params)
@@ -328,6 +340,8 @@ def convert_from_qiskit(qiskit_qc):
 
     from sympy import sympify
 
+    global_phase = getattr(qiskit_qc, "global_phase", 0)
+
     for i in range(len(qiskit_qc.data)):
         qiskit_op = qiskit_qc.data[i].operation
 
@@ -403,6 +417,13 @@ def convert_from_qiskit(qiskit_qc):
                         raise Exception("Could not convert Qiskit operation " + str(qiskit_op.name) + " to Qrisp")
 
         if controlled_gate:
+            # Phases of the base gate matter under control
+            base_phase = {"sx": np.pi / 4, "sxdg": -np.pi / 4}.get(qiskit_op.name, 0)
+            if base_phase:
+                temp_qc = _single_operation_circuit(op)
+                temp_qc.gphase(base_phase, temp_qc.qubits[0])
+                op = temp_qc.to_gate(name=qiskit_op.name)
+
             qiskit_op = qiskit_qc.data[i].operation
             op = ControlledOperation(
                 base_operation=op,
@@ -421,10 +442,14 @@ def convert_from_qiskit(qiskit_qc):
 
         qc.append(op, qubits, clbits)
 
+        if not condition_bits and not controlled_gate:
+            # The Qiskit sx gate has an additional phase
+            global_phase += {"sx": np.pi / 4, "sxdg": -np.pi / 4}.get(qiskit_op.name, 0)
+
     # Propagate Qiskit's global phase (stored as a circuit attribute,
     # not an instruction).  Dropping it changes the unitary — critical
     # for controlled operations built from gate definitions with phase.
-    if abs(getattr(qiskit_qc, "global_phase", 0)) > 1e-10:
-        qc.gphase(qiskit_qc.global_phase, qc.qubits[0])
+    if abs(global_phase) > 1e-10:
+        qc.gphase(global_phase, qc.qubits[0])
 
     return qc
-- 
2.43.0


From f18478bc09b7d1feca2846f1f07373af2c6f5a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:14 +0000
Subject: [PATCH 034/130] fix: import custom Qiskit gates through their
 definition instead of their name

---
 src/qrisp/interface/converter/qiskit_converter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/interface/converter/qiskit_converter.py b/src/qrisp/interface/converter/qiskit_converter.py
index 95bb3c3..4e9d3d1 100644
--- a/src/qrisp/interface/converter/qiskit_converter.py
+++ b/src/qrisp/interface/converter/qiskit_converter.py
@@ -299,7 +299,7 @@ op_dic["u1"] = op_dic["p"]
 
 def convert_from_qiskit(qiskit_qc):
     from qiskit import QuantumCircuit as QiskitQuantumCircuit
-    from qiskit.circuit import ControlledGate, ParameterExpression
+    from qiskit.circuit import ControlledGate, Gate, Instruction, ParameterExpression
 
     from qrisp import Barrier, Clbit, ControlledOperation, QuantumCircuit, Qubit
 
@@ -399,8 +399,11 @@ def convert_from_qiskit(qiskit_qc):
         else:
             controlled_gate = False
 
+        # Custom gates are given by their definition, whatever their name
+        if type(qiskit_op) in [Gate, Instruction] and qiskit_op.definition is not None:
+            op = convert_from_qiskit(qiskit_op.definition).to_gate(name=qiskit_op.name)
         # Qiskit RGate → PRXGate
-        if qiskit_op.name == "r":
+        elif qiskit_op.name == "r":
             from qrisp.circuit import PRXGate as _PRXGate
 
             op = _PRXGate(params[0], params[1])
-- 
2.43.0


From f5026716ab9b553e7e84a355199cadb46167871c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:14 +0000
Subject: [PATCH 035/130] fix: import the Qiskit cu gate with its phase

---
 src/qrisp/interface/converter/qiskit_converter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/interface/converter/qiskit_converter.py b/src/qrisp/interface/converter/qiskit_converter.py
index 4e9d3d1..e4aa5b0 100644
--- a/src/qrisp/interface/converter/qiskit_converter.py
+++ b/src/qrisp/interface/converter/qiskit_converter.py
@@ -392,6 +392,10 @@ def convert_from_qiskit(qiskit_qc):
                 raise Exception(f"Could not convert parameter type {type(p)}")
 
         params = qrisp_params
+        base_phase = 0
+        if qiskit_op.name == "cu":
+            # The last parameter is the phase of the base gate
+            base_phase = params.pop()
 
         if isinstance(qiskit_op, ControlledGate):
             controlled_gate = True
@@ -421,7 +425,7 @@ def convert_from_qiskit(qiskit_qc):
 
         if controlled_gate:
             # Phases of the base gate matter under control
-            base_phase = {"sx": np.pi / 4, "sxdg": -np.pi / 4}.get(qiskit_op.name, 0)
+            base_phase += {"sx": np.pi / 4, "sxdg": -np.pi / 4}.get(qiskit_op.name, 0)
             if base_phase:
                 temp_qc = _single_operation_circuit(op)
                 temp_qc.gphase(base_phase, temp_qc.qubits[0])
-- 
2.43.0


From 892a8d0ace6133fe8868e39026b56f17096fd228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:14 +0000
Subject: [PATCH 036/130] fix: export global phases with free parameters to
 Qiskit

---
 src/qrisp/interface/converter/qiskit_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/interface/converter/qiskit_converter.py b/src/qrisp/interface/converter/qiskit_converter.py
index e4aa5b0..28c737f 100644
--- a/src/qrisp/interface/converter/qiskit_converter.py
+++ b/src/qrisp/interface/converter/qiskit_converter.py
@@ -94,7 +94,7 @@ def convert_to_qiskit(qc, transpile=False):
 
         elif op.name == "gphase":
             temp_qc = QuantumCircuit(1)
-            temp_qc.global_phase += float(params[0])
+            temp_qc.global_phase += params[0]
             qiskit_ins = temp_qc.to_gate()
             qiskit_ins.name = "gphase"
 
-- 
2.43.0


From af1bfe6e2f7d8f146c9f9a78d6edab3a598a6792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:14 +0000
Subject: [PATCH 037/130] fix: use the gate names Qiskit knows when exporting
 to OpenQASM

---
 src/qrisp/circuit/quantum_circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/circuit/quantum_circuit.py b/src/qrisp/circuit/quantum_circuit.py
index faaf572..36d3030 100644
--- a/src/qrisp/circuit/quantum_circuit.py
+++ b/src/qrisp/circuit/quantum_circuit.py
@@ -1208,8 +1208,8 @@ class QuantumCircuit:
                         "h",
                         "s",
                         "t",
-                        "s_dg",
-                        "t_dg",
+                        "sdg",
+                        "tdg",
                         "cx",
                         "cz",
                         "rz",
-- 
2.43.0


From d2b114642773241c7c18c799bf5a3b1584572540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:41 +0000
Subject: [PATCH 038/130] fix: keep imported Qiskit gates apart from built-in
 gates of the same name

---
 src/qrisp/interface/converter/qiskit_converter.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/interface/converter/qiskit_converter.py b/src/qrisp/interface/converter/qiskit_converter.py
index 28c737f..4b62e56 100644
--- a/src/qrisp/interface/converter/qiskit_converter.py
+++ b/src/qrisp/interface/converter/qiskit_converter.py
@@ -299,6 +299,7 @@ op_dic["u1"] = op_dic["p"]
 
 def convert_from_qiskit(qiskit_qc):
     from qiskit import QuantumCircuit as QiskitQuantumCircuit
+    from qiskit.circuit.library.standard_gates import CUGate
     from qiskit.circuit import ControlledGate, Gate, Instruction, ParameterExpression
 
     from qrisp import Barrier, Clbit, ControlledOperation, QuantumCircuit, Qubit
@@ -393,7 +394,7 @@ def convert_from_qiskit(qiskit_qc):
 
         params = qrisp_params
         base_phase = 0
-        if qiskit_op.name == "cu":
+        if isinstance(qiskit_op, CUGate):
             # The last parameter is the phase of the base gate
             base_phase = params.pop()
 
@@ -405,7 +406,12 @@ def convert_from_qiskit(qiskit_qc):
 
         # Custom gates are given by their definition, whatever their name
         if type(qiskit_op) in [Gate, Instruction] and qiskit_op.definition is not None:
-            op = convert_from_qiskit(qiskit_op.definition).to_gate(name=qiskit_op.name)
+            if qiskit_op.name == "gphase" and not len(qiskit_op.definition.data):
+                op = op_dic["gphase"](qiskit_op.definition.global_phase)
+            else:
+                # The name must not be mistaken for that of a Qrisp gate
+                name = qiskit_op.name + "_def" if qiskit_op.name in op_dic else qiskit_op.name
+                op = convert_from_qiskit(qiskit_op.definition).to_gate(name=name)
         # Qiskit RGate → PRXGate
         elif qiskit_op.name == "r":
             from qrisp.circuit import PRXGate as _PRXGate
-- 
2.43.0


From d35fd40b23637eb02906a184f05e0558729c696a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:58 +0000
Subject: [PATCH 039/130] fix: import the Qiskit sxdg gate as the Qrisp sx_dg
 gate

---
 src/qrisp/interface/converter/qiskit_converter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qrisp/interface/converter/qiskit_converter.py b/src/qrisp/interface/converter/qiskit_converter.py
index 4b62e56..c7ca4d1 100644
--- a/src/qrisp/interface/converter/qiskit_converter.py
+++ b/src/qrisp/interface/converter/qiskit_converter.py
@@ -293,6 +293,7 @@ def create_qiskit_instruction(op, params=[]):
 
 op_dic = {op().name: op for op in op_list}
 op_dic["u"] = op_dic["u3"]
+op_dic["sxdg"] = op_dic["sx_dg"]
 # The Qiskit u1 gate is a phase gate, the Qrisp u1 gate is a Z rotation
 op_dic["u1"] = op_dic["p"]
 
-- 
2.43.0


From 5dce7945e25651ea32cba319a338ee017d6c156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:58 +0000
Subject: [PATCH 040/130] fix: import single Qiskit parameters as symbols

---
 src/qrisp/interface/converter/qiskit_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/interface/converter/qiskit_converter.py b/src/qrisp/interface/converter/qiskit_converter.py
index c7ca4d1..eff7a71 100644
--- a/src/qrisp/interface/converter/qiskit_converter.py
+++ b/src/qrisp/interface/converter/qiskit_converter.py
@@ -381,7 +381,7 @@ def convert_from_qiskit(qiskit_qc):
             elif isinstance(p, np.number):
                 qrisp_params.append(p.item())
             elif isinstance(p, ParameterExpression):
-                lambd_expr = sympify(ParameterExpression.sympify(p))
+                lambd_expr = sympify(p.sympify())
 
                 qrisp_params.append(lambd_expr)
 
-- 
2.43.0


From f763eb07d6207fc0263580572ead986bdea73207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:31 +0000
Subject: [PATCH 041/130] fix: import global phases with free parameters from
 Qiskit

---
 src/qrisp/interface/converter/qiskit_converter.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/interface/converter/qiskit_converter.py b/src/qrisp/interface/converter/qiskit_converter.py
index eff7a71..d6d66f3 100644
--- a/src/qrisp/interface/converter/qiskit_converter.py
+++ b/src/qrisp/interface/converter/qiskit_converter.py
@@ -343,6 +343,8 @@ def convert_from_qiskit(qiskit_qc):
     from sympy import sympify
 
     global_phase = getattr(qiskit_qc, "global_phase", 0)
+    if isinstance(global_phase, ParameterExpression):
+        global_phase = sympify(global_phase.sympify())
 
     for i in range(len(qiskit_qc.data)):
         qiskit_op = qiskit_qc.data[i].operation
@@ -407,12 +409,13 @@ def convert_from_qiskit(qiskit_qc):
 
         # Custom gates are given by their definition, whatever their name
         if type(qiskit_op) in [Gate, Instruction] and qiskit_op.definition is not None:
-            if qiskit_op.name == "gphase" and not len(qiskit_op.definition.data):
-                op = op_dic["gphase"](qiskit_op.definition.global_phase)
+            definition = convert_from_qiskit(qiskit_op.definition)
+            if qiskit_op.num_qubits == 1 and [ins.op.name for ins in definition.data] == ["gphase"]:
+                op = definition.data[0].op
             else:
                 # The name must not be mistaken for that of a Qrisp gate
                 name = qiskit_op.name + "_def" if qiskit_op.name in op_dic else qiskit_op.name
-                op = convert_from_qiskit(qiskit_op.definition).to_gate(name=name)
+                op = definition.to_gate(name=name)
         # Qiskit RGate → PRXGate
         elif qiskit_op.name == "r":
             from qrisp.circuit import PRXGate as _PRXGate
@@ -463,7 +466,7 @@ def convert_from_qiskit(qiskit_qc):
     # Propagate Qiskit's global phase (stored as a circuit attribute,
     # not an instruction).  Dropping it changes the unitary — critical
     # for controlled operations built from gate definitions with phase.
-    if abs(global_phase) > 1e-10:
+    if isinstance(global_phase, Expr) or abs(global_phase) > 1e-10:
         qc.gphase(global_phase, qc.qubits[0])
 
     return qc
-- 
2.43.0


From 280b4ba4b641c030d2bb28dec031a1c544905d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:01 +0000
Subject: [PATCH 042/130] fix: respect conditions on the value 0 when exporting
 to Stim

---
 src/qrisp/interface/converter/stim_converter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qrisp/interface/converter/stim_converter.py b/src/qrisp/interface/converter/stim_converter.py
index ae6d3fb..a8c27e2 100644
--- a/src/qrisp/interface/converter/stim_converter.py
+++ b/src/qrisp/interface/converter/stim_converter.py
@@ -361,6 +361,9 @@ def qrisp_to_stim(
             # Apply the conditional gate for each target qubit
             for q_idx in qubit_indices:
                 stim_circuit.append(stim_gate, [rec_target, q_idx])
+                if op.ctrl_state == "0":
+                    # Conditioned on 0: also apply the gate unconditionally
+                    stim_circuit.append(stim_gate[1], [q_idx])
 
         # Unknown gate
         else:
-- 
2.43.0


From 908a244da7a6ec16135b69d5643aea9201fcc937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:31 +0000
Subject: [PATCH 043/130] fix: respect control states when exporting to Pytket

---
 src/qrisp/interface/converter/pytket_converter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qrisp/interface/converter/pytket_converter.py b/src/qrisp/interface/converter/pytket_converter.py
index d8986c6..84b6c8e 100644
--- a/src/qrisp/interface/converter/pytket_converter.py
+++ b/src/qrisp/interface/converter/pytket_converter.py
@@ -139,6 +139,9 @@ def pytket_converter(qc, boxFlag=False):
         if op.name in ["qb_alloc", "qb_dealloc"]:
             continue
 
+        elif isinstance(op, ControlledOperation) and "0" in op.ctrl_state:
+            tket_ins = CircBox(pytket_converter(op.definition, boxFlag=True))
+
         elif op.name == "cx":
             # maybe adjustment necessary here
             if hasattr(op, "ctrl_state"):
-- 
2.43.0


From a5f7f17b18d3cf70cbafc8bd7fd23b16838a5dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:31 +0000
Subject: [PATCH 044/130] fix: export phase gates to Pytket with their phase

---
 src/qrisp/interface/converter/pytket_converter.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/qrisp/interface/converter/pytket_converter.py b/src/qrisp/interface/converter/pytket_converter.py
index 84b6c8e..2b3f31a 100644
--- a/src/qrisp/interface/converter/pytket_converter.py
+++ b/src/qrisp/interface/converter/pytket_converter.py
@@ -37,7 +37,7 @@ def create_tket_instruction(op):
     elif op.name == "h":
         tket_ins = OpType.H
     elif op.name == "p":
-        tket_ins = OpType.Rz
+        tket_ins = OpType.U1
     elif op.name == "x":
         tket_ins = OpType.X
     elif op.name == "y":
@@ -162,10 +162,7 @@ def pytket_converter(qc, boxFlag=False):
                 tket_ins = OpType.CZ
 
         elif op.name == "cp":
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CRz
-            else:
-                tket_ins = OpType.Rz
+            tket_ins = OpType.CU1
 
         elif op.name == "sx":
             # bugged -> params empty
@@ -177,8 +174,6 @@ def pytket_converter(qc, boxFlag=False):
             tket_ins = OpType.SXdg
 
         elif op.name == "u1":
-            params[0] = params[0] / np.pi
-            # bugged
             tket_ins = OpType.Rz
         elif op.name == "id":
             params = []
-- 
2.43.0


From 7b0501279570caa552dc4a8df7c6d55635a4d617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:31 +0000
Subject: [PATCH 045/130] fix: export the sx gate to Pytket with the phase it
 has in Qrisp

---
 src/qrisp/interface/converter/pytket_converter.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/interface/converter/pytket_converter.py b/src/qrisp/interface/converter/pytket_converter.py
index 2b3f31a..6a30c64 100644
--- a/src/qrisp/interface/converter/pytket_converter.py
+++ b/src/qrisp/interface/converter/pytket_converter.py
@@ -165,13 +165,11 @@ def pytket_converter(qc, boxFlag=False):
             tket_ins = OpType.CU1
 
         elif op.name == "sx":
-            # bugged -> params empty
-            params = []
-            tket_ins = OpType.SX
+            params = [1 / 2]
+            tket_ins = OpType.Rx
         elif op.name == "sx_dg":
-            # bugged -> params empty
-            params = []
-            tket_ins = OpType.SXdg
+            params = [-1 / 2]
+            tket_ins = OpType.Rx
 
         elif op.name == "u1":
             tket_ins = OpType.Rz
-- 
2.43.0


From 02d3e7ff9f8ac97d8a77510db2a997932af8589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:31 +0000
Subject: [PATCH 046/130] fix: export global phases to Pytket

---
 src/qrisp/interface/converter/pytket_converter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/interface/converter/pytket_converter.py b/src/qrisp/interface/converter/pytket_converter.py
index 6a30c64..e05e321 100644
--- a/src/qrisp/interface/converter/pytket_converter.py
+++ b/src/qrisp/interface/converter/pytket_converter.py
@@ -139,6 +139,10 @@ def pytket_converter(qc, boxFlag=False):
         if op.name in ["qb_alloc", "qb_dealloc"]:
             continue
 
+        elif op.name == "gphase":
+            tket_qc.add_phase(params[0] / np.pi)
+            continue
+
         elif isinstance(op, ControlledOperation) and "0" in op.ctrl_state:
             tket_ins = CircBox(pytket_converter(op.definition, boxFlag=True))
 
-- 
2.43.0


From ab8312322b630b288604865134469c52c7093986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:06 +0000
Subject: [PATCH 047/130] fix: keep the phase of controlled gates imported from
 Cirq

---
 src/qrisp/interface/converter/cirq_converter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/qrisp/interface/converter/cirq_converter.py b/src/qrisp/interface/converter/cirq_converter.py
index 9ede12b..3d15165 100644
--- a/src/qrisp/interface/converter/cirq_converter.py
+++ b/src/qrisp/interface/converter/cirq_converter.py
@@ -411,6 +411,15 @@ def convert_from_cirq(cirq_circuit):
             raise ValueError(f"Gate {gate} is not supported by the Cirq to Qrisp converter.")
 
         # Wrap any ControlledGate layers (inside-out)
+        # Under control, the phase of the Cirq gate matters
+        if (ctrl_layers or extra_controls is not None) and cirq.has_unitary(inner_gate):
+            overlap = np.trace(qrisp_op.get_unitary().conj().T @ cirq.unitary(inner_gate))
+            if abs(np.angle(overlap)) > 1e-5:
+                temp_qc = QuantumCircuit(qrisp_op.num_qubits)
+                temp_qc.append(qrisp_op, temp_qc.qubits)
+                temp_qc.gphase(float(np.angle(overlap)), temp_qc.qubits[0])
+                qrisp_op = temp_qc.to_gate(name=qrisp_op.name + "_phase")
+
         for num_ctrl, ctrl_state in reversed(ctrl_layers):
             qrisp_op = ControlledOperation(
                 base_operation=qrisp_op,
-- 
2.43.0


From f9245f47bcc29c2a619b7180580f3f49f0c626c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:48 +0000
Subject: [PATCH 048/130] fix: drop the cached parameter functions of a bound
 operation

---
 src/qrisp/circuit/operation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 17de7dd..9f488db 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -417,6 +417,7 @@ class Operation:
             res.definition = res.definition.bind_parameters(subs_dic)
 
         res.abstract_params = set()
+        res.__dict__.pop("lambdified_params", None)
         res.__dict__.pop("unitary", None)
         res.__dict__.pop("unitary_array", None)
 
-- 
2.43.0


From 8fb9d89698e5dd593bb2cc7820ca5584209adee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:55 +0000
Subject: [PATCH 049/130] fix: extend at the top and far enough in in-place
 multiplication

---
 src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
index 0f5eef2..82c60d6 100644
--- a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
+++ b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
@@ -1036,8 +1036,9 @@ def inpl_mult(qf, mult_int, treat_overflow=True):
 
     if mult_int != 1:
         if treat_overflow:
-            extension_size = int(np.ceil(np.log2(abs(mult_int))))
-            qf.extend(extension_size, position=qf.size - 1)
+            # The factor -1 maps the smallest signed value out of range
+            extension_size = max(int(np.ceil(np.log2(abs(mult_int)))), 1)
+            qf.extend(extension_size, position=qf.size - qf.signed)
             if qf.signed:
                 cx(qf[-1], qf[-1 - extension_size : -1])
 
-- 
2.43.0


From 7655d360ffe196c46a3c863af600495969ee10a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:55 +0000
Subject: [PATCH 050/130] fix: refuse in-place multiplication with zero instead
 of hanging

---
 src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
index 82c60d6..306f1ea 100644
--- a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
+++ b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
@@ -1012,6 +1012,9 @@ def inpl_mult(qf, mult_int, treat_overflow=True):
             "Quantum inplace multiplication is restricted to classical values due to reversibility constraints"
         )
 
+    if mult_int == 0:
+        raise Exception("Tried to inplace-multiply QuantumFloat with zero")
+
     if mult_int < 0 and not qf.signed:
         raise Exception("Tried to inplace-multiply unsigned QuantumFloat with negative factor")
 
-- 
2.43.0


From de05ac3a2fcb9dd3615b8f087b94e04297a6f51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:55 +0000
Subject: [PATCH 051/130] fix: multiplying a quantum float with zero no longer
 hangs

---
 src/qrisp/qtypes/quantum_float.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qrisp/qtypes/quantum_float.py b/src/qrisp/qtypes/quantum_float.py
index 6d2a920..dd9913d 100644
--- a/src/qrisp/qtypes/quantum_float.py
+++ b/src/qrisp/qtypes/quantum_float.py
@@ -502,6 +502,9 @@ class QuantumFloat(QuantumVariable):
         if isinstance(other, QuantumFloat):
             return q_mult(self, other)
         elif isinstance(other, (int, np.integer)):
+            if other == 0:
+                return self.duplicate()
+
             bit_shift = 0
             while not other % 2:
                 other = other >> 1
-- 
2.43.0


From 2ca199804ff42d1a1dbdc4678c1cebfc9cb7159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:55 +0000
Subject: [PATCH 052/130] fix: hold the full range when multiplying signed
 floats with -1

---
 src/qrisp/qtypes/quantum_float.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/qtypes/quantum_float.py b/src/qrisp/qtypes/quantum_float.py
index dd9913d..2bc3760 100644
--- a/src/qrisp/qtypes/quantum_float.py
+++ b/src/qrisp/qtypes/quantum_float.py
@@ -511,8 +511,10 @@ class QuantumFloat(QuantumVariable):
                 bit_shift += 1
 
             if self.signed or other < 0:
+                # The factor -1 maps the smallest signed value out of range
+                extension = int(np.ceil(np.log2(abs(other)))) + int(self.signed and other == -1)
                 output_qf = QuantumFloat(
-                    self.msize + int(np.ceil(np.log2(abs(other)))),
+                    self.msize + extension,
                     self.exponent,
                     signed=True,
                 )
-- 
2.43.0


From 76855e37c08bb677167e144e09b6201b093cfbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:55 +0000
Subject: [PATCH 053/130] fix: never copy a mantissa digit of an unsigned float
 into a sign qubit

---
 src/qrisp/qtypes/quantum_float.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/qtypes/quantum_float.py b/src/qrisp/qtypes/quantum_float.py
index 2bc3760..f500e7e 100644
--- a/src/qrisp/qtypes/quantum_float.py
+++ b/src/qrisp/qtypes/quantum_float.py
@@ -1218,8 +1218,9 @@ def create_output_qf(operands, op):
 # Initiates the value of qf2 into qf1 where qf1 has to hold the value 0
 def copy_qf(qf1, qf2, ignore_overflow_errors=False, ignore_rounding_errors=False):
     # Lists that translate Qubit index => Significance
-    qf1_sign_list = [qf1.exponent + i for i in range(qf1.size)]
-    qf2_sign_list = [qf2.exponent + i for i in range(qf2.size)]
+    # (the sign qubit is not part of the mantissa)
+    qf1_sign_list = [qf1.exponent + i for i in range(qf1.msize)]
+    qf2_sign_list = [qf2.exponent + i for i in range(qf2.msize)]
 
     # Check overflow/underflow
     if max(qf1_sign_list) < max(qf2_sign_list) and not ignore_overflow_errors:
@@ -1234,10 +1235,6 @@ def copy_qf(qf1, qf2, ignore_overflow_errors=False, ignore_rounding_errors=False
         if not qf1.signed:
             raise Exception("Tried to copy signed into unsigend float")
 
-        # Remove last entry from significance list (last qubit is the sign qubit)
-        qf2_sign_list.pop(-1)
-        qf1_sign_list.pop(-1)
-
     for i in range(len(qf1_sign_list)):
         # If we are in a realm where both floats have overlapping significance
         # => CNOT into each other
-- 
2.43.0


From 947c19f2267e5f8dd734abdca14ad3339c615b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:56 +0000
Subject: [PATCH 054/130] fix: respect sign and exponent in powers of quantum
 floats

---
 src/qrisp/qtypes/quantum_float.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/qtypes/quantum_float.py b/src/qrisp/qtypes/quantum_float.py
index f500e7e..3794f8a 100644
--- a/src/qrisp/qtypes/quantum_float.py
+++ b/src/qrisp/qtypes/quantum_float.py
@@ -625,9 +625,20 @@ class QuantumFloat(QuantumVariable):
 
             return qf_inversion(self)
         elif power == 0:
-            res = self.duplicate()
+            res = QuantumFloat(1)
             res[:] = 1
             return res
+        elif not check_for_tracing_mode() and (self.signed or self.exponent != 0):
+            from qrisp.alg_primitives.arithmetic import polynomial_encoder
+
+            # The even power of the smallest signed value needs one more digit
+            res = QuantumFloat(
+                self.msize * power + int(self.signed and power % 2 == 0),
+                self.exponent * power,
+                signed=self.signed,
+            )
+            polynomial_encoder([self], res, sp.Symbol("x") ** power)
+            return res
         else:
             from qrisp import jasp_multiplyer
 
-- 
2.43.0


From 798a881d185aae37266d4560a11f4ee407afcf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:23:20 +0000
Subject: [PATCH 055/130] fix: compare quantum floats of different shapes for
 equality correctly

---
 .../alg_primitives/arithmetic/comparisons.py      | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/comparisons.py b/src/qrisp/alg_primitives/arithmetic/comparisons.py
index 0f7c872..208f825 100644
--- a/src/qrisp/alg_primitives/arithmetic/comparisons.py
+++ b/src/qrisp/alg_primitives/arithmetic/comparisons.py
@@ -225,8 +225,19 @@ def equal(qf_0, qf_1):
             for i in jrange(d):
                 cx(qf_1[i + l - e1], qf_0[i + l - e0])
 
-        mcx_qubits += qf_1.reg[: l - e1]
-        mcx_qubits += qf_1.reg[e0 + m0 - e1 : e1 + m1 - e1]
+            # Digits above the mantissa of the other float have to agree with the sign
+            if qf_1.signed and qf_0.signed:
+                for i in jrange(jnp.clip(e1 + m1 - e0, 0, m0), m0):
+                    cx(qf_1.sign(), qf_0[i])
+                for i in jrange(upper, m1):
+                    cx(qf_1.sign(), qf_1[i])
+
+        upper = jnp.clip(e0 + m0 - e1, 0, m1)
+        mcx_qubits += qf_1.reg[: jnp.minimum(l - e1, m1)]
+        mcx_qubits += qf_1.reg[upper:m1]
+        if qf_1.signed and qf_0.signed:
+            # Negative numbers differ if there is a gap between the mantissas
+            mcx_qubits += qf_1.reg[m1 : m1 + jnp.clip(-d, 0, 1)]
 
         with conjugate(conjugator)(qf_0, qf_1):
             mcx(mcx_qubits, eq_qbl, ctrl_state=0)
-- 
2.43.0


From 1b8a53449e46bf725678f598d7b6cd5b3c414b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:30:16 +0000
Subject: [PATCH 056/130] fix: correct the phase of the measurement based Jones
 Toffoli

---
 src/qrisp/alg_primitives/mcx_algs/circuit_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/mcx_algs/circuit_library.py b/src/qrisp/alg_primitives/mcx_algs/circuit_library.py
index 2152324..6aaa90a 100644
--- a/src/qrisp/alg_primitives/mcx_algs/circuit_library.py
+++ b/src/qrisp/alg_primitives/mcx_algs/circuit_library.py
@@ -145,7 +145,7 @@ selinger_toffoli_qc.h(2)
 # Implementation of the T-Depth 1 Toffoli found in https://arxiv.org/pdf/1212.5069.pdf
 jones_toffoli_qc = QuantumCircuit(5, 1)
 jones_toffoli_qc.append(selinger_toffoli_qc.to_gate("selinger_quasi_toffoli"), [0, 1, 3, 4])
-jones_toffoli_qc.s(3)
+jones_toffoli_qc.s_dg(3)
 jones_toffoli_qc.cx(3, 2)
 jones_toffoli_qc.h(3)
 jones_toffoli_qc.measure(3, 0)
-- 
2.43.0


From 749d9b8338f0cf632bb94a118d1f135ef1ec50b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:26 +0000
Subject: [PATCH 057/130] fix: retarget the control qubits of nested
 environments, too

---
 src/qrisp/misc/utility.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index 2fe8a2d..2ce988c 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -1354,6 +1354,22 @@ def retarget_instructions(data, source_qubits, target_qubits):
         if isinstance(instr, QuantumEnvironment):
             retarget_instructions(instr.original_data, source_qubits, target_qubits)
             retarget_instructions(instr.env_data, source_qubits, target_qubits)
+
+            # Environments that refer to control qubits need to follow
+            # the retargeted qubits, too
+            for attr in ["control_qb", "condition_truth_value"]:
+                qb = getattr(instr, attr, None)
+                if qb is not None and qb in source_qubits:
+                    setattr(instr, attr, target_qubits[source_qubits.index(qb)])
+            if isinstance(getattr(instr, "ctrl_qubits", None), list):
+                instr.ctrl_qubits = [
+                    (
+                        target_qubits[source_qubits.index(qb)]
+                        if qb in source_qubits
+                        else qb
+                    )
+                    for qb in instr.ctrl_qubits
+                ]
             continue
 
         for j in range(len(instr.qubits)):
-- 
2.43.0


From 0e996961609a17ee72124623b3bec597f0b5787d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:35 +0000
Subject: [PATCH 058/130] fix: respect the control state of the parent
 environment in condition environments

---
 src/qrisp/environments/control_environment.py | 29 +++++++++++--------
 .../environments/quantum_conditionals.py      | 17 +++++++++--
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/qrisp/environments/control_environment.py b/src/qrisp/environments/control_environment.py
index d75dd67..53489a2 100644
--- a/src/qrisp/environments/control_environment.py
+++ b/src/qrisp/environments/control_environment.py
@@ -195,18 +195,7 @@ class ControlEnvironment(QuantumEnvironment):
 
                 ctrl_qubits.append(self.parent_cond_env.condition_truth_value)
 
-                parent_ctrl_state = "1"
-
-                if isinstance(self.parent_cond_env, ControlEnvironment):
-                    if len(self.parent_cond_env.ctrl_qubits) == 1:
-                        if self.parent_cond_env.ctrl_state == "0" and not hasattr(self.parent_cond_env, "qbool"):
-                            parent_ctrl_state = "0"
-
-                    if self.parent_cond_env.invert:
-                        if parent_ctrl_state == "0":
-                            parent_ctrl_state = "1"
-                        elif parent_ctrl_state == "1":
-                            parent_ctrl_state = "0"
+                parent_ctrl_state = truth_value_ctrl_state(self.parent_cond_env)
 
                 cond_compile_ctrl_state = cond_compile_ctrl_state + parent_ctrl_state
 
@@ -392,6 +381,22 @@ class ControlEnvironment(QuantumEnvironment):
 # on the control_qubit are also CustomControlOperations.
 # For the conversion process, this function turns all Operations which are NO custom
 # controls into their regular controls.
+# Returns the state of the condition truth value qubit of the given environment,
+# for which the content of the environment is executed
+def truth_value_ctrl_state(env):
+    res = "1"
+
+    if isinstance(env, ControlEnvironment):
+        if len(env.ctrl_qubits) == 1:
+            if env.ctrl_state == "0" and not hasattr(env, "qbool"):
+                res = "0"
+
+        if env.invert:
+            res = "1" if res == "0" else "0"
+
+    return res
+
+
 def convert_to_custom_control(instruction, control_qubit, invert_control=False):
 
     from qrisp.environments import CustomControlOperation
diff --git a/src/qrisp/environments/quantum_conditionals.py b/src/qrisp/environments/quantum_conditionals.py
index fd309b7..6dd4b08 100644
--- a/src/qrisp/environments/quantum_conditionals.py
+++ b/src/qrisp/environments/quantum_conditionals.py
@@ -366,6 +366,7 @@ class ConditionEnvironment(QuantumEnvironment):
         from qrisp.environments.control_environment import (
             ControlEnvironment,
             convert_to_custom_control,
+            truth_value_ctrl_state,
         )
         from qrisp.qtypes.quantum_bool import QuantumBool
 
@@ -405,9 +406,16 @@ class ConditionEnvironment(QuantumEnvironment):
                     cond_eval_bool[0],
                 ]
 
+                toffoli_ctrl_state = truth_value_ctrl_state(self.parent_cond_env) + "1"
+
                 from qrisp import mcx
 
-                mcx(toffoli_qb_list, self.condition_truth_value, method="gray_pt")
+                mcx(
+                    toffoli_qb_list,
+                    self.condition_truth_value,
+                    method="gray_pt",
+                    ctrl_state=toffoli_ctrl_state,
+                )
 
             else:
                 # Without any parent environment we can simply synhesize the
@@ -516,7 +524,12 @@ class ConditionEnvironment(QuantumEnvironment):
             # this environments truth value
             if self.parent_cond_env is not None:
                 self.parent_cond_env.sub_condition_envs.extend(self.sub_condition_envs + [self])
-                mcx(toffoli_qb_list, self.qbool, method="gray_pt_inv")
+                mcx(
+                    toffoli_qb_list,
+                    self.qbool,
+                    method="gray_pt_inv",
+                    ctrl_state=toffoli_ctrl_state,
+                )
                 self.qbool.delete()
 
             # We now uncompute the environments' truth value
-- 
2.43.0


From ed191fe979ac9f3e0ce29524866b141c76a7792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:35 +0000
Subject: [PATCH 059/130] fix: uncompute temporary conditions around iteration
 environments

---
 src/qrisp/environments/iteration_environment.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/environments/iteration_environment.py b/src/qrisp/environments/iteration_environment.py
index 36bf057..8841d36 100644
--- a/src/qrisp/environments/iteration_environment.py
+++ b/src/qrisp/environments/iteration_environment.py
@@ -146,6 +146,10 @@ class IterationEnvironment(QuantumEnvironment):
             if exception_value is None:
                 raise Exception("Tried to invoke IterationEnvironment with code creating/deleting QuantumVariables")
 
+        # Don't keep the QuantumVariables referenced, otherwise temporary
+        # QuantumBools of surrounding environments are not uncomputed
+        self.inital_qvs = None
+
         QuantumEnvironment.__exit__(self, exception_type, exception_value, traceback)
 
     def compile(self):
-- 
2.43.0


From 906edd5d3149aef3d41c9e44fd53e64cabd9a194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:47:35 +0000
Subject: [PATCH 060/130] fix: keep control and target qubits apart when
 uncomputing gates sharing several qubits

---
 src/qrisp/permeability/permeability_dag.py    | 25 +++++++++++++------
 .../permeability/qc_transformations/unqomp.py |  3 ++-
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/qrisp/permeability/permeability_dag.py b/src/qrisp/permeability/permeability_dag.py
index 829b08e..eafcc08 100644
--- a/src/qrisp/permeability/permeability_dag.py
+++ b/src/qrisp/permeability/permeability_dag.py
@@ -227,9 +227,20 @@ class PermeabilityGraph(nx.DiGraph):
             return
 
         if self.has_edge(in_node, out_node):
-            nx.DiGraph.get_edge_data(self, in_node, out_node)["qubits"].extend(qubits)
+            data = nx.DiGraph.get_edge_data(self, in_node, out_node)
+            data["qubits"].extend(qubits)
+            for qb in qubits:
+                data["qubit_types"].setdefault(qb, edge_type)
         else:
-            nx.DiGraph.add_edge(self, in_node, out_node, edge_type=edge_type, qubits=list(qubits))
+            # An edge can connect several qubits with differing types
+            nx.DiGraph.add_edge(
+                self,
+                in_node,
+                out_node,
+                edge_type=edge_type,
+                qubits=list(qubits),
+                qubit_types={qb: edge_type for qb in qubits},
+            )
 
     def get_target_qubits(self, node):
         """Returns the target qubits of a node, i.e. the qubits that have either neutral or X-permeability.
@@ -257,8 +268,7 @@ class PermeabilityGraph(nx.DiGraph):
 
         in_edges = self.in_edges(node, data=True)
         for in_node, _, data in in_edges:
-            if data["edge_type"] != "Z":
-                target_qubits.extend(data["qubits"])
+            target_qubits.extend([qb for qb in data["qubits"] if data["qubit_types"][qb] != "Z"])
 
         return target_qubits
 
@@ -291,8 +301,7 @@ class PermeabilityGraph(nx.DiGraph):
 
         in_edges = self.in_edges(node, data=True)
         for in_node, _, data in in_edges:
-            if data["edge_type"] == "Z":
-                control_qubits.extend(data["qubits"])
+            control_qubits.extend([qb for qb in data["qubits"] if data["qubit_types"][qb] == "Z"])
 
         return control_qubits
 
@@ -323,7 +332,7 @@ class PermeabilityGraph(nx.DiGraph):
 
         in_edges = self.in_edges(node, data=True)
         for in_node, _, data in in_edges:
-            if data["edge_type"] == "Z":
+            if "Z" in data["qubit_types"].values():
                 control_nodes.append(in_node)
 
         return control_nodes
@@ -355,7 +364,7 @@ class PermeabilityGraph(nx.DiGraph):
 
         in_edges = self.in_edges(node, data=True)
         for in_node, _, data in in_edges:
-            if data["edge_type"] != "Z":
+            if any(edge_type != "Z" for edge_type in data["qubit_types"].values()):
                 target_nodes.append(in_node)
 
         return target_nodes
diff --git a/src/qrisp/permeability/qc_transformations/unqomp.py b/src/qrisp/permeability/qc_transformations/unqomp.py
index f34f3e8..40240b2 100644
--- a/src/qrisp/permeability/qc_transformations/unqomp.py
+++ b/src/qrisp/permeability/qc_transformations/unqomp.py
@@ -281,7 +281,8 @@ def uncompute_node(pdag, node, uncomp_qbs, recompute_qubits=[]):
     # This dictionary will hold the control qubits of each control edge
     ctrl_qubit_dic = {}
     for c in ctrls:
-        ctrl_qubit_dic[c] = pdag.get_edge_qubits(c, node)
+        qubit_types = pdag.get_edge_data(c, node)["qubit_types"]
+        ctrl_qubit_dic[c] = [qb for qb in pdag.get_edge_qubits(c, node) if qubit_types[qb] == "Z"]
 
     while len(ctrls):
         # Set alias
-- 
2.43.0


From 0b9c87deac92167d431b15eb6fbac75f08e06f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:52 +0000
Subject: [PATCH 061/130] fix: keep the control state of retargeted
 zero-controlled environments

---
 src/qrisp/environments/control_environment.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/environments/control_environment.py b/src/qrisp/environments/control_environment.py
index 53489a2..e8fc51e 100644
--- a/src/qrisp/environments/control_environment.py
+++ b/src/qrisp/environments/control_environment.py
@@ -212,6 +212,13 @@ class ControlEnvironment(QuantumEnvironment):
                     method=method,
                 )
 
+            # If the environment's qubit has been replaced by the truth value
+            # qubit, the already recorded instructions expect the same
+            # control state as for the original qubit
+            retargeted_zero_ctrl = len(ctrl_qubits) == 2 and self.ctrl_state == "0"
+            if retargeted_zero_ctrl:
+                x(self.condition_truth_value)
+
             perm_lock(ctrl_qubits)
             # unlock(self.condition_truth_value)
 
@@ -289,7 +296,7 @@ class ControlEnvironment(QuantumEnvironment):
                         )
                     continue
 
-                if len(ctrl_qubits) == 1:
+                if len(self.ctrl_qubits) == 1:
                     ctrl_state = self.ctrl_state
                 else:
                     ctrl_state = "1"
@@ -332,6 +339,9 @@ class ControlEnvironment(QuantumEnvironment):
             if inversion_tracker == -1:
                 x(self.condition_truth_value)
 
+            if retargeted_zero_ctrl:
+                x(self.condition_truth_value)
+
             if len(ctrl_qubits) > 1:
                 if len(ctrl_qubits) > 5:
                     method = "auto"
@@ -388,7 +398,7 @@ def truth_value_ctrl_state(env):
 
     if isinstance(env, ControlEnvironment):
         if len(env.ctrl_qubits) == 1:
-            if env.ctrl_state == "0" and not hasattr(env, "qbool"):
+            if env.ctrl_state == "0":
                 res = "0"
 
         if env.invert:
-- 
2.43.0


From 9d4c1108875f5bfe737aaa9e7b1dae13a45a0a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:38 +0000
Subject: [PATCH 062/130] fix: unregister exactly the deleted variable from the
 live variables

---
 src/qrisp/core/quantum_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/core/quantum_variable.py b/src/qrisp/core/quantum_variable.py
index ed7f7f8..0b09d00 100644
--- a/src/qrisp/core/quantum_variable.py
+++ b/src/qrisp/core/quantum_variable.py
@@ -473,7 +473,7 @@ class QuantumVariable:
                 QuantumVariable.live_qvs.pop(i)
                 continue
 
-            if QuantumVariable.live_qvs[i]().name == self.name:
+            if QuantumVariable.live_qvs[i]() is self:
                 QuantumVariable.live_qvs.pop(i)
                 break
 
-- 
2.43.0


From f6e1c6721d83218432faaab80545632a377079b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:15 +0000
Subject: [PATCH 063/130] fix: keep the variable intact if the verification of
 reduce fails

---
 src/qrisp/core/quantum_variable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/core/quantum_variable.py b/src/qrisp/core/quantum_variable.py
index 0b09d00..ce6b2ca 100644
--- a/src/qrisp/core/quantum_variable.py
+++ b/src/qrisp/core/quantum_variable.py
@@ -930,6 +930,9 @@ class QuantumVariable:
         if not set(qubits).issubset(self.reg):
             raise Exception("Tried to reduce QuantumVariable by invalid qubits")
 
+        # Perform the verification before anything is modified
+        self.qs.clear_qubits(qubits, verify)
+
         # Find Qubits to be cleared
         for i in range(len(qubits)):
             for j in range(self.size):
@@ -939,7 +942,6 @@ class QuantumVariable:
                     self.reg.pop(j)
                     break
 
-        self.qs.clear_qubits(qubits, verify)
         # Adjust variable size
 
     def get_measurement(
-- 
2.43.0


From d3a048ff24af0a04deaca67f115eb4298edf4e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:15 +0000
Subject: [PATCH 064/130] fix: keep the upper bits when combining variables of
 different sizes with xor

---
 src/qrisp/core/quantum_variable.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qrisp/core/quantum_variable.py b/src/qrisp/core/quantum_variable.py
index ce6b2ca..15dfaaa 100644
--- a/src/qrisp/core/quantum_variable.py
+++ b/src/qrisp/core/quantum_variable.py
@@ -392,6 +392,12 @@ class QuantumVariable:
             cx(self[i], and_res[i])
             cx(other[i], and_res[i])
 
+        for i in range(min(len(self), len(other)), len(self)):
+            cx(self[i], and_res[i])
+
+        for i in range(min(len(self), len(other)), len(other)):
+            cx(other[i], and_res[i])
+
         return and_res
 
     def __lshift__(self, other):
-- 
2.43.0


From c719310182e88f10454cc958299839f1cfb1634e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:15 +0000
Subject: [PATCH 065/130] fix: refuse to initialize used quantum floats from
 other quantum floats

---
 src/qrisp/qtypes/quantum_float.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qrisp/qtypes/quantum_float.py b/src/qrisp/qtypes/quantum_float.py
index 3794f8a..4f0ee53 100644
--- a/src/qrisp/qtypes/quantum_float.py
+++ b/src/qrisp/qtypes/quantum_float.py
@@ -949,6 +949,12 @@ class QuantumFloat(QuantumVariable):
         return self[-1]
 
     def init_from(self, other, ignore_rounding_errors=False, ignore_overflow_errors=False):
+        from qrisp.misc import check_if_fresh
+
+        if not check_for_tracing_mode() and not len(self.qs.env_stack):
+            if not check_if_fresh(self.reg, self.qs):
+                raise Exception("Tried to initialize qubits which are not fresh anymore")
+
         copy_qf(
             self,
             other,
-- 
2.43.0


From 782bc0d61d40e1799660e1d769577759fcc2a1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:23 +0000
Subject: [PATCH 066/130] fix: keep the phases of controlled quantum-quantum
 Gidney additions

---
 .../alg_primitives/arithmetic/adders/gidney_adder.py   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py
index bcdefe7..7c47522 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py
@@ -267,9 +267,9 @@ def _apply_quantum_carry_chain(gidney_anc, a_qbs, b_qbs, n, c_in_qb, c_out_qb, c
     # MSB carry-out and sum.
     # The carry from position n-2 toggles b_qbs[n-1].
     if ctrl is not None:
-        mcx([ctrl, gidney_anc[n - 2]], b_qbs[n - 1], method="gidney")
+        mcx([ctrl, gidney_anc[n - 2]], b_qbs[n - 1])
         if c_out_qb is None:
-            mcx([ctrl, a_qbs[n - 1]], b_qbs[n - 1], method="gidney")
+            mcx([ctrl, a_qbs[n - 1]], b_qbs[n - 1])
     # When c_out_qb is None:  b_qbs[n-1] is b's MSB
     #   — both the carry and a_qbs[n-1] contribute (full b += a).
     # When c_out_qb is not None:  c_out_qb was appended to b_qbs,
@@ -290,7 +290,7 @@ def _apply_quantum_carry_chain(gidney_anc, a_qbs, b_qbs, n, c_in_qb, c_out_qb, c
         if ctrl is not None:
             # ctrl is already in the qubit list, so CustomControlEnvironment
             # takes the targeting_control=True path (no double-add).
-            mcx([ctrl, a_qbs[i]], b_qbs[i], method="gidney")
+            mcx([ctrl, a_qbs[i]], b_qbs[i])
             cx(gidney_anc[i - 1], a_qbs[i])
             cx(gidney_anc[i - 1], b_qbs[i])
         else:
@@ -484,7 +484,7 @@ def gidney_adder(
     if c_in_qb is not None:
         with control(n <= 1):
             if ctrl is not None:
-                mcx([ctrl, c_in_qb], b_qbs[0], method="gidney")
+                mcx([ctrl, c_in_qb], b_qbs[0])
             else:
                 cx(c_in_qb, b_qbs[0])
 
@@ -498,7 +498,7 @@ def gidney_adder(
     # The carry chain handles positions 1 .. n-1; the least-significant
     # bit is the only remaining XOR not yet performed.
     if ctrl is not None:
-        mcx([ctrl, a_qbs[0]], b_qbs[0], method="gidney")
+        mcx([ctrl, a_qbs[0]], b_qbs[0])
     else:
         cx(a_qbs[0], b_qbs[0])
 
-- 
2.43.0


From e6b095f430f246213264a2fafee7b885723887fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:21:10 +0000
Subject: [PATCH 067/130] fix: release the padding qubits of carry-lookahead
 additions

---
 .../adders/qcla/quantum_quantum/qq_sum_path.py     | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py b/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py
index 5308fe1..baa7a11 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py
@@ -39,6 +39,7 @@ def qq_sum_path(a, b, c, R):
 
             # If a_block and b_block have different sizes, we create a padding
             # variable to fill up the remaining entries
+            padding_var = None
             if not len(a_block) == len(b_block):
                 padding_var = QuantumVariable(len(b_block) - len(a_block))
                 a_block = a_block + list(padding_var)
@@ -52,10 +53,8 @@ def qq_sum_path(a, b, c, R):
                 gidney_adder(a_block, b_block, c[i - 1])
 
             # Delete carry var
-            try:
-                padding_var.delete(verify=bool(verify_manual_uncomputations[0]))
-            except NameError:
-                pass
+            if padding_var is not None:
+                padding_var.delete(verify=False)
 
         # This loop treats the case that len(a) != len(b)
         # In this case we need to perform the increment function on the remaining
@@ -145,6 +144,7 @@ def qq_sum_path_direct_uncomputation(a, b, c, R):
 
         # If a_block and b_block have different sizes, we create a padding
         # variable to fill up the remaining entries
+        padding_var = None
         if not len(a_block) == len(b_block):
             padding_var = QuantumVariable(len(b_block) - len(a_block))
             a_block = a_block + list(padding_var)
@@ -164,7 +164,5 @@ def qq_sum_path_direct_uncomputation(a, b, c, R):
             gidney_adder(a_block, b_block, c_in=c[i - 1])
 
         # Delete carry var
-        try:
-            padding_var.delete(verify=bool(verify_manual_uncomputations[0]))
-        except NameError:
-            pass
+        if padding_var is not None:
+            padding_var.delete(verify=False)
-- 
2.43.0


From b90a484164b77fa1a1c287c09f0f2dd2c3e8a6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:12 +0000
Subject: [PATCH 068/130] fix: reduce classical factors of modular products and
 refuse those without exact circuit

---
 src/qrisp/qtypes/quantum_modulus.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/qtypes/quantum_modulus.py b/src/qrisp/qtypes/quantum_modulus.py
index e057abc..1a9975e 100644
--- a/src/qrisp/qtypes/quantum_modulus.py
+++ b/src/qrisp/qtypes/quantum_modulus.py
@@ -109,6 +109,26 @@ def _normalize_modular_arithmetic_operand(qm, other):
     return qm.encoder(other % qm.modulus)
 
 
+def _normalize_modular_factor(qm, other, inplace):
+    """Reduce a classical factor and refuse products the Montgomery reduction can't compute."""
+    if not isinstance(other, (int, np.integer)):
+        return other
+    # If other is a np.integer, convert to Python int for compatibility with best_montgomery_shift
+    other = int(other)
+    if not isinstance(qm.modulus, (int, np.integer)):
+        return other
+
+    modulus = int(qm.modulus)
+    other = other % modulus
+
+    if modulus % 2 == 0 and other != int(inplace):
+        raise ValueError("Quantum modular multiplication requires an odd modulus")
+    if inplace and np.gcd(other, modulus) != 1:
+        raise ValueError(f"Tried to perform in-place multiplication with {other}, which is not invertible modulo {modulus}")
+
+    return other
+
+
 def comparison_wrapper(func):
 
     def res_func(self, other):
@@ -407,6 +427,7 @@ class QuantumModulus(QuantumFloat):
                 cq_montgomery_multiply,
             )
 
+            other = _normalize_modular_factor(self, other, inplace=False)
             shift = best_montgomery_shift(other, self.modulus)
             if isinstance(self.modulus, BigInteger):
                 if not isinstance(other, BigInteger):
@@ -432,9 +453,7 @@ class QuantumModulus(QuantumFloat):
                 cq_montgomery_multiply_inplace,
             )
 
-            # If other is a np.integer, convert to Python int for compatibility with best_montgomery_shift
-            if isinstance(other, np.integer):
-                other = int(other)
+            other = _normalize_modular_factor(self, other, inplace=True)
 
             shift = best_montgomery_shift(other, self.modulus)
             if isinstance(self.modulus, BigInteger):
-- 
2.43.0


From 1b31b2e004a300e485031faf10f3c27f8e6bcbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:04 +0000
Subject: [PATCH 069/130] fix: let the Cuccaro adder take qubit lists and
 oversized classical operands

---
 .../arithmetic/adders/cuccaro_adder.py           | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
index dade943..fff97b3 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
@@ -20,7 +20,7 @@ import jax.numpy as jnp
 from qrisp.circuit import Qubit
 from qrisp.core import QuantumVariable, cx, mcx, x
 from qrisp.environments import conjugate, custom_control
-from qrisp.jasp import check_for_tracing_mode, jlen, jrange
+from qrisp.jasp import DynamicQubitArray, check_for_tracing_mode, jlen, jrange
 from qrisp.misc import int_encoder
 from qrisp.qtypes import QuantumBool, QuantumFloat
 
@@ -86,9 +86,13 @@ def cuccaro_adder(
 
     """
     # convert the classical input to a quantum input
-    if not isinstance(a, QuantumVariable):
+    if not isinstance(a, (QuantumVariable, DynamicQubitArray, list)):
         # create a QuantumFloat of the same size as the other quantum input
-        q_a = b.duplicate()
+        q_a = b.duplicate() if isinstance(b, QuantumVariable) else QuantumFloat(jlen(b))
+
+        # like quantum inputs, classical inputs are truncated to the size of b
+        if not check_for_tracing_mode():
+            a = int(a) % (1 << jlen(b))
 
         with conjugate(int_encoder)(q_a, a):
             cuccaro_adder(q_a, b, c_in=c_in, c_out=c_out, ctrl=ctrl)
@@ -98,13 +102,13 @@ def cuccaro_adder(
         q_a.delete()
         return
 
-    if not isinstance(b, QuantumVariable):
+    if not isinstance(b, (QuantumVariable, DynamicQubitArray, list)):
         raise ValueError("The second argument must be of type QuantumVariable.")
 
     # when the inputs are of unequal length
     # pad the size of the input with the smaller size
-    dim_a = a.size
-    dim_b = b.size
+    dim_a = jlen(a)
+    dim_b = jlen(b)
 
     max_size = jnp.maximum(dim_a, dim_b)
 
-- 
2.43.0


From 4b96fe106142479a213b4fdc456339930765f6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:02:49 +0000
Subject: [PATCH 070/130] fix: control the carry-out of controlled Cuccaro
 additions

---
 src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
index fff97b3..258a5aa 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
@@ -156,7 +156,10 @@ def cuccaro_adder(
 
     # cnot
     if c_out is not None:
-        cx(a[-1], ancilla2)
+        if ctrl is None:
+            cx(a[-1], ancilla2)
+        else:
+            mcx([ctrl, a[-1]], ancilla2)
 
     if ctrl is None:
         # iterator uma gate application
-- 
2.43.0


From 304127113d82a72ce8ff1fecd4d90982a4c603e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:20 +0000
Subject: [PATCH 071/130] fix: keep track of parameters that are bound to
 expressions

---
 src/qrisp/circuit/operation.py       | 2 +-
 src/qrisp/circuit/quantum_circuit.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 9f488db..17c3301 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -416,7 +416,7 @@ class Operation:
         if res.definition is not None:
             res.definition = res.definition.bind_parameters(subs_dic)
 
-        res.abstract_params = set()
+        res.abstract_params = set().union(*[getattr(val, "free_symbols", ()) for val in repl_args])
         res.__dict__.pop("lambdified_params", None)
         res.__dict__.pop("unitary", None)
         res.__dict__.pop("unitary_array", None)
diff --git a/src/qrisp/circuit/quantum_circuit.py b/src/qrisp/circuit/quantum_circuit.py
index 36d3030..f30893b 100644
--- a/src/qrisp/circuit/quantum_circuit.py
+++ b/src/qrisp/circuit/quantum_circuit.py
@@ -1120,7 +1120,7 @@ class QuantumCircuit:
 
             subs_circ.data.append(Instruction(op, ins.qubits, ins.clbits))
 
-        subs_circ.abstract_params = set()
+        subs_circ.abstract_params = set().union(*[ins.op.abstract_params for ins in subs_circ.data])
         return subs_circ
 
     def to_latex(self, **kwargs) -> str:
-- 
2.43.0


From 57d7a317d96c2f4c687df3f1fc47995d0c15d00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:53 +0000
Subject: [PATCH 072/130] fix: let depth-unreduced carry-lookahead additions
 take shorter operands

---
 .../arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py   | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py b/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py
index baa7a11..9d98aaf 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py
@@ -67,10 +67,8 @@ def qq_sum_path(a, b, c, R):
                 continue
 
             # Perform incrementation function
-            if R * j == 0:
-                lin_incr(b_block, c_out=c[j])
-            else:
-                lin_incr(b_block, c_in=c[j - 1], c_out=c[j])
+            # The carries are uncomputed after the sum path
+            lin_incr(b_block, c_in=c[j - 1])
 
 
 # This function is a version of the sum path that requires no uncomputation after
-- 
2.43.0


From 9de712b1fa861ee6f51ee56952003ae3cb4102b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:06:15 +0000
Subject: [PATCH 073/130] fix: release the helper of empty multi-controlled
 environments

---
 src/qrisp/environments/control_environment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qrisp/environments/control_environment.py b/src/qrisp/environments/control_environment.py
index e8fc51e..096ebe2 100644
--- a/src/qrisp/environments/control_environment.py
+++ b/src/qrisp/environments/control_environment.py
@@ -356,6 +356,9 @@ class ControlEnvironment(QuantumEnvironment):
                 )
                 self.qbool.delete()
 
+        elif len(self.ctrl_qubits) > 1:
+            self.qbool.delete()
+
         if self.parent_cond_env is not None:
             self.parent_cond_env.sub_condition_envs.extend(self.sub_condition_envs + [self])
 
-- 
2.43.0


From b33bc2fc5414db87304f3e6b917179d8c6a63aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:14:53 +0000
Subject: [PATCH 074/130] fix: let Maslov gates be applied repeatedly

---
 src/qrisp/core/gate_application_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index 3be22a1..3274ead 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -572,7 +572,7 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
         from qrisp import QuantumBool
 
         if n >= 3:
-            ancilla = [QuantumBool(name="maslov_anc_")]
+            ancilla = [QuantumBool(name="maslov_anc*")]
         else:
             ancilla = []
         append_operation(maslov_mcx(n, ctrl_state), qubits_0 + ancilla + qubits_1)
-- 
2.43.0


From a5f5602b823bd84fec7ca28e4db5dfa1846d7f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:14:53 +0000
Subject: [PATCH 075/130] fix: undo the phases of the four-controlled Khattar
 gate

---
 src/qrisp/alg_primitives/mcx_algs/khattar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/mcx_algs/khattar.py b/src/qrisp/alg_primitives/mcx_algs/khattar.py
index bf81040..c978bc2 100644
--- a/src/qrisp/alg_primitives/mcx_algs/khattar.py
+++ b/src/qrisp/alg_primitives/mcx_algs/khattar.py
@@ -113,9 +113,9 @@ def cca_4ctrls(ctrls, target):
 
     mcx([ctrls[1], cca4_anc[0]], target[0])
 
-    mcx([ctrls[2], ctrls[3]], ctrls[1], method="gray_pt")
+    mcx([ctrls[3], ctrls[2]], ctrls[1], method="gray_pt_inv")
     x(ctrls[1])
-    mcx([ctrls[0], ctrls[1]], cca4_anc[0], method="gray_pt")
+    mcx([ctrls[1], ctrls[0]], cca4_anc[0], method="gray_pt_inv")
 
     cca4_anc.delete()
 
-- 
2.43.0


From d73ea075592bac9a0ca8315ea88f01da62dfebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:14:53 +0000
Subject: [PATCH 076/130] fix: apply multi-controlled Z and phase gates on
 single qubits

---
 src/qrisp/core/gate_application_functions.py | 22 +++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index 3274ead..2e99f9d 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -660,7 +660,10 @@ def mcz(qubits, method="auto", ctrl_state=-1, num_ancilla=1):
             x(qubits[-1])
 
         h(qubits[-1])
-        mcx(qubits[:-1], qubits[-1], method=method, ctrl_state=ctrl_state[:-1])
+        if n > 1:
+            mcx(qubits[:-1], qubits[-1], method=method, ctrl_state=ctrl_state[:-1])
+        else:
+            x(qubits[-1])
         h(qubits[-1])
 
         if ctrl_state[-1] == "0":
@@ -683,12 +686,15 @@ def mcz(qubits, method="auto", ctrl_state=-1, num_ancilla=1):
             x(qubits[-1])
 
         h(qubits[-1])
-        mcx(
-            qubits[:-1],
-            qubits[-1],
-            method=method,
-            ctrl_state=ctrl_state & ((1 << (n - 1)) - 1),
-        )
+        if not isinstance(qubits, list) or n > 1:
+            mcx(
+                qubits[:-1],
+                qubits[-1],
+                method=method,
+                ctrl_state=ctrl_state & ((1 << (n - 1)) - 1),
+            )
+        with control(n == 1):
+            x(qubits[-1])
         h(qubits[-1])
 
         with control((ctrl_state >> (n - 1)) & 1 == 0):
@@ -810,6 +816,8 @@ def mcp(phi, qubits, method="auto", ctrl_state=-1):
         if check_for_tracing_mode():
             jasp_balauca_mcp(phi, qubits, ctrl_state)
             return
+        elif n == 1:
+            return mcp(phi, qubits, method="gray", ctrl_state=ctrl_state)
         else:
             balauca_mcp(phi, qubits, ctrl_state=ctrl_state)
         return qubits
-- 
2.43.0


From 6c6fff49ec6ee6a6a358c24d534f5c6e5d353ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:15:02 +0000
Subject: [PATCH 077/130] fix: read control strings in the same order in traced
 programs

---
 src/qrisp/core/gate_application_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index 2e99f9d..2f4d46c 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -528,6 +528,8 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
         qubits_0 = controls
         if isinstance(qubits_0, (QuantumVariable, DynamicQubitArray)) and method not in ["balauca", "khattar"]:
             method = "balauca"
+        if method == "balauca" and isinstance(ctrl_state, str):
+            ctrl_state = int(ctrl_state[::-1], 2)
         qubits_1 = [target]
     from qrisp.alg_primitives.mcx_algs import (
         balauca_dirty,
@@ -712,7 +714,7 @@ def mcz(qubits, method="auto", ctrl_state=-1, num_ancilla=1):
         if method == "auto":
             method = "balauca"
         if isinstance(ctrl_state, str):
-            ctrl_state = int(ctrl_state, 2)
+            ctrl_state = int(ctrl_state[::-1], 2)
         return jasp_mcz_inner(qubits, method=method, ctrl_state=ctrl_state)
 
     if method in ["gray", "auto"]:
@@ -795,7 +797,7 @@ def mcp(phi, qubits, method="auto", ctrl_state=-1):
         if method == "auto":
             method = "balauca"
         if isinstance(ctrl_state, str):
-            ctrl_state = int(ctrl_state, 2)
+            ctrl_state = int(ctrl_state[::-1], 2)
 
     if method == "gray" or method == "gray_pt":
         if ctrl_state[-1] == "0":
-- 
2.43.0


From 890bf59a7e2317854e97fbc2873999b67243813a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:15:02 +0000
Subject: [PATCH 078/130] fix: trace multi-controlled gates on short qubit
 lists

---
 src/qrisp/alg_primitives/mcx_algs/balauca.py | 84 +++++++++++---------
 src/qrisp/alg_primitives/mcx_algs/khattar.py | 48 ++++++-----
 2 files changed, 76 insertions(+), 56 deletions(-)

diff --git a/src/qrisp/alg_primitives/mcx_algs/balauca.py b/src/qrisp/alg_primitives/mcx_algs/balauca.py
index 9e908c9..3107077 100644
--- a/src/qrisp/alg_primitives/mcx_algs/balauca.py
+++ b/src/qrisp/alg_primitives/mcx_algs/balauca.py
@@ -488,23 +488,29 @@ def jasp_balauca_mcx(ctrls, target, ctrl_state):
         ctrl_state = cond(ctrl_state == -1, lambda x: x + 2**N, lambda x: x, ctrl_state)
 
     with conjugate(ctrl_state_conjugator)(ctrls, ctrl_state):
-        with control(N == 1):
-            cx(ctrls[0], target[0])
-
-        with control(N == 2):
-            mcx([ctrls[0], ctrls[1]], target[0])
-
-        with control(N > 2):
-            balauca_anc = QuantumVariable(N - 2 + N % 2)
-            with conjugate(jasp_balauca_helper)(ctrls, balauca_anc):
-                mcx(
-                    [
-                        balauca_anc[balauca_anc.size - 1],
-                        balauca_anc[balauca_anc.size - 2],
-                    ],
-                    target[0],
-                )
-            balauca_anc.delete()
+        # Lists have a static length, the other cases can therefore not be traced
+        static = isinstance(ctrls, list)
+
+        if not static or N == 1:
+            with control(N == 1):
+                cx(ctrls[0], target[0])
+
+        if not static or N == 2:
+            with control(N == 2):
+                mcx([ctrls[0], ctrls[1]], target[0])
+
+        if not static or N > 2:
+            with control(N > 2):
+                balauca_anc = QuantumVariable(N - 2 + N % 2)
+                with conjugate(jasp_balauca_helper)(ctrls, balauca_anc):
+                    mcx(
+                        [
+                            balauca_anc[balauca_anc.size - 1],
+                            balauca_anc[balauca_anc.size - 2],
+                        ],
+                        target[0],
+                    )
+                balauca_anc.delete()
 
 
 @qache
@@ -519,26 +525,32 @@ def jasp_balauca_mcp(phi, ctrls, ctrl_state):
     target = QuantumBool()
 
     with conjugate(ctrl_state_conjugator)(ctrls, ctrl_state):
-        with control(N == 1):
-            p(phi, ctrls[0])
-
-        with control(N == 2):
-            with conjugate(mcx)([ctrls[0], ctrls[1]], target[0], method="gray_pt"):
-                p(phi, target[0])
-
-        with control(N > 2):
-            balauca_anc = QuantumVariable(N + N % 2 - 1)
-            with conjugate(jasp_balauca_helper)(ctrls, balauca_anc):
-                with conjugate(mcx)(
-                    [
-                        balauca_anc[balauca_anc.size - 1],
-                        balauca_anc[balauca_anc.size - 2],
-                    ],
-                    target[0],
-                    method="gray_pt",
-                ):
+        # Lists have a static length, the other cases can therefore not be traced
+        static = isinstance(ctrls, list)
+
+        if not static or N == 1:
+            with control(N == 1):
+                p(phi, ctrls[0])
+
+        if not static or N == 2:
+            with control(N == 2):
+                with conjugate(mcx)([ctrls[0], ctrls[1]], target[0], method="gray_pt"):
                     p(phi, target[0])
-            balauca_anc.delete()
+
+        if not static or N > 2:
+            with control(N > 2):
+                balauca_anc = QuantumVariable(N + N % 2 - 1)
+                with conjugate(jasp_balauca_helper)(ctrls, balauca_anc):
+                    with conjugate(mcx)(
+                        [
+                            balauca_anc[balauca_anc.size - 1],
+                            balauca_anc[balauca_anc.size - 2],
+                        ],
+                        target[0],
+                        method="gray_pt",
+                    ):
+                        p(phi, target[0])
+                balauca_anc.delete()
 
     target.delete()
 
diff --git a/src/qrisp/alg_primitives/mcx_algs/khattar.py b/src/qrisp/alg_primitives/mcx_algs/khattar.py
index c978bc2..fe02e7c 100644
--- a/src/qrisp/alg_primitives/mcx_algs/khattar.py
+++ b/src/qrisp/alg_primitives/mcx_algs/khattar.py
@@ -241,33 +241,41 @@ def khattar_mcp(phi, ctrls, ctrl_state):
     target = QuantumFloat(1)
 
     with conjugate(ctrl_state_conjugator)(ctrls, ctrl_state):
-        with control(N == 1):
-            p(phi, ctrls[0])
+        # Lists have a static length, the other cases can therefore not be traced
+        static = isinstance(ctrls, list)
 
-        with control(N == 2):
-            with conjugate(mcx)([ctrls[0], ctrls[1]], target[0], method="gray_pt"):
-                p(phi, target[0])
+        if not static or N == 1:
+            with control(N == 1):
+                p(phi, ctrls[0])
 
-        with control(N == 3):
-            if check_for_tracing_mode():
-                gidney_CCCX(ctrls, target)
+        if not static or N == 2:
+            with control(N == 2):
+                with conjugate(mcx)([ctrls[0], ctrls[1]], target[0], method="gray_pt"):
+                    p(phi, target[0])
 
-                p(phi, target[0])
+        if not static or N == 3:
+            with control(N == 3):
+                if check_for_tracing_mode():
+                    gidney_CCCX(ctrls, target)
 
-                gidney_CCCX(ctrls, target)
-            else:
-                with conjugate(mcx)(ctrls, target[0], method="balauca"):
                     p(phi, target[0])
 
-        with control(N == 4):
-            with conjugate(cca_4ctrls)(ctrls, target):
-                p(phi, target[0])
+                    gidney_CCCX(ctrls, target)
+                else:
+                    with conjugate(mcx)(ctrls, target[0], method="balauca"):
+                        p(phi, target[0])
 
-        with control(N > 4):
-            khattar_anc = QuantumFloat(1)
-            with conjugate(cca_mcx)(ctrls, target, khattar_anc):
-                with conjugate(mcx)([khattar_anc[0], ctrls[0]], target[0]):
+        if not static or N == 4:
+            with control(N == 4):
+                with conjugate(cca_4ctrls)(ctrls, target):
                     p(phi, target[0])
-            khattar_anc.delete()
+
+        if not static or N > 4:
+            with control(N > 4):
+                khattar_anc = QuantumFloat(1)
+                with conjugate(cca_mcx)(ctrls, target, khattar_anc):
+                    with conjugate(mcx)([khattar_anc[0], ctrls[0]], target[0]):
+                        p(phi, target[0])
+                khattar_anc.delete()
 
     target.delete()
-- 
2.43.0


From a4dc4b2889d46690dc99dd54c15a2959494fbfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:15:02 +0000
Subject: [PATCH 079/130] fix: trace phase-tolerant multi-controlled gates with
 more than three controls

---
 src/qrisp/alg_primitives/mcx_algs/gray_pt.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/qrisp/alg_primitives/mcx_algs/gray_pt.py b/src/qrisp/alg_primitives/mcx_algs/gray_pt.py
index 06b56b5..8bc7b35 100644
--- a/src/qrisp/alg_primitives/mcx_algs/gray_pt.py
+++ b/src/qrisp/alg_primitives/mcx_algs/gray_pt.py
@@ -15,7 +15,9 @@
 ********************************************************************************
 """
 
-from qrisp import QuantumCircuit, QuantumVariable
+import numpy as np
+
+from qrisp import QuantumCircuit
 from qrisp.alg_primitives.mcx_algs.circuit_library import (
     margolus_qc,
     maslov_qc,
@@ -45,15 +47,10 @@ def pt_multi_cx(n, reduced=False):
         else:
             res.append(maslov_qc.to_gate("maslov"), res.qubits)
     else:
-        input_qv = QuantumVariable(n)
-        output_qv = QuantumVariable(1, qs=input_qv.qs)
-
-        from qrisp import TruthTable
-
-        tt = TruthTable([(2 ** (n) - 1) * "0" + "1"])
-
-        tt.q_synth(input_qv, output_qv, method="gray_pt")
+        from qrisp.alg_primitives.logic_synthesis import GraySynthGate
 
-        res = input_qv.qs.copy()
+        res.h(res.qubits[n])
+        res.append(GraySynthGate((2 ** (n + 1) - 1) * [0] + [np.pi]), res.qubits)
+        res.h(res.qubits[n])
 
     return res.to_gate(f"pt{n}cx")
-- 
2.43.0


From f44866f078c983bb9d736c358ac185ce93815a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:15:36 +0000
Subject: [PATCH 080/130] fix: keep controls of the three-controlled Khattar
 gate coherent

---
 src/qrisp/alg_primitives/mcx_algs/khattar.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/alg_primitives/mcx_algs/khattar.py b/src/qrisp/alg_primitives/mcx_algs/khattar.py
index fe02e7c..0e5f1e9 100644
--- a/src/qrisp/alg_primitives/mcx_algs/khattar.py
+++ b/src/qrisp/alg_primitives/mcx_algs/khattar.py
@@ -32,7 +32,7 @@ from qrisp.core.gate_application_functions import (
     t_dg,
     x,
 )
-from qrisp.environments import conjugate, control, custom_inversion, invert
+from qrisp.environments import conjugate, control, custom_control, custom_inversion, invert
 from qrisp.jasp import check_for_tracing_mode, jlen, jrange, qache
 from qrisp.qtypes import QuantumFloat
 
@@ -103,6 +103,15 @@ def gidney_CCCX(ctrls, target, inv=False):
     gidney_anc.delete()
 
 
+@custom_control
+def controllable_CCCX(ctrls, target, ctrl=None):
+    # The measurement outcome of gidney_CCCX must not depend on an external control
+    if ctrl is None:
+        gidney_CCCX(ctrls, target)
+    else:
+        mcx([ctrl, ctrls[0], ctrls[1], ctrls[2]], target[0])
+
+
 def cca_4ctrls(ctrls, target):
     # This function handles the case of 4 control qubits in the conditionally clean ancillae MCX
     cca4_anc = QuantumFloat(1)
@@ -190,7 +199,7 @@ def khattar_mcx(ctrls, target, ctrl_state):
 
             if N == 3:
                 if check_for_tracing_mode():
-                    gidney_CCCX(ctrls, target)
+                    controllable_CCCX(ctrls, target)
                 else:
                     mcx(ctrls, target[0], method="balauca")  # CHANGE
 
@@ -213,7 +222,7 @@ def khattar_mcx(ctrls, target, ctrl_state):
 
             with control(N == 3):
                 if check_for_tracing_mode():
-                    gidney_CCCX(ctrls, target)
+                    controllable_CCCX(ctrls, target)
                 else:
                     mcx(ctrls, target[0], method="balauca")  # CHANGE
 
@@ -256,11 +265,11 @@ def khattar_mcp(phi, ctrls, ctrl_state):
         if not static or N == 3:
             with control(N == 3):
                 if check_for_tracing_mode():
-                    gidney_CCCX(ctrls, target)
+                    controllable_CCCX(ctrls, target)
 
                     p(phi, target[0])
 
-                    gidney_CCCX(ctrls, target)
+                    controllable_CCCX(ctrls, target)
                 else:
                     with conjugate(mcx)(ctrls, target[0], method="balauca"):
                         p(phi, target[0])
-- 
2.43.0


From a2c30c8589bafdf014576812ba45da0680c1b685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:18:25 +0000
Subject: [PATCH 081/130] fix: respect control states and controls of traced
 logical ANDs

---
 src/qrisp/alg_primitives/mcx_algs/gidney.py  | 13 +++++++++----
 src/qrisp/core/gate_application_functions.py | 12 +++++++++---
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/qrisp/alg_primitives/mcx_algs/gidney.py b/src/qrisp/alg_primitives/mcx_algs/gidney.py
index 4f0fc01..4fd9e71 100644
--- a/src/qrisp/alg_primitives/mcx_algs/gidney.py
+++ b/src/qrisp/alg_primitives/mcx_algs/gidney.py
@@ -77,7 +77,7 @@ class GidneyLogicalAND(Operation):
         return res
 
 
-from qrisp import custom_inversion
+from qrisp import custom_control, custom_inversion
 from qrisp.core import cx, cz, h, measure, s, t, t_dg, x
 from qrisp.environments import control
 
@@ -99,12 +99,17 @@ def gidney_mcx_impl(a, b, c):
     s(c)
 
 
-@qache
-def gidney_mcx_inv_impl(a, b, c):
+@custom_control
+def gidney_mcx_inv_impl(a, b, c, ctrl=None):
+    # The measurement outcome must not depend on an external control
     h(c)
     bl = measure(c)
     with control(bl):
-        cz(a, b)
+        if ctrl is None:
+            cz(a, b)
+        else:
+            with control(ctrl):
+                cz(a, b)
         x(c)
 
 
diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index 2f4d46c..5823738 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -528,7 +528,7 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
         qubits_0 = controls
         if isinstance(qubits_0, (QuantumVariable, DynamicQubitArray)) and method not in ["balauca", "khattar"]:
             method = "balauca"
-        if method == "balauca" and isinstance(ctrl_state, str):
+        if method in ["balauca", "gidney", "gidney_inv"] and isinstance(ctrl_state, str):
             ctrl_state = int(ctrl_state[::-1], 2)
         qubits_1 = [target]
     from qrisp.alg_primitives.mcx_algs import (
@@ -539,6 +539,8 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
         maslov_mcx,
         yong_mcx,
     )
+    from qrisp.alg_primitives.mcx_algs.balauca import ctrl_state_conjugator
+    from qrisp.environments import conjugate
 
     if method in ["gray", "gray_pt", "gray_pt_inv"]:
         append_operation(
@@ -550,7 +552,11 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
             raise Exception(f"Tried to call Gidney logical AND with {len(qubits_0)} controls instead of two")
 
         if check_for_tracing_mode():
-            jasp_gidney_mcx(qubits_0[0], qubits_0[1], qubits_1[0])
+            if isinstance(ctrl_state, int) and ctrl_state == -1:
+                jasp_gidney_mcx(qubits_0[0], qubits_0[1], qubits_1[0])
+            else:
+                with conjugate(ctrl_state_conjugator)(qubits_0, ctrl_state):
+                    jasp_gidney_mcx(qubits_0[0], qubits_0[1], qubits_1[0])
         else:
             append_operation(
                 GidneyLogicalAND(ctrl_state=ctrl_state),
@@ -563,7 +569,7 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
 
         if check_for_tracing_mode():
             with invert():
-                jasp_gidney_mcx(qubits_0[0], qubits_0[1], qubits_1[0])
+                mcx(qubits_0, target, method="gidney", ctrl_state=ctrl_state)
         else:
             append_operation(
                 GidneyLogicalAND(ctrl_state=ctrl_state, inv=True),
-- 
2.43.0


From c92f9849402e56d1937acccb3487ea8e4bcf6cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:29:49 +0000
Subject: [PATCH 082/130] fix: let quantum switches with an odd number of cases
 take several operands

---
 src/qrisp/alg_primitives/program_control/quantum_switch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/program_control/quantum_switch.py b/src/qrisp/alg_primitives/program_control/quantum_switch.py
index 690dedf..6b514c2 100644
--- a/src/qrisp/alg_primitives/program_control/quantum_switch.py
+++ b/src/qrisp/alg_primitives/program_control/quantum_switch.py
@@ -341,10 +341,10 @@ def _q_switch_q(index, branches, *operands, branch_amount=None, method="auto", i
         elif isinstance(branches, list):
             if len(branches) % 2 != 0:
 
-                def identity(_):
+                def identity(*_):
                     pass
 
-                branches.append(identity)
+                branches = [*branches, identity]
 
             if check_for_tracing_mode():
 
-- 
2.43.0


From eb75fd2f763f09aaf50315bc80b80f9eaa66d55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:29:49 +0000
Subject: [PATCH 083/130] fix: keep the case list of a quantum switch unchanged

---
 src/qrisp/alg_primitives/program_control/switch_case.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/program_control/switch_case.py b/src/qrisp/alg_primitives/program_control/switch_case.py
index aecef1b..15cda48 100644
--- a/src/qrisp/alg_primitives/program_control/switch_case.py
+++ b/src/qrisp/alg_primitives/program_control/switch_case.py
@@ -373,7 +373,7 @@ def qswitch(operand, case, case_function, method="auto", case_amount=None, inv=F
                 def identity(_):
                     pass
 
-                case_function.append(identity)
+                case_function = [*case_function, identity]
 
             if check_for_tracing_mode():
 
-- 
2.43.0


From 8b9cfe5e5d5c4569cb93dea2c3a4791bffe996e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:29:49 +0000
Subject: [PATCH 084/130] fix: extend the sign when shifting signed values down

---
 src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
index 306f1ea..4f3ba25 100644
--- a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
+++ b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
@@ -1051,9 +1051,6 @@ def inpl_mult(qf, mult_int, treat_overflow=True):
 
     quantum_bit_shift(qf, bit_shift, treat_overflow)
 
-    if treat_overflow and bit_shift < 0 and qf.signed:
-        cx(qf[-1], qf[bit_shift - 1 : -1])
-
 
 def quantum_bit_shift(qf, bit_shift, treat_overflow=True):
 
@@ -1082,6 +1079,9 @@ def quantum_bit_shift(qf, bit_shift, treat_overflow=True):
 
     if qf.signed:
         cyclic_shift(qf[:-1], bit_shift)
+
+        if treat_overflow and bit_shift < 0:
+            cx(qf[-1], qf[bit_shift - 1 : -1])
     else:
         cyclic_shift(qf, bit_shift)
 
-- 
2.43.0


From 346c95a16b568bd893c6df0a282132f954751f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:29:49 +0000
Subject: [PATCH 085/130] fix: avoid phases when swapping into quantum-indexed
 entries

---
 src/qrisp/alg_primitives/iterable_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/iterable_processing.py b/src/qrisp/alg_primitives/iterable_processing.py
index 0a95645..b068631 100644
--- a/src/qrisp/alg_primitives/iterable_processing.py
+++ b/src/qrisp/alg_primitives/iterable_processing.py
@@ -210,11 +210,11 @@ def q_swap_into(q_array, index, qv):
     from qrisp import invert, swap
 
     with invert():
-        demux(q_array[0], index, q_array, ctrl_method="gray_pt")
+        demux(q_array[0], index, q_array)
 
     swap(q_array[0], qv)
 
-    demux(q_array[0], index, q_array, ctrl_method="gray_pt")
+    demux(q_array[0], index, q_array)
 
 
 def cyclic_shift(iterable, shift_amount=1):
-- 
2.43.0


From 24c7cc3fc0b6a0d50bae2b346cc389501eca7ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:38:06 +0000
Subject: [PATCH 086/130] fix: subtract an operator from itself in place

---
 src/qrisp/operators/qubit/qubit_operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index c2c34cf..32f5eb3 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -391,7 +391,7 @@ class QubitOperator(Hamiltonian):
         if not isinstance(other, QubitOperator):
             raise TypeError("Cannot add QubitOperator and " + str(type(other)))
 
-        for term, coeff in other.terms_dict.items():
+        for term, coeff in list(other.terms_dict.items()):
             self.terms_dict[term] = self.terms_dict.get(term, 0) + coeff
             if abs(self.terms_dict[term]) < threshold:
                 del self.terms_dict[term]
@@ -412,7 +412,7 @@ class QubitOperator(Hamiltonian):
         if not isinstance(other, QubitOperator):
             raise TypeError("Cannot add QubitOperator and " + str(type(other)))
 
-        for term, coeff in other.terms_dict.items():
+        for term, coeff in list(other.terms_dict.items()):
             self.terms_dict[term] = self.terms_dict.get(term, 0) - coeff
             if abs(self.terms_dict[term]) < threshold:
                 del self.terms_dict[term]
-- 
2.43.0


From 3494fbf708febba8f7f3c468e89234107437678a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:38:06 +0000
Subject: [PATCH 087/130] fix: convert complex multiples of the identity to
 Pauli form

---
 src/qrisp/operators/qubit/qubit_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 32f5eb3..d51eb02 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -780,7 +780,7 @@ class QubitOperator(Hamiltonian):
         res = 0
         for term, coeff in self.terms_dict.items():
             res += coeff * term.to_pauli()
-        if isinstance(res, (float, int)):
+        if isinstance(res, (float, int, complex)):
             return QubitOperator({QubitTerm({}): res})
         return res
 
-- 
2.43.0


From 207555d25235c623bfbad99e2548ceda35f09353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:39:00 +0000
Subject: [PATCH 088/130] fix: compute ground state energies of single-site
 operators

---
 src/qrisp/operators/qubit/qubit_operator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index d51eb02..71d4d21 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -914,6 +914,10 @@ class QubitOperator(Hamiltonian):
             return 0
 
         M = self.hermitize().to_sparse_matrix()
+        # The sparse solver can not treat matrices this small
+        if M.shape[0] <= 2:
+            return np.linalg.eigvalsh(M.toarray())[0]
+
         # Compute the smallest eigenvalue
         eigenvalues, _ = eigsh(M, k=1, which="SA")  # 'SA' stands for smallest algebraic
         E = eigenvalues[0]
-- 
2.43.0


From 8f536807f6fbf6a42223923d227643484895c731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:36 +0000
Subject: [PATCH 089/130] fix: release the helper qubits of controlled
 projector evolutions

---
 src/qrisp/operators/qubit/qubit_term.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/operators/qubit/qubit_term.py b/src/qrisp/operators/qubit/qubit_term.py
index 32e1571..9c5e08f 100644
--- a/src/qrisp/operators/qubit/qubit_term.py
+++ b/src/qrisp/operators/qubit/qubit_term.py
@@ -469,7 +469,7 @@ class QubitTerm:
                 else:
                     rz(coeff * 2, qv[anchor_index])
 
-        if len(projector_indices) >= 2:
+        if len(projector_qubits) >= 2:
             # Delete ancilla
             hs_anc_qbl.delete()
             balauca_ancillae.delete()
-- 
2.43.0


From 6e31b6d72c0cd0ad28045e17ad33afc27f9fb542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:36 +0000
Subject: [PATCH 090/130] fix: diagonalise each ladder group once in commuting
 trotterization

---
 src/qrisp/operators/qubit/qubit_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 71d4d21..31b3e03 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -1827,7 +1827,7 @@ class QubitOperator(Hamiltonian):
                 for com_group in commuting_groups:
                     qw_groups = com_group.group_up(lambda a, b: a.ladders_agree(b))
                     for qw_group in qw_groups:
-                        with conjugate(com_group.change_of_basis)(qarg, method="commuting") as diagonal_operator:
+                        with conjugate(qw_group.change_of_basis)(qarg, method="commuting") as diagonal_operator:
                             intersect_groups = diagonal_operator.group_up(lambda a, b: not a.intersect(b))
                             for intersect_group in intersect_groups:
                                 for term, coeff in intersect_group.terms_dict.items():
-- 
2.43.0


From b12d637da2f854d48a24fff57f369143fc8e05d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:36 +0000
Subject: [PATCH 091/130] fix: keep the imaginary part of ladder coefficients

---
 src/qrisp/operators/qubit/qubit_operator.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 31b3e03..6459a41 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -880,6 +880,9 @@ class QubitOperator(Hamiltonian):
 
     def eliminate_ladder_conjugates(self):
         new_terms_dict = {}
+        # The imaginary parts of a ladder term and its adjoint cancel when added,
+        # they are therefore represented by Pauli terms.
+        imaginary_terms_dict = {}
         for term, coeff in self.terms_dict.items():
             for factor in term.factor_dict.values():
                 if factor in ["A", "C"]:
@@ -888,12 +891,20 @@ class QubitOperator(Hamiltonian):
                 new_terms_dict[term] = coeff
                 continue
 
+            if np.imag(coeff) != 0:
+                imaginary_terms_dict[term] = 1j * np.imag(coeff)
+                coeff = np.real(coeff)
+
             if term.adjoint() in new_terms_dict:
                 new_terms_dict[term.adjoint()] += coeff
             else:
                 new_terms_dict[term] = coeff
 
-        return QubitOperator(new_terms_dict).apply_threshold(0)
+        res = QubitOperator(new_terms_dict)
+        if imaginary_terms_dict:
+            res = res + QubitOperator(imaginary_terms_dict).to_pauli()
+
+        return res.apply_threshold(0)
 
     def ground_state_energy(self):
         """Calculates the ground state energy (i.e., the minimum eigenvalue) of the operator classically.
-- 
2.43.0


From 552f99b3e8840f39dbb4267cc8a99cf740b4389d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:36 +0000
Subject: [PATCH 092/130] fix: evaluate expectation values of constant
 operators

---
 src/qrisp/operators/qubit/jasp_measurement.py | 2 +-
 src/qrisp/operators/qubit/measurement.py      | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/operators/qubit/jasp_measurement.py b/src/qrisp/operators/qubit/jasp_measurement.py
index c9a71bd..5147176 100644
--- a/src/qrisp/operators/qubit/jasp_measurement.py
+++ b/src/qrisp/operators/qubit/jasp_measurement.py
@@ -105,7 +105,7 @@ def get_jasp_measurement(
             group.change_of_basis(qv, method=diagonalisation_method)
             return qv
 
-        shots = int(shots_list[index] / precision**2)
+        shots = max(int(shots_list[index] / precision**2), 1)
         res = sample(new_state_prep, shots=shots)(state_args)
 
         samples.append(jnp.int64(res))
diff --git a/src/qrisp/operators/qubit/measurement.py b/src/qrisp/operators/qubit/measurement.py
index 98fc7b6..7dde88b 100644
--- a/src/qrisp/operators/qubit/measurement.py
+++ b/src/qrisp/operators/qubit/measurement.py
@@ -198,12 +198,13 @@ class QubitOperatorMeasurement:
             self.change_of_basis_gates,
             self.shots_list,
         ):
-            shots = int(shots_base / precision**2)
+            shots = max(int(shots_base / precision**2), 1)
 
             qubits = [qubit_list[j] for j in range(gate.num_qubits)]
 
             curr = qc.copy()
-            curr.append(gate, qubits)
+            if qubits:
+                curr.append(gate, qubits)
 
             results.append(get_measurement_from_qc(curr, list(qubit_list), backend, shots))
             meas_ops.append([term.serialize() for term in group.terms_dict])
-- 
2.43.0


From 8bae9b556801e7cda82d6eaf00b9642d6ac70544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:36 +0000
Subject: [PATCH 093/130] fix: invert traced evolutions with a dynamic
 coefficient

---
 src/qrisp/operators/qubit/qubit_term.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/operators/qubit/qubit_term.py b/src/qrisp/operators/qubit/qubit_term.py
index 9c5e08f..ff9d6ec 100644
--- a/src/qrisp/operators/qubit/qubit_term.py
+++ b/src/qrisp/operators/qubit/qubit_term.py
@@ -254,14 +254,14 @@ class QubitTerm:
         # to learn how this works.
         for factor in self.factor_dict.values():
             if factor not in ["I", "Z", "P0", "P1"]:
-                qubit_op = QubitOperator({self: coeff})
+                qubit_op = QubitOperator({self: 1})
                 with conjugate(qubit_op.change_of_basis)(qv) as diagonal_op:
-                    for diagonal_term, coeff in diagonal_op.terms_dict.items():
+                    for diagonal_term, prefactor in diagonal_op.terms_dict.items():
                         if ctrl is None:
-                            diagonal_term.simulate(coeff, qv)
+                            diagonal_term.simulate(prefactor * coeff, qv)
                         else:
                             with control(ctrl):
-                                diagonal_term.simulate(coeff, qv)
+                                diagonal_term.simulate(prefactor * coeff, qv)
                 return
 
         qs = find_qs(qv)
-- 
2.43.0


From 07fe5214a1d2e41963b0dafae5aad0ed961286de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:36 +0000
Subject: [PATCH 094/130] fix: support traced switches with a single branch

---
 src/qrisp/jasp/program_control/prefix_control.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qrisp/jasp/program_control/prefix_control.py b/src/qrisp/jasp/program_control/prefix_control.py
index a4b15db..d9e29bc 100644
--- a/src/qrisp/jasp/program_control/prefix_control.py
+++ b/src/qrisp/jasp/program_control/prefix_control.py
@@ -423,6 +423,9 @@ def _q_switch_c(index, branches, *operands):
     if not check_for_tracing_mode():
         return branches[index](*operands)
 
+    if len(branches) == 1:
+        return branches[0](*operands)
+
     def convert_branch(branch):
 
         def new_branch(*operands):
-- 
2.43.0


From dacbfc0e42e4e26c615d8dbd47fd6fb177a492b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:09:59 +0000
Subject: [PATCH 095/130] fix: select a single element of a QuantumArray using
 an ellipsis

---
 src/qrisp/core/quantum_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/core/quantum_array.py b/src/qrisp/core/quantum_array.py
index 81f8b94..3b6ccf7 100644
--- a/src/qrisp/core/quantum_array.py
+++ b/src/qrisp/core/quantum_array.py
@@ -289,7 +289,7 @@ class QuantumArray:
                 return qv
             else:
                 for i in range(len(key)):
-                    if key[i] >= self.shape[i]:
+                    if isinstance(key[i], (int, np.integer)) and Ellipsis not in key[:i] and key[i] >= self.shape[i]:
                         raise Exception(f"Index {key} out of bounds for QuantumArray with shape {self.shape}")
                 return self.qv_list[index]
 
-- 
2.43.0


From 79f77c0a28d2a5ff879190c54fff682960caa677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:09:59 +0000
Subject: [PATCH 096/130] fix: delete the elements of a QuantumArray view
 instead of others

---
 src/qrisp/core/quantum_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/core/quantum_array.py b/src/qrisp/core/quantum_array.py
index 3b6ccf7..6bb17d7 100644
--- a/src/qrisp/core/quantum_array.py
+++ b/src/qrisp/core/quantum_array.py
@@ -581,8 +581,8 @@ class QuantumArray:
         if check_for_tracing_mode():
             self.qs.clear_qubits(self.qb_array)
         else:
-            for i in range(self.size):
-                self.qv_list[i].delete(verify=verify)
+            for qv in self.flatten():
+                qv.delete(verify=verify)
 
     def measure(self):
         from qrisp.core.gate_application_functions import measure
-- 
2.43.0


From 2de5799088a12d38635cee645986595ff09a761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:09:59 +0000
Subject: [PATCH 097/130] fix: concatenate QuantumArray views

---
 src/qrisp/core/quantum_array.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/core/quantum_array.py b/src/qrisp/core/quantum_array.py
index 6bb17d7..eb8a86b 100644
--- a/src/qrisp/core/quantum_array.py
+++ b/src/qrisp/core/quantum_array.py
@@ -961,7 +961,13 @@ class QuantumArray:
 
         res = copy.copy(self)
 
-        ind_array_other_shifted = other.ind_array + self.size
+        # The index array of a view addresses the elements of the original array
+        if check_for_tracing_mode():
+            element_amount = self.qb_array.size // self.qtype_size
+        else:
+            element_amount = len(self.qv_list)
+
+        ind_array_other_shifted = other.ind_array + element_amount
 
         concat_ind_array = jnp.concatenate((self.ind_array, ind_array_other_shifted), axis=axis)
 
-- 
2.43.0


From ff4822cd2e340adc97744b778bd7562d1fef5bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:09:59 +0000
Subject: [PATCH 098/130] fix: duplicate QuantumArray views

---
 src/qrisp/core/quantum_array.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/core/quantum_array.py b/src/qrisp/core/quantum_array.py
index eb8a86b..6b27fcb 100644
--- a/src/qrisp/core/quantum_array.py
+++ b/src/qrisp/core/quantum_array.py
@@ -1029,6 +1029,7 @@ class QuantumArray:
 
         """
         res = copy.copy(self)
+        res.ind_array = jnp.arange(self.size).reshape(self.shape)
 
         if check_for_tracing_mode():
             qs = self.qs
@@ -1038,8 +1039,10 @@ class QuantumArray:
             if init:
                 from qrisp import cx
 
-                for i in jrange(self.size * self.qtype_size):
-                    cx(self.qb_array[i], res.qb_array[i])
+                flat_self = self.flatten()
+                flat_res = res.flatten()
+                for i in jrange(self.size):
+                    cx(flat_self[i], flat_res[i])
 
         else:
             if qs is None:
@@ -1048,8 +1051,8 @@ class QuantumArray:
                 res.qs = qs
 
             res.qv_list = []
-            for i in range(self.size):
-                res.qv_list.append(self.qv_list[i].duplicate(name=self.qtype.name + "*", qs=res.qs, init=init))
+            for qv in self.flatten():
+                res.qv_list.append(qv.duplicate(name=self.qtype.name + "*", qs=res.qs, init=init))
 
         return res
 
-- 
2.43.0


From 862d8d88a4bf5389fc2d9c1084be967894f839f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:09:59 +0000
Subject: [PATCH 099/130] fix: multiply QuantumModulus arrays with numpy
 matrices

---
 .../arithmetic/jasp_arithmetic/jasp_mod_tools.py              | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py
index 872b4fa..91213dc 100644
--- a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py
+++ b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py
@@ -32,6 +32,7 @@ Notes
 from typing import Union
 
 import jax.numpy as jnp
+import numpy as np
 from jax import jit, lax
 
 from qrisp import check_for_tracing_mode
@@ -363,6 +364,9 @@ def smallest_power_of_two(n: Union[int, BigInteger]):
         # bit_size already yields ceil(log2(n)) with 0 for n==0
         return n.bit_size()
 
+    if isinstance(n, np.integer):
+        n = int(n)
+
     if hasattr(n, "bit_length"):
         return (n - 1).bit_length() if n > 1 else 0
 
-- 
2.43.0


From 9d0d28a132cd3bc5a76a18515f28c50864530527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:09:59 +0000
Subject: [PATCH 100/130] fix: matrix products without phases on the result

---
 .../arithmetic/matrix_multiplication.py       | 117 +++---------------
 1 file changed, 17 insertions(+), 100 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py b/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py
index 3bba091..804b4e3 100644
--- a/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py
+++ b/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py
@@ -23,7 +23,6 @@ from qrisp.alg_primitives.arithmetic.SBP_arithmetic import (
     polynomial_encoder,
 )
 from qrisp.core import QuantumArray
-from qrisp.core.gate_application_functions import p, z
 
 
 def q_matmul(q_array_0, q_array_1, output_array=None, res_bit_shape="eq", phase_tolerant=False):
@@ -78,6 +77,8 @@ def q_matmul(q_array_0, q_array_1, output_array=None, res_bit_shape="eq", phase_
                    [6, 8]]): 1.0}
 
     """
+    from qrisp import QFT
+
     if q_array_0.shape[1] != q_array_1.shape[0]:
         raise Exception("Tried to perform matrix multiplication with differing contraction index size")
 
@@ -119,106 +120,22 @@ def q_matmul(q_array_0, q_array_1, output_array=None, res_bit_shape="eq", phase_
     for i in range(L):
         for j in range(J):
             for k in range(K):
-                if K == 1:
-                    if output_array is not None:
-                        hybrid_mult(
-                            q_array_0[i, k],
-                            q_array_1[k, j],
-                            output_qf=res[i, j],
-                            init_op="qft",
-                            terminal_op="qft",
-                            phase_tolerant=phase_tolerant,
-                        )
-                    else:
-                        hybrid_mult(
-                            q_array_0[i, k],
-                            q_array_1[k, j],
-                            output_qf=res[i, j],
-                            init_op="h",
-                            terminal_op="qft",
-                            phase_tolerant=phase_tolerant,
-                        )
-                    continue
-
-                # If the res_bit_shape is safe,we can use the strategy
-                # of correcting phases on the result as displayed in hybrid mult
-                if res_bit_shape == "safe" and not phase_tolerant:
-                    if k == 0:
-                        hybrid_mult(
-                            q_array_0[i, k],
-                            q_array_1[k, j],
-                            output_qf=res[i, j],
-                            init_op="h",
-                            terminal_op=None,
-                            phase_tolerant=True,
-                        )
-
-                    elif k == K - 1:
-                        hybrid_mult(
-                            q_array_0[i, k],
-                            q_array_1[k, j],
-                            output_qf=res[i, j],
-                            init_op=None,
-                            terminal_op="qft",
-                            phase_tolerant=True,
-                        )
-
-                    elif k != q_array_0.shape[1] - 1:
-                        hybrid_mult(
-                            q_array_0[i, k],
-                            q_array_1[k, j],
-                            output_qf=res[i, j],
-                            init_op=None,
-                            terminal_op=None,
-                            phase_tolerant=True,
-                        )
-
-                        for m in range(res[i, j].size):
-                            p(
-                                -(2 * np.pi) * 2**l / 2 ** (res[i, j].size + 1),
-                                res[i, j][m],
-                            )
-
-                        if res[i, j].signed and K % 2:
-                            z(res[i, j][-1])
-
-                elif k == 0:
-                    if output_array is not None:
-                        hybrid_mult(
-                            q_array_0[i, k],
-                            q_array_1[k, j],
-                            output_qf=res[i, j],
-                            init_op="qft",
-                            terminal_op=None,
-                            phase_tolerant=phase_tolerant,
-                        )
-                    else:
-                        hybrid_mult(
-                            q_array_0[i, k],
-                            q_array_1[k, j],
-                            output_qf=res[i, j],
-                            init_op="h",
-                            terminal_op=None,
-                            phase_tolerant=phase_tolerant,
-                        )
-                elif k == K - 1:
-                    hybrid_mult(
-                        q_array_0[i, k],
-                        q_array_1[k, j],
-                        output_qf=res[i, j],
-                        init_op=None,
-                        terminal_op="qft",
-                        phase_tolerant=phase_tolerant,
-                    )
+                if k == 0:
+                    init_op = "h" if output_array is None else "qft"
                 else:
-                    hybrid_mult(
-                        q_array_0[i, k],
-                        q_array_1[k, j],
-                        output_qf=res[i, j],
-                        init_op=None,
-                        terminal_op=None,
-                        phase_tolerant=phase_tolerant,
-                    )
+                    init_op = None
+                hybrid_mult(
+                    q_array_0[i, k],
+                    q_array_1[k, j],
+                    output_qf=res[i, j],
+                    init_op=init_op,
+                    terminal_op=None,
+                    phase_tolerant=phase_tolerant,
+                )
+
+            # Correcting the phases on the result (as displayed in hybrid_mult) is
+            # only possible for a single product, that can not overflow.
+            QFT(res[i, j], inv=True, exec_swap=False)
 
     return res
 
-- 
2.43.0


From 0a6151bf31b4dcd85905ca04e065749b56dcdf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:09:59 +0000
Subject: [PATCH 101/130] fix: dot products with non-square matrices

---
 .../arithmetic/matrix_multiplication.py        | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py b/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py
index 804b4e3..53ae52f 100644
--- a/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py
+++ b/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py
@@ -521,27 +521,21 @@ def dot(a, b, out=None):
         temp_0 = a.reshape((a.size // b.shape[-1], b.shape[-1]))
         temp_1 = b.reshape((b.shape[0], 1))
 
-        new_shape = list(b.shape)
-        new_shape[-1] = b.shape[0]
-
-        res = (auto_matmul_wrapper(temp_0, temp_1, out)).reshape(new_shape)
+        res = (auto_matmul_wrapper(temp_0, temp_1, out)).reshape(a.shape[:-1])
 
         return res
 
     else:
-        temp_0 = a.reshape((a.size // b.shape[-1], b.shape[-1]))
+        temp_0 = a.reshape((a.size // a.shape[-1], a.shape[-1]))
 
-        temp_1 = np.swapaxes(b, 0, -2)
-        temp_1 = np.reshape(temp_1, (temp_1.shape[0], temp_1.size // temp_1.shape[0]))
+        temp_1 = b.swapaxes(0, -2)
+        temp_1 = temp_1.reshape((temp_1.shape[0], temp_1.size // temp_1.shape[0]))
 
         res = auto_matmul_wrapper(temp_0, temp_1, out)
 
-        res_shape = list(temp_1.shape)
-        res_shape.pop(-2)
-
-        res_shape = list(temp_0.shape)[:-1] + res_shape
+        res_shape = list(a.shape[:-1]) + list(b.shape[:-2]) + [b.shape[-1]]
 
-        return np.reshape(res, res_shape)
+        return res.reshape(res_shape)
 
 
 def tensordot(a, b, axes):
-- 
2.43.0


From ffcff4453ac61050b9f666773a2c3ff4d5382249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:09:59 +0000
Subject: [PATCH 102/130] fix: size polynomial results to hold every value

---
 .../arithmetic/matrix_multiplication.py       |  6 +++++-
 src/qrisp/qtypes/quantum_float.py             | 19 ++++++++++++++-----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py b/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py
index 53ae52f..e2cfb1a 100644
--- a/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py
+++ b/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py
@@ -206,10 +206,14 @@ def semi_classic_matmul(q_matrix, cl_matrix, output_array=None, res_bit_shape="e
             for i in range(K):
                 q_array_0_symbols.append(Symbol(q_matrix[0, i].name))
 
-                poly += Symbol(q_matrix[0, i].name)
+                # The largest coefficient, that any result entry contains
+                poly += float(np.max(np.abs(cl_matrix[i]))) * Symbol(q_matrix[0, i].name)
 
             from qrisp.alg_primitives.arithmetic import create_output_qf
 
+            if np.min(cl_matrix) < 0:
+                poly = -poly
+
             qtype = create_output_qf(list(q_matrix.flatten()), poly)
 
         if res_bit_shape == "eq":
diff --git a/src/qrisp/qtypes/quantum_float.py b/src/qrisp/qtypes/quantum_float.py
index 4f0ee53..ef3adb7 100644
--- a/src/qrisp/qtypes/quantum_float.py
+++ b/src/qrisp/qtypes/quantum_float.py
@@ -1176,18 +1176,27 @@ def create_output_qf(operands, op):
 
         abs_poly = sum([Abs(monom) for monom in monom_list], 0)
 
-        min_poly_value = min([float(Abs(monom).subs(min_value_dic)) for monom in monom_list])
+        # Determine the significance of the lowest bit of each monomial
+        def lowest_sig(value):
+            num, den = value.as_integer_ratio()
+            if den > 2**20:
+                return int(np.floor(np.log2(value)))
+            return (num & -num).bit_length() - den.bit_length()
+
+        min_sig = min([lowest_sig(float(Abs(monom).subs(min_value_dic))) for monom in monom_list])
 
         max_poly_value = float(abs_poly.subs(max_value_dic))
 
-        min_sig = int(np.floor(np.log2(min_poly_value)))
-        max_sig = int(np.ceil(np.log2(max_poly_value)))
+        signed = bool(any(operand.signed for operand in operands) or any(coeff < 0 for coeff in poly.coeffs()))
+        if signed:
+            # The largest absolute value can be attained
+            max_sig = int(np.floor(np.log2(max_poly_value))) + 1
+        else:
+            max_sig = int(np.ceil(np.log2(max_poly_value)))
 
         msize = max_sig - min_sig
         exponent = min_sig
 
-        signed = bool(sum([int(operand.signed) for operand in operands]))
-
         return QuantumFloat(msize, exponent=exponent, signed=signed)
 
     from qrisp.qtypes import QuantumModulus
-- 
2.43.0


From ba929153ad85d599b4613d889424dbb160672e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:39:42 +0000
Subject: [PATCH 103/130] fix: keep the inputs of gray synthesized logic
 unchanged

---
 .../alg_primitives/logic_synthesis/gray_synthesis.py     | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
index 5835e76..e1b37a3 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
@@ -239,6 +239,15 @@ def single_qb_traversal(locations, bit_amount):
     if tr_seq[0] != 0:
         tr_seq = [0] + tr_seq
 
+    # Fill in the intermediate steps between locations, which are not adjacent
+    closed_tr_seq = tr_seq[:1]
+    for x in tr_seq[1:]:
+        if hamming_d(closed_tr_seq[-1], x, bit_amount) > 1:
+            closed_tr_seq += hamming_movement(closed_tr_seq[-1], x, bit_amount)
+        else:
+            closed_tr_seq.append(x)
+    tr_seq = closed_tr_seq
+
     # Turn into binaries
     tr_seq_bin = [int_as_array(x, bit_amount) for x in tr_seq]
 
-- 
2.43.0


From 3ef09b1d858cc017797b27007f237166d9b63ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:39:42 +0000
Subject: [PATCH 104/130] fix: remove residual phases of multi-column gray
 synthesis

---
 src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
index e1b37a3..b94bacc 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
@@ -583,6 +583,9 @@ def gray_logic_synth(input_var, output_var, tt, phase_tolerant=False, lin_solve=
     input_var_dupl.qs.data = []
 
     if not phase_tolerant:
+        # The phases are expected in big endian order
+        residual_phases -= residual_phases[0]
+        residual_phases = residual_phases.reshape(tt.bit_amount * [2]).transpose().flatten()
         gray_phase_synth(input_var_dupl, residual_phases)
 
     qc.data.extend(input_var_dupl.qs.data)
-- 
2.43.0


From 665a46fa8822b3b17af43cbd77c905001dff4e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:39:42 +0000
Subject: [PATCH 105/130] fix: inverse phase tolerant synthesis method

---
 src/qrisp/alg_primitives/logic_synthesis/truth_tables.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py b/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py
index 41420ac..0227b13 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py
@@ -187,12 +187,10 @@ class TruthTable:
             gray_logic_synth(input_var, output_var, self, phase_tolerant=True)
 
         elif method == "gray_pt_inv":
-            from qrisp.alg_primitives.logic_synthesis.gray_synthesis import (
-                gray_logic_synth,
+            input_var.qs.append(
+                self.gate_synth(method="gray_pt", inv=True),
+                list(input_var.reg) + list(output_var.reg),
             )
-            from qrisp.misc import quantum_invert
-
-            quantum_invert(gray_logic_synth, [input_var, output_var, self, True], input_var.qs)
 
         elif method == "pprm_pt":
             from qrisp.alg_primitives.logic_synthesis.pprm_synthesis import pprm
-- 
2.43.0


From cb87a4bdc8370eda42a2b5b5f23166609cabd245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:39:42 +0000
Subject: [PATCH 106/130] fix: logic synthesis of tables not depending on every
 input

---
 src/qrisp/alg_primitives/logic_synthesis/truth_tables.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py b/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py
index 0227b13..8935fb5 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py
@@ -213,7 +213,14 @@ class TruthTable:
         # input_var.qs.data[-1].op.tt = self
         # input_var.qs.data[-1].op.logic_synth_method = method
 
-        input_var.qs.data[-1].op = LogicSynthGate(input_var.qs.data[-1].op, self, phase_tolerant=method)
+        # The synthesized operation might not act on every qubit of the input
+        instr = input_var.qs.data[-1]
+        qubits = list(input_var.reg) + list(output_var.reg)
+        qc = QuantumCircuit(len(qubits))
+        qc.append(instr.op, [qc.qubits[qubits.index(qb)] for qb in instr.qubits])
+
+        instr.op = LogicSynthGate(qc.to_gate(), self, phase_tolerant=method)
+        instr.qubits = qubits
 
     def gate_synth(self, method="best", inv=False):
         from qrisp.core import QuantumSession, QuantumVariable
-- 
2.43.0


From 9c54a86de37fb0ba780d4c4c08f9d81d50e7d158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:39:42 +0000
Subject: [PATCH 107/130] fix: load QuantumDictionaries with tuple labels

---
 src/qrisp/core/quantum_dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/core/quantum_dictionary.py b/src/qrisp/core/quantum_dictionary.py
index de153ae..c618c2d 100644
--- a/src/qrisp/core/quantum_dictionary.py
+++ b/src/qrisp/core/quantum_dictionary.py
@@ -237,7 +237,7 @@ class QuantumDictionary(dict):
             for i in range(len(quantum_key)):
                 qv = quantum_key[i]
 
-                if isinstance(k, tuple):
+                if len(quantum_key) > 1:
                     bin_string += bin_rep(qv.encoder(k[i]), qv.size)[::-1]
                 else:
                     bin_string += bin_rep(qv.encoder(k), qv.size)[::-1]
-- 
2.43.0


From 0c0a622ee1878dee6a76166f707424bc03fac6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:47:17 +0000
Subject: [PATCH 108/130] fix: respect qubit order and inplace multiplication
 of traced Fourier transforms

---
 src/qrisp/alg_primitives/qft.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/alg_primitives/qft.py b/src/qrisp/alg_primitives/qft.py
index e40682d..615185a 100644
--- a/src/qrisp/alg_primitives/qft.py
+++ b/src/qrisp/alg_primitives/qft.py
@@ -183,7 +183,7 @@ def QFT(
     if inv:
         with invert():
             if check_for_tracing_mode():
-                jasp_qft(qv, exec_swap)
+                jasp_qft(qv, exec_swap, qiskit_endian, inplace_mult)
             else:
                 gate_wrap(permeability=[], is_qfree=False, name=name)(QFT_inner)(
                     qv,
@@ -195,7 +195,7 @@ def QFT(
                 )
 
     elif check_for_tracing_mode():
-        jasp_qft(qv, exec_swap)
+        jasp_qft(qv, exec_swap, qiskit_endian, inplace_mult)
     else:
         gate_wrap(permeability=[], is_qfree=False, name=name)(QFT_inner)(
             qv,
@@ -209,8 +209,8 @@ def QFT(
     return qv
 
 
-@qache(static_argnums=[1])
-def jasp_qft(qv, exec_swap):
+@qache(static_argnums=[1, 2, 3])
+def jasp_qft(qv, exec_swap, qiskit_endian, inplace_mult):
     """Performs qft on the first n qubits in circuit (without swaps)"""
     if isinstance(qv, list):
         n = len(qv)
@@ -219,9 +219,11 @@ def jasp_qft(qv, exec_swap):
 
     for i in jrange(n):
         # pass
-        h(qv[n - 1 - i])
+        target = qv[n - 1 - i] if qiskit_endian else qv[i]
+        h(target)
         for k in jrange(n - i - 1):
-            cp(2.0 * np.pi / pow(2.0, (k + 2)), qv[n - 1 - (k + i + 1)], qv[n - 1 - i])
+            ctrl = qv[n - 1 - (k + i + 1)] if qiskit_endian else qv[k + i + 1]
+            cp(inplace_mult * 2.0 * np.pi / pow(2.0, (k + 2)), ctrl, target)
 
     if exec_swap:
         for i in jrange(n // 2):
-- 
2.43.0


From 28904533bd2b076872f94b77bd9a5c1494e1e9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:54:37 +0000
Subject: [PATCH 109/130] fix: invert and control traced state preparation

---
 .../qswitch_state_preparation.py               | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/alg_primitives/state_preparation/qswitch_state_preparation.py b/src/qrisp/alg_primitives/state_preparation/qswitch_state_preparation.py
index d12a55a..9f8ba7a 100644
--- a/src/qrisp/alg_primitives/state_preparation/qswitch_state_preparation.py
+++ b/src/qrisp/alg_primitives/state_preparation/qswitch_state_preparation.py
@@ -312,10 +312,12 @@ def prepare_qswitch(qv: QuantumVariable, target_array: NDArrayLike, big_endianne
 
     thetas, u_params, phases = _preprocess(target_array_jax)
 
-    def make_case_fn(layer_size, is_final: bool = False) -> Callable:
+    def make_case_fn(is_final: bool = False) -> Callable:
         """Create a case function for q_switch at a given layer."""
 
-        def case_fn(i, qb):
+        # The parameters are given as operands because traced values can not be captured
+        # by the custom inversion and control of q_switch
+        def case_fn(i, qb, layer_size, thetas, u_params, phases):
             # NOTE: This bit-reversal is not about Qrisp's endianness.
             # It compensates for the order in which q_switch enumerates control patterns
             rev_idx = bit_reverse(i, layer_size)
@@ -339,12 +341,20 @@ def prepare_qswitch(qv: QuantumVariable, target_array: NDArrayLike, big_endianne
     for layer_size in xrange(1, qv.size - 1):
         q_switch(
             qv[:layer_size],
-            make_case_fn(layer_size),
+            make_case_fn(),
             qv[layer_size],
+            layer_size,
+            thetas,
+            u_params,
+            phases,
         )
 
     q_switch(
         qv[: qv.size - 1],
-        make_case_fn(qv.size - 1, is_final=True),
+        make_case_fn(is_final=True),
         qv[qv.size - 1],
+        qv.size - 1,
+        thetas,
+        u_params,
+        phases,
     )
-- 
2.43.0


From ead0efdd07818f20d72129b1b82de9a17fa97dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:16:06 +0000
Subject: [PATCH 110/130] fix: initialize the path state of backtracking
 subtrees

---
 .../quantum_backtracking/backtracking_tree.py          | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/qrisp/algorithms/quantum_backtracking/backtracking_tree.py b/src/qrisp/algorithms/quantum_backtracking/backtracking_tree.py
index a313e2f..74f63b6 100644
--- a/src/qrisp/algorithms/quantum_backtracking/backtracking_tree.py
+++ b/src/qrisp/algorithms/quantum_backtracking/backtracking_tree.py
@@ -1737,17 +1737,13 @@ class Subtree(QuantumBacktrackingTree):
 
         rev_branch_qa = self.branch_qa[::-1]
 
-        with self.h == self.max_depth:
-            for k in range(len(self.root_path)):
-                rev_branch_qa[k][:] = self.root_path[k]
+        for k in range(len(self.root_path)):
+            rev_branch_qa[k][:] = self.root_path[k]
 
         for i in range(1, len(path) + 1):
             with self.h == self.max_depth - i:
                 for j in range(i):
-                    rev_branch_qa[j].encode(path[j], permit_dirtyness=True)
-
-                for k in range(len(self.root_path)):
-                    rev_branch_qa[k + i][:] = self.root_path[k]
+                    rev_branch_qa[len(self.root_path) + j].encode(path[j], permit_dirtyness=True)
 
     def subtree(self, path):
         return self.original_tree.subtree(path)
-- 
2.43.0


From 19f4d2e750570e9fea020d4fcf60137c32c13f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:25:25 +0000
Subject: [PATCH 111/130] fix: reduce independent set and clique graphs by
 common neighbours

---
 src/qrisp/algorithms/qiro/qiroproblems/qiroMaxClique.py   | 2 +-
 src/qrisp/algorithms/qiro/qiroproblems/qiroMaxIndepSet.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxClique.py b/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxClique.py
index e793cea..6609c78 100644
--- a/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxClique.py
+++ b/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxClique.py
@@ -80,7 +80,7 @@ def create_max_clique_replacement_routine(res, problem_updated):
     elif sign > 0:
         # keep the two items in solution and remove all that are not adjacent to both
 
-        intersect = list(set(list(graph.adj[max_item[0]].keys())) & set(list(graph.adj[max_item[0]].keys())))
+        intersect = list(set(list(graph.adj[max_item[0]].keys())) & set(list(graph.adj[max_item[1]].keys())))
         intersect.append(max_item[0])
         intersect.append(max_item[1])
         to_remove = [int(item) for item in graph.nodes() if item not in intersect]
diff --git a/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxIndepSet.py b/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxIndepSet.py
index f1c808d..5f345f0 100644
--- a/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxIndepSet.py
+++ b/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxIndepSet.py
@@ -61,7 +61,7 @@ def create_max_indep_replacement_routine(res, problem_updated):
         return graph, solutions, 0, exclusions
 
     # create a copy of the graph
-    new_graph = copy.copy(graph)
+    new_graph = copy.deepcopy(graph)
 
     # we remove nodes from the graph, as suggested by the replacement rules
     # if the item is an int, it is a single node, else it is an edge
@@ -86,7 +86,7 @@ def create_max_indep_replacement_routine(res, problem_updated):
 
     elif sign < 0:
         # remove all nodes connected to both nodes
-        intersect = list(set(list(graph.adj[max_item[0]].keys())) & set(list(graph.adj[max_item[0]].keys())))
+        intersect = list(set(list(graph.adj[max_item[0]].keys())) & set(list(graph.adj[max_item[1]].keys())))
         new_graph.remove_nodes_from(intersect)
         exclusions += intersect
 
-- 
2.43.0


From 19677356ddb41e51d0a519c98fb5fcdf70a5b24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:25:25 +0000
Subject: [PATCH 112/130] fix: weight uncovered outcomes of the set cover cost
 by their probability

---
 src/qrisp/algorithms/qaoa/problems/minSetCover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/algorithms/qaoa/problems/minSetCover.py b/src/qrisp/algorithms/qaoa/problems/minSetCover.py
index e7d7b13..dc52e21 100644
--- a/src/qrisp/algorithms/qaoa/problems/minSetCover.py
+++ b/src/qrisp/algorithms/qaoa/problems/minSetCover.py
@@ -84,7 +84,7 @@ def create_min_set_cover_cl_cost_function(sets, universe):
             if len(solution_sets) > 0 and set.union(*solution_sets) == universe:
                 cost += len(indices) * prob
             else:
-                cost += len(sets)
+                cost += len(sets) * prob
 
         return cost
 
-- 
2.43.0


From 1221455530d1c293afed0a128baa0dad5a885d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:26:39 +0000
Subject: [PATCH 113/130] fix: update every clause in maximum satisfiability
 reductions

---
 src/qrisp/algorithms/qiro/qiroproblems/qiroMaxSat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxSat.py b/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxSat.py
index 140e924..54296f4 100644
--- a/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxSat.py
+++ b/src/qrisp/algorithms/qiro/qiroproblems/qiroMaxSat.py
@@ -68,7 +68,7 @@ def create_maxsat_replacement_routine(res, problem_updated):
     if isinstance(max_item, int):
         max_item += 1
 
-        for sgl_clause in clauses:
+        for sgl_clause in list(clauses):
             if sign < 0:
                 # clause evaluates to TRUE, can empty the clause
                 if max_item in sgl_clause:
-- 
2.43.0


From fe7b5ac33fe5b4a845a6e6263df57ab252786c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:26:39 +0000
Subject: [PATCH 114/130] fix: keep sets covering an element alone in the set
 cover mixer

---
 src/qrisp/algorithms/qaoa/problems/minSetCover.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/algorithms/qaoa/problems/minSetCover.py b/src/qrisp/algorithms/qaoa/problems/minSetCover.py
index dc52e21..1296c88 100644
--- a/src/qrisp/algorithms/qaoa/problems/minSetCover.py
+++ b/src/qrisp/algorithms/qaoa/problems/minSetCover.py
@@ -45,6 +45,10 @@ def create_min_set_cover_mixer(sets, universe):
         x(anc)
         for anc_index, element in enumerate(sets[i]):
             other_sets = [item for item in membership_dict[element] if item != i]
+            if len(other_sets) == 0:
+                # No other set covers this element
+                x(anc[anc_index])
+                continue
             mcx(
                 [qv[set_index] for set_index in other_sets],
                 anc[anc_index],
-- 
2.43.0


From 2406d87e7e213b2daf17d16b4771c2834dc5b4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:26:39 +0000
Subject: [PATCH 115/130] fix: encode the diagonal of QUBO matrices once in
 counterdiabatic problems

---
 src/qrisp/algorithms/cold/dcqo_problem.py  | 2 +-
 src/qrisp/algorithms/cold/problems/QUBO.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/algorithms/cold/dcqo_problem.py b/src/qrisp/algorithms/cold/dcqo_problem.py
index 629c22b..928ea8c 100644
--- a/src/qrisp/algorithms/cold/dcqo_problem.py
+++ b/src/qrisp/algorithms/cold/dcqo_problem.py
@@ -151,7 +151,7 @@ class DCQOProblem:
         # Qubo characteristics
         self.Q = Q
         self.J = 0.5 * Q
-        self.h = -0.5 * np.diag(Q) - 0.5 * np.sum(Q, axis=1)
+        self.h = -0.5 * np.sum(Q, axis=1)
 
         # Placeholder for the _precompute_timegrid function
         self.lam = None
diff --git a/src/qrisp/algorithms/cold/problems/QUBO.py b/src/qrisp/algorithms/cold/problems/QUBO.py
index 2f96745..39c8ea1 100644
--- a/src/qrisp/algorithms/cold/problems/QUBO.py
+++ b/src/qrisp/algorithms/cold/problems/QUBO.py
@@ -43,7 +43,7 @@ def create_COLD_instance(Q, uniform_AGP_coeffs):
 
     """
     N = len(Q[0])
-    h = -0.5 * np.diag(Q) - 0.5 * np.sum(Q, axis=1)
+    h = -0.5 * np.sum(Q, axis=1)
     J = 0.5 * Q
 
     def lam():
@@ -204,7 +204,7 @@ def create_LCD_instance(Q, agp_type, uniform_AGP_coeffs=True):
         return builders[(agp_type, uniform_AGP_coeffs)]
 
     N = len(Q[0])
-    h = -0.5 * np.diag(Q) - 0.5 * np.sum(Q, axis=1)
+    h = -0.5 * np.sum(Q, axis=1)
     J = 0.5 * Q
 
     def lam():
-- 
2.43.0


From 00dca36e5d7dad4b8ba36eb15a0a58a6dab8a59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:45:42 +0000
Subject: [PATCH 116/130] fix: keep products of number operators when sorting
 fermionic terms

---
 src/qrisp/operators/fermionic/fermionic_term.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/operators/fermionic/fermionic_term.py b/src/qrisp/operators/fermionic/fermionic_term.py
index dcc0b1d..dbff8df 100644
--- a/src/qrisp/operators/fermionic/fermionic_term.py
+++ b/src/qrisp/operators/fermionic/fermionic_term.py
@@ -127,9 +127,16 @@ class FermionicTerm:
                 if ladder_list[i][1] == ladder_list[i + 1][1]:
                     flip_sign = 0
                     break
-                if i > 1 and ladder_list[i][0] == ladder_list[i - 1][0]:
-                    flip_sign = 0
-                    break
+
+        # Alternating ladder operators of the same index satisfy a*c*a = a and c*a*c = c
+        if flip_sign != 0:
+            reduced_list = []
+            for ladder in ladder_list:
+                if len(reduced_list) > 1 and reduced_list[-1][0] == ladder[0] == reduced_list[-2][0]:
+                    reduced_list.pop()
+                else:
+                    reduced_list.append(ladder)
+            ladder_list = reduced_list
 
         return FermionicTerm(ladder_list), flip_sign
 
-- 
2.43.0


From 8fb0e9c5ca8b2d589dd7508584d51aad9a0bba4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:45:42 +0000
Subject: [PATCH 117/130] fix: return the operator from in-place fermionic
 multiplication

---
 src/qrisp/operators/fermionic/fermionic_operator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qrisp/operators/fermionic/fermionic_operator.py b/src/qrisp/operators/fermionic/fermionic_operator.py
index ec15357..db89652 100644
--- a/src/qrisp/operators/fermionic/fermionic_operator.py
+++ b/src/qrisp/operators/fermionic/fermionic_operator.py
@@ -500,6 +500,7 @@ class FermionicOperator(Hamiltonian):
                 res_terms_dict[curr_ladder_term] = res_terms_dict.get(curr_ladder_term, 0) + coeff1 * coeff2
 
         self.terms_dict = res_terms_dict
+        return self
 
     #
     # Miscellaneous
-- 
2.43.0


From 54bf4e08c8f8110696f3c22d48427223adc122d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:45:48 +0000
Subject: [PATCH 118/130] fix: keep complex weights when reducing and evolving
 fermionic operators

---
 .../operators/fermionic/fermionic_operator.py |  3 ++-
 .../operators/fermionic/trotterization.py     | 24 +++++++++++++++----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/operators/fermionic/fermionic_operator.py b/src/qrisp/operators/fermionic/fermionic_operator.py
index db89652..1779104 100644
--- a/src/qrisp/operators/fermionic/fermionic_operator.py
+++ b/src/qrisp/operators/fermionic/fermionic_operator.py
@@ -148,12 +148,13 @@ class FermionicOperator(Hamiltonian):
                 if daggered_sorted_term in new_terms_dict:
                     sorted_term = daggered_sorted_term
                     flip_sign = daggered_flip_sign
+                    coeff = np.conj(coeff)
 
             # Compute the new coefficient.
             new_terms_dict[sorted_term] = flip_sign * coeff + new_terms_dict.get(sorted_term, 0)
 
         for term, coeff in list(new_terms_dict.items()):
-            if isinstance(coeff, (int, float)):
+            if isinstance(coeff, (int, float, complex)):
                 if coeff == 0:
                     del new_terms_dict[term]
 
diff --git a/src/qrisp/operators/fermionic/trotterization.py b/src/qrisp/operators/fermionic/trotterization.py
index e50f3e9..e634d29 100644
--- a/src/qrisp/operators/fermionic/trotterization.py
+++ b/src/qrisp/operators/fermionic/trotterization.py
@@ -15,7 +15,9 @@
 ********************************************************************************
 """
 
-from qrisp import IterationEnvironment, conjugate, merge
+import numpy as np
+
+from qrisp import IterationEnvironment, conjugate, merge, p
 from qrisp.jasp import check_for_tracing_mode, jrange
 from qrisp.operators.hamiltonian_tools import group_up_iterable
 
@@ -109,10 +111,22 @@ def fermionic_trotterization(H, forward_evolution=True):
                             if factor == "Z":
                                 raise Exception("Fermionic matching failed: Z Operator found")
 
-                    qubit_term.simulate(
-                        -coeff * t / steps * qubit_operator.terms_dict[qubit_term] * (-1) ** int(forward_evolution),
-                        new_qarg,
-                    )
+                    coeff = coeff * qubit_operator.terms_dict[qubit_term]
+                    simulate = qubit_term.simulate
+
+                    if np.imag(coeff) != 0:
+                        # The phase of a ladder term can be absorbed into one of its ladder qubits
+                        ladder_index, factor = next(
+                            (i, f) for i, f in qubit_term.factor_dict.items() if f in ["A", "C"]
+                        )
+                        angle = np.angle(coeff) if factor == "C" else -np.angle(coeff)
+                        coeff = np.abs(coeff)
+
+                        def simulate(coeff, qv):
+                            with conjugate(p)(-angle, qv[ladder_index]):
+                                qubit_term.simulate(coeff, qv)
+
+                    simulate(-np.real(coeff) * t / steps * (-1) ** int(forward_evolution), new_qarg)
 
     def U(qarg, t=1, steps=1, iter=1):
         if check_for_tracing_mode():
-- 
2.43.0


From f4cfd7ced43de5c788b9392e6542f2684ae34bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:54:06 +0000
Subject: [PATCH 119/130] fix: unpack the complete state in the traceable
 extended gcd

---
 .../alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py
index 91213dc..978056a 100644
--- a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py
+++ b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py
@@ -282,7 +282,7 @@ def egcd(a: int, b: int):
     """
 
     def cond_fun(state):
-        r, _, _, _ = state
+        r = state[0]
         return jnp.logical_not(r == 0)
 
     def body_fun(state):
-- 
2.43.0


From 12468e6e5714b87d006572922b3cb2653556046b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:54:23 +0000
Subject: [PATCH 120/130] fix: stop refining the quotient digit once its
 remainder exceeds a limb

---
 .../arithmetic/jasp_arithmetic/jasp_bigintiger.py            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
index feefe67..5ab269f 100644
--- a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
+++ b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
@@ -1227,14 +1227,15 @@ def _remainder_division_knuth(u: jnp.ndarray, v: jnp.ndarray) -> tuple[jnp.ndarr
                         vm2 = jnp.uint64(v_norm[m - 2])
                         u0 = jnp.uint64(u_norm[ujm - 2])
 
+                        # Once rhat exceeds a limb, the estimate can't be too large anymore
                         cond1 = jnp.logical_and(
-                            qhat == jnp.uint64(0xFFFFFFFF),
+                            jnp.logical_and(qhat == jnp.uint64(0xFFFFFFFF), rhat < BASE64),
                             qhat * vm2 > (rhat << jnp.uint64(32)) + u0,
                         )
                         qhat = jnp.where(cond1, qhat - jnp.uint64(1), qhat)
                         rhat = jnp.where(cond1, rhat + den, rhat)
 
-                        cond2 = qhat * vm2 > (rhat << jnp.uint64(32)) + u0
+                        cond2 = jnp.logical_and(rhat < BASE64, qhat * vm2 > (rhat << jnp.uint64(32)) + u0)
                         qhat = jnp.where(cond2, qhat - jnp.uint64(1), qhat)
                         rhat = jnp.where(cond2, rhat + den, rhat)
 
-- 
2.43.0


From ab57b94fdd561e6cc906a5b62ab204199a01f01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:54:23 +0000
Subject: [PATCH 121/130] fix: pass the loop state of the continued fraction
 expansion as one value

---
 .../jasp_arithmetic/jasp_bigintiger.py        | 38 ++++++++-----------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
index 5ab269f..4bd094a 100644
--- a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
+++ b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
@@ -1609,20 +1609,14 @@ def bi_contfrac_best_approx(
     if max_iters is None:
         max_iters = int(2 * 32 * n_limbs + 4)
 
+    def _select(pred, on_true: BigInteger, on_false: BigInteger) -> BigInteger:
+        return BigInteger(jnp.where(pred, on_true.digits, on_false.digits))
+
     @jax.jit
-    def _loop(
-        a0: BigInteger,
-        b0: BigInteger,
-        p0: BigInteger,
-        p1: BigInteger,
-        q0: BigInteger,
-        q1: BigInteger,
-        res_p: BigInteger,
-        res_q: BigInteger,
-        done: bool,
-        i: int,
-    ) -> tuple:
+    def _loop(state: tuple) -> tuple:
         """One step of CF with bound handling. Internal helper for while_loop."""
+        a0, b0, p0, p1, q0, q1, res_p, res_q, done, i = state
+
         # Compute quotient and remainder
         quot = a0 // b0
         rem = a0 % b0
@@ -1645,21 +1639,21 @@ def bi_contfrac_best_approx(
         q_bound = t * q1 + q0
 
         # Choose final result when done at this step
-        sel_p = jax.lax.select(exceed, p_bound, pn)
-        sel_q = jax.lax.select(exceed, q_bound, qn)
+        sel_p = _select(exceed, p_bound, pn)
+        sel_q = _select(exceed, q_bound, qn)
 
         # Update result slots if we finish now
-        res_p_next = jax.lax.select(jnp.logical_or(exceed, exact_end), sel_p, res_p)
-        res_q_next = jax.lax.select(jnp.logical_or(exceed, exact_end), sel_q, res_q)
+        res_p_next = _select(jnp.logical_or(exceed, exact_end), sel_p, res_p)
+        res_q_next = _select(jnp.logical_or(exceed, exact_end), sel_q, res_q)
         done_next = jnp.logical_or(done, jnp.logical_or(exceed, exact_end))
 
         # Prepare state for next iteration (if not done)
-        a_next = jax.lax.select(done_next, a0, b0)
-        b_next = jax.lax.select(done_next, b0, rem)
-        p0_next = jax.lax.select(done_next, p0, p1)
-        p1_next = jax.lax.select(done_next, p1, pn)
-        q0_next = jax.lax.select(done_next, q0, q1)
-        q1_next = jax.lax.select(done_next, q1, qn)
+        a_next = _select(done_next, a0, b0)
+        b_next = _select(done_next, b0, rem)
+        p0_next = _select(done_next, p0, p1)
+        p1_next = _select(done_next, p1, pn)
+        q0_next = _select(done_next, q0, q1)
+        q1_next = _select(done_next, q1, qn)
         i_next = i + jnp.int32(1)
         return (
             a_next,
-- 
2.43.0


From 2507f97a93f2d278de0830e5625b6f407599a00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:54:46 +0000
Subject: [PATCH 122/130] fix: extract the order of the given base

---
 src/qrisp/algorithms/shor/shors_algorithm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/algorithms/shor/shors_algorithm.py b/src/qrisp/algorithms/shor/shors_algorithm.py
index c12adaa..9d2bdc5 100644
--- a/src/qrisp/algorithms/shor/shors_algorithm.py
+++ b/src/qrisp/algorithms/shor/shors_algorithm.py
@@ -76,10 +76,11 @@ def find_order(a, N, inpl_adder=None, mes_kwargs={}):
     qg[:] = 1
     qpe_res = QuantumFloat(2 * qg.size + 1, exponent=-(2 * qg.size + 1))
     h(qpe_res)
+    multiplier = a
     for i in range(len(qpe_res)):
         with control(qpe_res[i]):
-            qg *= a
-            a = (a * a) % N
+            qg *= multiplier
+            multiplier = (multiplier * multiplier) % N
     QFT(qpe_res, inv=True, inpl_adder=inpl_adder)
 
     mes_res = qpe_res.get_measurement(**mes_kwargs)
-- 
2.43.0


From bc2496584bb92950cddd310d3dc8152dc4ba1aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:54:46 +0000
Subject: [PATCH 123/130] fix: return the order instead of one of its multiples

---
 src/qrisp/algorithms/shor/shors_algorithm.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/algorithms/shor/shors_algorithm.py b/src/qrisp/algorithms/shor/shors_algorithm.py
index 9d2bdc5..9fa13af 100644
--- a/src/qrisp/algorithms/shor/shors_algorithm.py
+++ b/src/qrisp/algorithms/shor/shors_algorithm.py
@@ -103,16 +103,23 @@ def extract_order(mes_res, a, N):
         r_values = get_r_values(approximations.pop(0))
 
         for r in r_values:
-            if (a**r) % N == 1:
-                return r
+            if pow(int(a), int(r), int(N)) == 1:
+                return reduce_order(r, a, N)
 
         collected_r_values.append(r_values)
         from itertools import product
 
         for comb in product(*collected_r_values):
             r = np.lcm.reduce(comb)
-            if (a**r) % N == 1:
-                return r
+            if pow(int(a), int(r), int(N)) == 1:
+                return reduce_order(r, a, N)
+
+
+def reduce_order(r, a, N):
+    # Every exponent yielding 1 is a multiple of the order
+    for divisor in range(1, int(r) + 1):
+        if r % divisor == 0 and pow(int(a), divisor, int(N)) == 1:
+            return divisor
 
 
 def get_r_values(approx):
-- 
2.43.0


From a7a0871458b8e91e07032bccdd79319302b9e019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:19:15 +0000
Subject: [PATCH 124/130] fix: do not collect global phases on deallocated
 qubits

---
 .../circuit/pass_management/passes/decompose.py     | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/circuit/pass_management/passes/decompose.py b/src/qrisp/circuit/pass_management/passes/decompose.py
index a281561..0a44d3d 100644
--- a/src/qrisp/circuit/pass_management/passes/decompose.py
+++ b/src/qrisp/circuit/pass_management/passes/decompose.py
@@ -34,15 +34,22 @@ def _collect_gphases(qc: QuantumCircuit) -> QuantumCircuit:
     """
     accumulated_phase = 0.0
     kept = []
-    anchor_qubit = None
 
     for instr in qc.data:
         if instr.op.name == "gphase":
             accumulated_phase += instr.op.params[0]
         else:
             kept.append(instr)
-            if instr.op.num_qubits > 0:
-                anchor_qubit = instr.qubits[0]
+
+    # The anchor must not be deallocated
+    anchor_qubit = None
+    deallocated = set()
+    for instr in reversed(kept):
+        if instr.op.name == "qb_dealloc":
+            deallocated.update(instr.qubits)
+        elif instr.op.num_qubits > 0 and instr.qubits[0] not in deallocated:
+            anchor_qubit = instr.qubits[0]
+            break
 
     # Rebuild circuit from kept instructions
     new_qc = qc.clearcopy()
-- 
2.43.0


From 72ea5713c64ccabf6161a826abe0a4198b69dadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:19:15 +0000
Subject: [PATCH 125/130] fix: complement complex polynomials on the same side
 of the circle

---
 src/qrisp/algorithms/gqsp/gqsp_angles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/algorithms/gqsp/gqsp_angles.py b/src/qrisp/algorithms/gqsp/gqsp_angles.py
index e84d912..2000ec2 100644
--- a/src/qrisp/algorithms/gqsp/gqsp_angles.py
+++ b/src/qrisp/algorithms/gqsp/gqsp_angles.py
@@ -331,7 +331,7 @@ def poly_to_nlft_sequence(p: "ArrayLike") -> Array:
     # Find completion q(z) of p(z) such that |p(z)|^2 + |q(z)|^2 = 1 for |z|=1
     q = _complementary_polynomial(p)
 
-    F = _inlft(q, p)
+    F = _inlft(jnp.conjugate(q), p)
     return F, alpha
 
 
-- 
2.43.0


From ff234670208780a7b54b6c37e81a880889e22237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:19:16 +0000
Subject: [PATCH 126/130] fix: correct the single angle of constant singular
 value transforms

---
 src/qrisp/algorithms/gqsp/gqsp_angles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/algorithms/gqsp/gqsp_angles.py b/src/qrisp/algorithms/gqsp/gqsp_angles.py
index 2000ec2..420d2e1 100644
--- a/src/qrisp/algorithms/gqsp/gqsp_angles.py
+++ b/src/qrisp/algorithms/gqsp/gqsp_angles.py
@@ -575,5 +575,5 @@ def qsvt_angles(p: "ArrayLike", parity: Literal["even", "odd"] = "odd") -> tuple
     phi_qsvt = jnp.zeros(d + 1)
     phi_qsvt = phi_qsvt.at[0].set(phi_qsp[0] + (2 * d - 1) * np.pi / 4)
     phi_qsvt = phi_qsvt.at[1:].set(phi_qsp[1:] - np.pi / 2)
-    phi_qsvt = phi_qsvt.at[d].set(phi_qsp[d] - np.pi / 4)
+    phi_qsvt = phi_qsvt.at[d].add(np.pi / 4)
     return phi_qsvt, alpha
-- 
2.43.0


From 87a0e3ef488558bde9663d0a1eaceb7cab173e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:19:16 +0000
Subject: [PATCH 127/130] fix: pseudo-invert instead of transforming the
 singular values only

---
 src/qrisp/algorithms/gqsp/pseudo_inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/algorithms/gqsp/pseudo_inversion.py b/src/qrisp/algorithms/gqsp/pseudo_inversion.py
index 8a8b0e8..da608f5 100644
--- a/src/qrisp/algorithms/gqsp/pseudo_inversion.py
+++ b/src/qrisp/algorithms/gqsp/pseudo_inversion.py
@@ -186,7 +186,7 @@ def pseudo_inversion(
     p = _pseudo_inversion_cheb(theta, delta, eps)
 
     # Set _rescale=False to apply p(A/α) instead of p(A).
-    A_pseudo_inv = QSVT(A, p, kind="Chebyshev", rescale=False)
+    A_pseudo_inv = QSVT(A.dagger(), p, kind="Chebyshev", rescale=False)
 
     # Adjust scaling factor since (A/α)^{-1} = αA^{-1}.
     A_pseudo_inv.alpha = A_pseudo_inv.alpha / A.alpha
-- 
2.43.0


From a7fd8c6d68c9bb9f28ee2fe63a23937823f9be8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:19:43 +0000
Subject: [PATCH 128/130] fix: keep the normalization of a single negative
 unitary positive

---
 src/qrisp/block_encodings/constructors/from_lcu.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/block_encodings/constructors/from_lcu.py b/src/qrisp/block_encodings/constructors/from_lcu.py
index 5d630f2..4f75c7a 100644
--- a/src/qrisp/block_encodings/constructors/from_lcu.py
+++ b/src/qrisp/block_encodings/constructors/from_lcu.py
@@ -23,6 +23,7 @@ import numpy.typing as npt
 
 from qrisp.alg_primitives.state_preparation import prepare
 from qrisp.block_encodings.block_encoding_base import BlockEncoding
+from qrisp.core.gate_application_functions import gphase
 from qrisp.environments import conjugate, invert
 from qrisp.jasp import q_switch, qache
 from qrisp.qtypes import QuantumFloat
@@ -146,10 +147,19 @@ def build_from_lcu(
     # Block encoding of a single unitary (up to normalization)
     if m == 1:
         if np.abs(complex_coeffs[0].imag) < _TOLERANCE:
+            single_unitary = unitaries[0]
+
+            # The normalization is non-negative, a negative sign is part of the unitary
+            if complex_coeffs[0].real < 0:
+
+                def single_unitary(*args):
+                    gphase(np.pi, args[0][0])
+                    unitaries[0](*args)
+
             return cls(
-                complex_coeffs[0].real,
+                alpha,
                 [],
-                unitaries[0],
+                single_unitary,
                 num_ops=num_ops,
                 is_hermitian=is_hermitian,
             )
-- 
2.43.0


From bc96ca891b528928cd95eeb675361f54667d2068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:19:55 +0000
Subject: [PATCH 129/130] fix: transform block encodings without ancillas

---
 src/qrisp/algorithms/gqsp/qet.py               |  3 +++
 .../block_encodings/block_encoding_base.py     | 18 ++++++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/algorithms/gqsp/qet.py b/src/qrisp/algorithms/gqsp/qet.py
index 52bb1ac..f0f0546 100644
--- a/src/qrisp/algorithms/gqsp/qet.py
+++ b/src/qrisp/algorithms/gqsp/qet.py
@@ -171,6 +171,9 @@ def QET(
     phi = angles[1][::-1]
 
     def T2(*args):
+        # Without ancillas, H is a Hermitian unitary and T_2(H) is the identity
+        if m == 0:
+            return
         with conjugate(H.unitary)(*args):
             reflection(args[:m])
         reflection(args[:m])
diff --git a/src/qrisp/block_encodings/block_encoding_base.py b/src/qrisp/block_encodings/block_encoding_base.py
index 1aafccc..d3ef3a2 100644
--- a/src/qrisp/block_encodings/block_encoding_base.py
+++ b/src/qrisp/block_encodings/block_encoding_base.py
@@ -922,7 +922,8 @@ class BlockEncoding:
                 with invert():
                     self.unitary(*self_ancs, *operands)
 
-            reflection(self_ancs)
+            if n > 0:
+                reflection(self_ancs)
 
         new_anc_templates = [QuantumBool().template()] + self._anc_templates
         return BlockEncoding(
@@ -999,6 +1000,11 @@ class BlockEncoding:
 
         m = len(self._anc_templates)
 
+        # The reflection around the zero state of no ancillas is the identity
+        def reflect(args):
+            if m > 0:
+                reflection(args[:m])
+
         iterations = k // 2
 
         # Following https://math.berkeley.edu/~linlin/qasc/qasc_notes.pdf (page 104):
@@ -1008,18 +1014,18 @@ class BlockEncoding:
 
             def new_unitary(*args):
                 for _ in jrange(0, iterations):
-                    reflection(args[:m])
+                    reflect(args)
                     with conjugate(self.unitary)(*args):
-                        reflection(args[:m])
+                        reflect(args)
 
         else:
 
             def new_unitary(*args):
                 for _ in jrange(0, iterations):
-                    reflection(args[:m])
+                    reflect(args)
                     with conjugate(self.unitary)(*args):
-                        reflection(args[:m])
-                reflection(args[:m])
+                        reflect(args)
+                reflect(args)
                 self.unitary(*args)
 
         new_alpha = self.alpha if k == 1 else 1
-- 
2.43.0


From a415f3f2a35318d9c74196bb15e9270fd89942e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:21:57 +0000
Subject: [PATCH 130/130] fix: do not fuse composite gates with allocations

---
 src/qrisp/circuit/pass_management/passes/fuse_adjacents.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
index 2ce2c45..c4b2b75 100644
--- a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
+++ b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
@@ -516,6 +516,10 @@ def _fuse_operations(op_a, op_b, gphase_array):
     #    cancellation only becomes visible after decomposition.
     #    This is an escape hatch for cases where the inverse names
     #    don't match but the decompositions partially cancel.
+    # Allocations are no gates and must not vanish in a fused gate
+    if "qb_alloc" in (op_a.name, op_b.name) or "qb_dealloc" in (op_a.name, op_b.name):
+        return None
+
     if (op_a.definition or op_b.definition) and op_a.num_clbits == 0 == op_b.num_clbits:
         result = _fuse_via_transpile(op_a, op_b)
         if result is not None:
-- 
2.43.0

