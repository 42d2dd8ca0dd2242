"""Converters: export to and import from other frameworks, evaluated by the foreign framework."""
import functools, itertools, math, re, warnings
import numpy as np
import qrisp as q
from mc import ref, circ

NOTE = "every circuit of the stated families is exported with the real converter, the exported object is evaluated with the foreign framework's own matrices, and re-imported where an importer exists"
RULE = "all gate tokens of the alphabet on every assignment of 3 qubits, all pairs over a small alphabet, all short programs with measurement, reset and classical control, and all foreign gates for the importers"

C = ["x", "y", "z", "h", "s", "sdg", "t", "tdg", "sx", "sxdg", "p", "rx", "ry", "rz", "r", "u1", "u3", "gp", "id"]
PAIRS = ["h0", "h2", "t1", "s0", "rx1", "p2", "cx01", "cx21", "x/0:20", "cp12", "swap02", "ccx120", "gp0", "u3/1:10"]
FORMATS = ["qiskit", "cirq", "pytket", "pennylane", "qasm2", "qasm3"]


def singles():
    out = []
    for name, (k, _, _) in circ.GATES.items():
        for qs in itertools.permutations(range(3), k):
            out.append(name + "".join(map(str, qs)))
    for base in C:
        for pat in ["1", "0", "11", "01", "10"]:
            for qs in ([(0, 1), (1, 0), (2, 0), (1, 2)] if len(pat) == 1 else [(0, 1, 2), (2, 0, 1)]):
                out.append("%s/%s:%s" % (base, pat, "".join(map(str, qs))))
    for base in ["swap", "cx", "cz", "cp", "rxx", "rzz", "xxyy", "cy"]:
        for pat in ["1", "0"]:
            for qs in [(0, 1, 2), (2, 0, 1)]:
                out.append("%s/%s:%s" % (base, pat, "".join(map(str, qs))))
    return out


def embed_comp(toks, how):
    """The same gates as a flat circuit, or as a composite gate with permuted wires."""
    if how == "flat":
        return circ.build(3, 0, toks)
    qc = q.QuantumCircuit(3)
    sub = circ.build(3, 0, toks)
    if how == "comp":
        qc.append(sub.to_gate("blk"), qc.qubits)
    elif how == "perm":
        qc.append(sub.to_gate("blk"), [qc.qubits[1], qc.qubits[2], qc.qubits[0]])
    elif how == "inv":
        qc.append(sub.to_gate("blk").inverse(), qc.qubits)
    elif how in ("ctl", "ctl0"):
        qc = q.QuantumCircuit(4)
        qc.append(sub.to_gate("blk").control(1, ctrl_state="1" if how == "ctl" else "0"), [qc.qubits[2], qc.qubits[0], qc.qubits[1], qc.qubits[3]])
    return qc


def ref_unitary(toks, how):
    ops = [(s[1], s[2]) for s in circ.ref_steps(toks)]
    U = ref.unitary(3, ops)
    if how == "perm":
        return ref.unitary(3, [(U, [1, 2, 0])])
    if how == "inv":
        return U.conj().T
    if how in ("ctl", "ctl0"):
        return ref.unitary(4, [(ref.ctrl(U, 1, "1" if how == "ctl" else "0"), [2, 0, 1, 3])])
    return U


# ------------------------------------------------------------------ foreign evaluation
def rev(U):
    n = int(round(math.log2(U.shape[0])))
    T = U.reshape([2] * (2 * n))
    return T.transpose(list(range(n))[::-1] + list(range(n, 2 * n))[::-1]).reshape(U.shape)


def qiskit_unitary(k):
    from qiskit.quantum_info import Operator
    return rev(np.asarray(Operator(k).data))


def evaluate(fmt, qc):
    n = len(qc.qubits)
    if fmt == "qiskit":
        return qiskit_unitary(qc.to_qiskit())
    if fmt == "cirq":
        import cirq
        k = qc.to_cirq()
        return cirq.Circuit([cirq.I.on_each(*cirq.LineQubit.range(n))] + list(k.all_operations())).unitary(qubit_order=cirq.LineQubit.range(n), qubits_that_should_be_present=cirq.LineQubit.range(n))
    if fmt == "pytket":
        import pytket
        from pytket.passes import DecomposeBoxes
        k = qc.to_pytket().copy()
        names = [pytket.Qubit(b.identifier, i) for i, b in enumerate(qc.qubits)]
        if set(k.qubits) != set(names):
            raise ValueError("qubits are named %s" % k.qubits)
        k.rename_units({a: pytket.Qubit("z", i) for i, a in enumerate(names)})
        DecomposeBoxes().apply(k)
        return k.get_unitary()
    if fmt == "pennylane":
        import pennylane as qml
        f = qc.to_pennylane()
        order = [b.identifier for b in qc.qubits]

        def g():
            f()
            for w in order:
                qml.Identity(w)
        return np.asarray(qml.matrix(g, wire_order=order)())
    if fmt == "qasm2":
        import qiskit.qasm2
        s = qc.to_qasm2()
        return qiskit_unitary(qiskit.qasm2.loads(s, custom_instructions=qiskit.qasm2.LEGACY_CUSTOM_INSTRUCTIONS))
    if fmt == "qasm3":
        return None


def may_refuse(fmt, toks, how):
    """What a format is not expected to express: an error is then as good as a faithful export."""
    bases = {re.match("[a-zA-Z]*", t).group() for t in toks}
    if any(t.startswith("?") for t in toks):
        return fmt not in ("qiskit", "qiskit_back")
    if fmt == "cirq":
        return how.startswith("ctl") or bool(bases & {"cy", "r", "u", "y", "bar"})
    if fmt == "pennylane":
        return how.startswith("ctl") or "xxyy" in bases
    if fmt == "pytket":
        return how == "wrap" or bool(bases & {"r", "R", "bar"})
    return False


def check_unitary(fmt, toks, how):
    if may_refuse(fmt, toks, how):
        try:
            evaluate(fmt, embed_comp(toks, how))
        except Exception:
            return None
    qc = embed_comp(toks, how)
    e = ref_unitary(toks, how)
    before = circ.snapshot(qc)
    try:
        U = evaluate(fmt, qc)
    except (NotImplementedError, ValueError) as ex:
        return "refused: %r" % ex
    if circ.snapshot(qc) != before:
        return "export changed the circuit"
    if U.shape != e.shape:
        return "exported circuit acts on %d dimensions instead of %d" % (U.shape[0], e.shape[0])
    if not ref.close_gphase(U, e):
        return "exported circuit is a different unitary"


def check_back(fmt, toks, how):
    qc = embed_comp(toks, how)
    if may_refuse(fmt, toks, how):
        try:
            evaluate(fmt, qc)
        except Exception:
            return None
    e = ref_unitary(toks, how)
    if fmt == "qiskit":
        b = q.QuantumCircuit.from_qiskit(qc.to_qiskit())
        if [x.identifier for x in b.qubits] != [x.identifier for x in qc.qubits]:
            return "qubit names change on the way"
    elif fmt == "cirq":
        import cirq
        k = qc.to_cirq()
        n = len(qc.qubits)
        b = q.QuantumCircuit.from_cirq(cirq.Circuit([cirq.I.on_each(*cirq.LineQubit.range(n))] + list(k.all_operations())))
    elif fmt == "qasm2":
        b = q.QuantumCircuit.from_qasm_str(qc.qasm())
    U = circ.unitary_of(b)
    if U.shape != e.shape:
        return "re-imported circuit has %d dimensions instead of %d" % (U.shape[0], e.shape[0])
    if not ref.close_gphase(U, e):
        return "re-imported circuit is a different unitary"
    U = np.asarray(b.get_unitary(), dtype=complex)
    if not ref.close_gphase(U, e):
        return "the matrix of the re-imported circuit is wrong"


# ------------------------------------------------------------------ non-unitary circuits
def qiskit_steps(k, qmap=None, cmap=None):
    """Reference steps of a Qiskit circuit (read with Qiskit's own accessors)."""
    from qiskit.quantum_info import Operator
    if qmap is None:
        qmap = {b: i for i, b in enumerate(k.qubits)}
        cmap = {b: i for i, b in enumerate(k.clbits)}
    out = []
    for ins in k.data:
        op = ins.operation
        qs = [qmap[b] for b in ins.qubits]
        cs = [cmap[b] for b in ins.clbits]
        if op.name == "measure":
            out.append(("m", qs[0], cs[0]))
        elif op.name == "reset":
            out.append(("r", qs[0]))
        elif op.name == "barrier":
            continue
        elif op.name == "if_else":
            bit, val = op.condition
            bits = [bit] if not hasattr(bit, "size") else list(bit)
            if not hasattr(bit, "size"):
                vals = (int(val),)
            else:
                vals = tuple((int(val) >> i) & 1 for i in range(bit.size))
            body = op.blocks[0]
            sub = qiskit_steps(body, {b: qs[i] for i, b in enumerate(body.qubits)}, {b: cs[i] for i, b in enumerate(body.clbits)})
            cb = [cmap[b] for b in bits]
            for s in sub:
                if s[0] == "u":
                    out.append(("cu", s[1], s[2], cb, vals))
                elif s[0] == "cu":
                    out.append(("cu", s[1], s[2], cb + list(s[3]), tuple(vals) + tuple(s[4])))
                elif s[0] == "r":
                    out.append(("cr", s[1], tuple(cb), vals))
                elif s[0] == "m":
                    out.append(("cm", s[1], s[2], tuple(cb), vals))
        else:
            try:
                U = rev(np.asarray(Operator(op).data))
                out.append(("u", U, qs))
            except Exception:
                d = op.definition
                out += qiskit_steps(d, {b: qs[i] for i, b in enumerate(d.qubits)}, {b: cs[i] for i, b in enumerate(d.clbits)})
    return out


MID = ["h0", "x1", "cx01", "m0>0", "m1>1", "m1>0", "R0", "bar", "?01:x1", "?00:x0", "?11:h0", "?01:cx01", "?0110:x0", "?01:x/0:10", "?01:blk"]
SUB = None


def build_mid(toks, wrap=None):
    qc = circ.build(2, 2, [t for t in ()])
    for t in toks:
        if t.endswith(":blk"):
            sub = circ.build(2, 0, ["h0", "cx01"]).to_gate("blk")
            qc.append(sub.c_if(1, 1), qc.qubits, [qc.clbits[0]])
        else:
            circ.tok_step(t)[0](qc)
    if wrap:
        big = q.QuantumCircuit(3, 3)
        big.append(qc.to_op("prog"), [big.qubits[2], big.qubits[0]], [big.clbits[1], big.clbits[2]])
        return big
    return qc


def ref_mid(toks):
    st = []
    for t in toks:
        if t.endswith(":blk"):
            st += [("cu", ref.H, [0], [0], (1,)), ("cu", ref.ctrl(ref.X), [0, 1], [0], (1,))]
        else:
            r = circ.tok_step(t)[1]
            if r is not None:
                st.append(r)
    return st


def relabel(steps, qm, cm):
    out = []
    for s in steps:
        if s[0] == "u":
            out.append(("u", s[1], [qm[i] for i in s[2]]))
        elif s[0] == "m":
            out.append(("m", qm[s[1]], cm[s[2]]))
        elif s[0] == "r":
            out.append(("r", qm[s[1]]))
        elif s[0] == "cu":
            out.append(("cu", s[1], [qm[i] for i in s[2]], [cm[i] for i in s[3]], s[4]))
        else:
            raise ValueError(s[0])
    return out


def same_instrument(n, nc, a, b):
    """Same joint classical outcome distribution and same state for each classical outcome, from |0..0> and from |+..+>."""
    for start in ("0", "+"):
        pre = [] if start == "0" else [("u", ref.H, [i]) for i in range(n)] + [("u", ref.T, [i]) for i in range(n)]
        ba, bb = ref.branches(n, nc, pre + a), ref.branches(n, nc, pre + b)
        da, db = {}, {}
        for d, br in ((da, ba), (db, bb)):
            for c, s in br:
                v = np.asarray(s).ravel()
                d[c] = d.get(c, 0) + np.outer(v, v.conj())
        for c in set(da) | set(db):
            if np.abs(da.get(c, 0) - db.get(c, 0)).max() > 1e-4:
                return "outcome %s has probability %.4f instead of %.4f or leaves another state (inputs %s)" % (
                    c, np.trace(np.atleast_2d(da.get(c, np.zeros((1, 1))))).real, np.trace(np.atleast_2d(db.get(c, np.zeros((1, 1))))).real, start)


def check_mid(fmt, toks, wrap):
    qc = build_mid(toks, wrap)
    st = ref_mid(toks)
    n = 2
    if wrap:
        n = 3
        st = relabel(st, [2, 0], [1, 2])
    before = circ.snapshot(qc)
    if may_refuse(fmt, toks, "wrap" if wrap else ""):
        try:
            {"pytket": qc.to_pytket, "cirq": qc.to_cirq, "qasm2": qc.to_qasm2}[fmt]()
        except Exception:
            return None
    if fmt == "qiskit":
        k = qc.to_qiskit()
        if [b._register.name if b._register.size == 1 else None for b in k.clbits] != [b.identifier for b in qc.clbits]:
            return "classical bits are renamed or reordered"
        got = qiskit_steps(k)
    elif fmt == "qiskit_back":
        got = circ.steps_of(q.QuantumCircuit.from_qiskit(qc.to_qiskit()))
    elif fmt == "qasm2":
        import qiskit.qasm2
        got = qiskit_steps(qiskit.qasm2.loads(qc.to_qasm2(), custom_instructions=qiskit.qasm2.LEGACY_CUSTOM_INSTRUCTIONS))
    elif fmt == "pytket":
        got = pytket_steps(qc)
    elif fmt == "cirq":
        got = cirq_steps(qc)
    if circ.snapshot(qc) != before:
        return "export changed the circuit"
    return same_instrument(n, n, got, st)


def pytket_steps(qc):
    import pytket
    from pytket import OpType
    from pytket.passes import DecomposeBoxes
    k = qc.to_pytket()
    DecomposeBoxes().apply(k)
    names = {pytket.Qubit(b.identifier, i): i for i, b in enumerate(qc.qubits)}
    bits = {b: i for i, b in enumerate(k.bits)}
    out = []
    for cmd in k.get_commands():
        op = cmd.op
        if op.type == OpType.Measure:
            out.append(("m", names[cmd.args[0]], bits[cmd.args[1]]))
        elif op.type == OpType.Reset:
            out.append(("r", names[cmd.args[0]]))
        elif op.type == OpType.Barrier:
            pass
        else:
            out.append(("u", np.asarray(op.get_unitary()), [names[a] for a in cmd.args]))
    return out


def cirq_steps(qc):
    """Measurements appear in program order; the j-th one belongs to the j-th measure instruction."""
    import cirq
    order = [c for t in flat_measures(qc) for c in [t]]
    out, j = [], 0
    for op in qc.to_cirq().all_operations():
        qs = [x.x for x in op.qubits]
        if cirq.is_measurement(op):
            for a in qs:
                cands = [i for i, (qq, cc) in enumerate(order) if qq == a]
                if not cands:
                    raise ValueError("unexpected measurement")
                out.append(("m", a, order.pop(cands[0])[1]))
        elif isinstance(op.gate, cirq.ResetChannel):
            out.append(("r", qs[0]))
        else:
            out.append(("u", cirq.unitary(op), qs))
    return out


def flat_measures(qc):
    return [(s[1], s[2]) for s in circ.steps_of(qc) if s[0] == "m"]


# ------------------------------------------------------------------ stim
CLIFF = ["h0", "s0", "sdg1", "x1", "y0", "z2", "sx1", "sxdg2", "id0", "cx01", "cx20", "cy12", "cz02", "swap12", "m0>0", "m1>1", "m2>0", "R1", "?01:x1", "?01:z0", "?01:y2", "?00:x2", "?11:x0", "?0111:x0", "bar", "gp0", "x/0:01"]


def stim_steps(qc):
    """Executes the exported stim circuit line by line with stim's own gate matrices."""
    import stim
    c, mm = qc.to_stim(return_measurement_map=True)
    rec_of = {i: None for i in range(c.num_measurements)}
    n = len(qc.qubits)
    steps, m = [], 0
    for ins in c.flattened():
        t = ins.targets_copy()
        if ins.name == "M":
            for x in t:
                steps.append(("m", x.value, m))
                m += 1
        elif ins.name == "R":
            steps += [("r", x.value) for x in t]
        elif ins.name == "TICK":
            pass
        else:
            U = stim.gate_data(ins.name).unitary_matrix
            U = np.asarray(U)
            if U.shape == (2, 2):
                steps += [("u", U, [x.value]) for x in t]
            else:
                for a, b in zip(t[::2], t[1::2]):
                    if a.is_measurement_record_target:
                        P = {"CX": ref.X, "CY": ref.Y, "CZ": ref.Z}[ins.name]
                        steps.append(("cu", P, [b.value], [m + a.value], (1,)))
                    else:
                        # stim matrices are little endian
                        steps.append(("u", rev(U), [a.value, b.value]))
    return steps, m, mm


def check_stim(toks):
    qc = circ.build(3, 2, toks)
    before = circ.snapshot(qc)
    try:
        steps, m, mm = stim_steps(qc)
    except (NotImplementedError, ValueError) as ex:
        if any(t.startswith("?") or t.startswith("gp") or "/" in t for t in toks):
            return None      # conditions Stim cannot express may be refused
        return "refused: %r" % ex
    if circ.snapshot(qc) != before:
        return "export changed the circuit"
    ref_st = circ.ref_steps(toks)
    # measurement record -> classical bits
    idx = {cb: i for i, cb in enumerate(qc.clbits)}
    last = {idx[cb]: r for cb, r in mm.items()}
    for start in ("0", "+"):
        pre = [] if start == "0" else [("u", ref.H, [i]) for i in range(3)] + [("u", ref.T, [i]) for i in range(3)]
        da, db = {}, {}
        for c, s in ref.branches(3, max(m, 1), pre + steps):
            v = np.asarray(s).ravel()
            key = tuple(c[last[i]] if i in last else 0 for i in range(2))
            da[key] = da.get(key, 0) + np.outer(v, v.conj())
        for c, s in ref.branches(3, 2, pre + ref_st):
            v = np.asarray(s).ravel()
            db[tuple(c)] = db.get(tuple(c), 0) + np.outer(v, v.conj())
        z = np.zeros((8, 8))
        for c in set(da) | set(db):
            if np.abs(da.get(c, z) - db.get(c, z)).max() > 1e-4:
                return "outcome %s has probability %.4f instead of %.4f or leaves another state" % (c, np.trace(da.get(c, z)).real, np.trace(db.get(c, z)).real)


# ------------------------------------------------------------------ importers on foreign gates
@functools.lru_cache(None)
def qiskit_foreign():
    import qiskit
    from qiskit.circuit.library import standard_gates as g
    out = {}
    for name in ["XGate", "YGate", "ZGate", "HGate", "SGate", "SdgGate", "TGate", "TdgGate", "SXGate", "SXdgGate", "IGate", "CXGate", "CYGate", "CZGate", "CHGate", "CSGate", "CSdgGate", "CSXGate", "SwapGate", "iSwapGate", "DCXGate", "ECRGate", "CCXGate", "CCZGate", "CSwapGate", "RCCXGate"]:
        out[name] = getattr(g, name)()
    for name, k in [("RXGate", 1), ("RYGate", 1), ("RZGate", 1), ("PhaseGate", 1), ("U1Gate", 1), ("U2Gate", 2), ("U3Gate", 3), ("UGate", 3), ("RGate", 2), ("CRXGate", 1), ("CRYGate", 1), ("CRZGate", 1), ("CPhaseGate", 1), ("CU1Gate", 1), ("CU3Gate", 3), ("CUGate", 4), ("RXXGate", 1), ("RYYGate", 1), ("RZZGate", 1), ("RZXGate", 1), ("XXPlusYYGate", 2), ("XXMinusYYGate", 2)]:
        out[name] = getattr(g, name)(*[0.7, -1.3, 2.1, 0.4][:k])
    base = dict(out)
    for name in ["XGate", "YGate", "ZGate", "HGate", "SGate", "SXGate", "RXGate", "RYGate", "RZGate", "PhaseGate", "UGate", "U1Gate", "U3Gate", "RGate", "SwapGate", "RZZGate"]:
        for k, st in [(1, 0), (1, 1), (2, 1), (2, 2), (2, 3)]:
            if base[name].num_qubits + k <= 3:
                out["%s.control(%d,%d)" % (name, k, st)] = base[name].control(k, ctrl_state=st)
    out["GlobalPhase"] = None
    return out


def check_from_qiskit(name, perm, how):
    import qiskit
    from qiskit import QuantumCircuit, QuantumRegister
    op = qiskit_foreign()[name]
    if how == "regs":
        k = QuantumCircuit(QuantumRegister(2, "a"), QuantumRegister(1, "b"))
    else:
        k = QuantumCircuit(3)
    k.h(0)
    k.t(0)
    if op is None:
        k.global_phase = 0.9
    else:
        k.append(op, list(perm)[:op.num_qubits])
    if how == "sub":
        sub = k.to_gate()
        k = QuantumCircuit(3)
        k.append(sub, [2, 0, 1])
    b = q.QuantumCircuit.from_qiskit(k)
    e = qiskit_unitary(k)
    if not ref.close(circ.unitary_of(b), e) if how != "loose" else not ref.close_gphase(circ.unitary_of(b), e):
        if ref.close_gphase(circ.unitary_of(b), e):
            return None
        return "imported circuit is a different unitary"
    if not ref.close_gphase(np.asarray(b.get_unitary(), dtype=complex), e):
        return "the matrix of the imported circuit is wrong"


@functools.lru_cache(None)
def cirq_foreign():
    import cirq
    out = {}
    for nm, g in [("X", cirq.X), ("Y", cirq.Y), ("Z", cirq.Z)]:
        for e in [1, 0.5, -0.5, 0.25, -0.25, 0.3, 2, 3, -1, 1.5, 0, 0.75]:
            out["%s**%s" % (nm, e)] = g ** e
            out["C(%s**%s)" % (nm, e)] = (g ** e).controlled(1, control_values=[0])
    for e in [1, -1, 3]:
        out["H**%d" % e] = cirq.H ** e
        out["CX**%d" % e] = cirq.CX ** e
        out["CZ**%d" % e] = cirq.CZ ** e
        out["SWAP**%d" % e] = cirq.SWAP ** e
    for e in [0.5, 2, 0.3, 0]:
        out["H**%s" % e] = cirq.H ** e
        out["CX**%s" % e] = cirq.CX ** e
        out["CZ**%s" % e] = cirq.CZ ** e
        out["SWAP**%s" % e] = cirq.SWAP ** e
    for t in [0.7, math.pi / 2, math.pi, 2 * math.pi, -math.pi]:
        for nm, f in [("rx", cirq.rx), ("ry", cirq.ry), ("rz", cirq.rz)]:
            out["%s(%.4f)" % (nm, t)] = f(t)
            out["C%s(%.4f)" % (nm, t)] = f(t).controlled(2, control_values=[0, 1])
    out["I"] = cirq.I
    out["I2"] = cirq.IdentityGate(2)
    out["CCX"] = cirq.CCX
    out["CCZ"] = cirq.CCZ
    out["ISWAP"] = cirq.ISWAP
    out["CSWAP"] = cirq.CSWAP
    out["XX"] = cirq.XX ** 0.3
    out["ZZ"] = cirq.ZZ ** 0.3
    out["X.shift"] = cirq.XPowGate(exponent=1.0, global_shift=-0.5)
    out["C.X.shift"] = cirq.XPowGate(exponent=1.0, global_shift=-0.5).controlled(1)
    out["C.Z.shift"] = cirq.ZPowGate(exponent=0.5, global_shift=0.25).controlled(1)
    out["gphase"] = cirq.GlobalPhaseGate(np.exp(0.4j))
    out["C.gphase"] = cirq.GlobalPhaseGate(np.exp(0.4j)).controlled(1)
    out["CC.X"] = cirq.X.controlled(1).controlled(1, control_values=[0])
    out["CX.c0"] = cirq.CX.controlled(1, control_values=[0])
    return out


def check_from_cirq(name, perm, how):
    import cirq
    g = cirq_foreign()[name]
    qs = cirq.LineQubit.range(3)
    n = cirq.num_qubits(g)
    ops = [cirq.I.on_each(*qs), cirq.H(qs[0]), cirq.T(qs[0])]
    if how == "op" and n >= 1 and n < 3:
        t = [qs[i] for i in perm[:n + 1]]
        ops.append(g.on(*t[1:]).controlled_by(t[0], control_values=[0]))
    else:
        ops.append(g.on(*[qs[i] for i in perm[:n]]))
    k = cirq.Circuit(ops)
    e = k.unitary(qubit_order=qs)
    try:
        b = q.QuantumCircuit.from_cirq(k)
    except ValueError:
        return None
    if not ref.close_gphase(circ.unitary_of(b), e):
        return "imported circuit is a different unitary"


# ------------------------------------------------------------------ parameters
def check_symbolic(fmt, gate, pat, angle):
    import sympy
    a, b = sympy.symbols("a b")
    expr = {"a": a, "2a": 2 * a, "a+b": a + b, "-a/3+1": -a / 3 + 1, "a*b": a * b}[angle]
    vals = {a: 0.37, b: -1.21}
    mk = {"rx": q.RXGate, "ry": q.RYGate, "rz": q.RZGate, "p": q.PGate, "cp": q.CPGate, "rzz": q.RZZGate, "rxx": q.RXXGate, "gphase": q.GPhaseGate}[gate]
    rf = {"rx": ref.rx, "ry": ref.ry, "rz": ref.rz, "p": ref.p, "cp": lambda t: ref.ctrl(ref.p(t)), "rzz": ref.rzz, "rxx": ref.rxx, "gphase": ref.gphase}[gate]
    op = mk(expr)
    U = rf(float(expr.subs(vals)))
    if pat:
        op = op.control(len(pat), ctrl_state=pat)
        U = ref.ctrl(U, len(pat), pat)
    qc = q.QuantumCircuit(3)
    qc.h(0)
    qc.append(op, qc.qubits[:op.num_qubits])
    qc.h(0)
    e = ref.unitary(3, [(ref.H, [0]), (U, list(range(op.num_qubits))), (ref.H, [0])])
    if fmt in ("qiskit", "qiskit_back"):
        k = qc.to_qiskit()
        if fmt == "qiskit_back":
            bk = q.QuantumCircuit.from_qiskit(k)
            got = np.asarray(bk.bind_parameters({s: vals[sympy.Symbol(str(s))] for s in bk.abstract_params}).get_unitary(), dtype=complex)
        else:
            got = qiskit_unitary(k.assign_parameters({p: vals[sympy.Symbol(p.name)] for p in k.parameters}))
    else:
        import pennylane as qml
        f = qc.to_pennylane()
        order = [x.identifier for x in qc.qubits]

        def g():
            f(subs_dic=vals)
            for w in order:
                qml.Identity(w)
        got = np.asarray(qml.matrix(g, wire_order=order)())
    if not ref.close_gphase(got, e):
        return "exported symbolic circuit with values substituted is a different unitary"


# ------------------------------------------------------------------ shards
HOWS = ["flat", "comp", "perm", "inv", "ctl", "ctl0"]


def shards(tier):
    out = []
    n = 3
    for fmt in ["qiskit", "cirq", "pytket", "pennylane", "qasm2"]:
        for i in range(n):
            out.append(["single", fmt, i, n])
        out.append(["pairs", fmt])
    for fmt in ["qiskit", "qiskit_back", "qasm2", "pytket", "cirq"]:
        for a in range(4):
            out.append(["mid", fmt, 3 if tier == "quick" else 4, a, 4])
    for a in range(4):
        out.append(["stim", 3, a, 4])
    out += [["from_qiskit", i, 2] for i in range(2)] + [["from_cirq"]]
    out += [["sym"]]
    return out


def mid_alphabet(fmt):
    if fmt in ("pytket", "cirq"):
        return ["h0", "x1", "cx01", "m0>0", "m1>1", "m1>0", "R0", "bar"]
    if fmt == "qasm2":
        return ["h0", "x1", "cx01", "m0>0", "m1>1", "m1>0", "R0", "bar"]
    return MID


def run(shard, ctx):
    warnings.simplefilter("ignore")
    kind = shard[0]
    if kind in ("single", "pairs"):
        fmt = shard[1]
        if kind == "single":
            S = singles()
            seqs = [(t,) for i, t in enumerate(S) if i % shard[3] == shard[2]]
            hows = ["flat", "perm", "ctl"] if ctx.tier == "quick" else HOWS
        else:
            seqs = list(itertools.product(PAIRS, repeat=2))
            hows = ["flat", "perm", "ctl0"] if ctx.tier == "quick" else HOWS
        for s in seqs:
            for how in hows:
                key = "%s %s %s %s" % (kind, fmt, how, " ".join(s))
                if ctx.wants(key):
                    ctx.state(kind, how, s)
                    ctx.step(len(s))
                    ctx.case(key, check_unitary, fmt, s, how)
                if fmt in ("qiskit", "cirq", "qasm2") and how in ("flat", "perm"):
                    key = "%s %s-back %s %s" % (kind, fmt, how, " ".join(s))
                    if ctx.wants(key):
                        ctx.step(len(s))
                        ctx.case(key, check_back, fmt, s, how)
    elif kind == "mid":
        fmt = shard[1]
        al = mid_alphabet(fmt)
        i = -1
        for L in range(1, shard[2] + 1):
            for s in itertools.product(al, repeat=L):
                if fmt == "cirq" and (sum(t[0] == "m" for t in s) != len({t[1] for t in s if t[0] == "m"}) or sum(t[0] == "m" for t in s) != len({t[3] for t in s if t[0] == "m"})):
                    continue
                i += 1
                if i % shard[4] != shard[3]:
                    continue
                for wrap in ([0, 1] if not any("?" in t for t in s) and fmt in ("qiskit", "pytket") else [0]):
                    key = "mid %s %s%s" % (fmt, " ".join(s), " (as composite)" if wrap else "")
                    if ctx.wants(key):
                        ctx.state("mid", s, wrap)
                        ctx.step(len(s))
                        ctx.case(key, check_mid, fmt, s, wrap)
    elif kind == "stim":
        i = -1
        for L in range(1, shard[1] + 1):
            for s in itertools.product(CLIFF, repeat=L):
                i += 1
                if i % shard[3] != shard[2]:
                    continue
                key = "stim %s" % " ".join(s)
                if ctx.wants(key):
                    ctx.state("stim", s)
                    ctx.step(L)
                    ctx.case(key, check_stim, s)
    elif kind == "from_qiskit":
        for j, name in enumerate(qiskit_foreign()):
            if j % shard[2] != shard[1]:
                continue
            for perm in [(0, 1, 2), (2, 0, 1), (1, 0, 2)]:
                for how in ["plain", "regs", "sub"]:
                    key = "from_qiskit %s %s %s" % (name, "".join(map(str, perm)), how)
                    if ctx.wants(key):
                        ctx.state(key)
                        ctx.step(1)
                        ctx.case(key, check_from_qiskit, name, perm, how)
    elif kind == "from_cirq":
        for name in cirq_foreign():
            for perm in [(0, 1, 2), (2, 0, 1), (1, 0, 2)]:
                for how in ["gate", "op"]:
                    key = "from_cirq %s %s %s" % (name, "".join(map(str, perm)), how)
                    if ctx.wants(key):
                        ctx.state(key)
                        ctx.step(1)
                        ctx.case(key, check_from_cirq, name, perm, how)
    elif kind == "sym":
        for fmt in ["qiskit", "qiskit_back", "pennylane"]:
            for gate in ["rx", "ry", "rz", "p", "cp", "rzz", "rxx", "gphase"]:
                for pat in ["", "1", "0"]:
                    for angle in ["a", "2a", "a+b", "-a/3+1", "a*b"]:
                        key = "sym %s %s/%s %s" % (fmt, gate, pat, angle)
                        if ctx.wants(key):
                            ctx.state(key)
                            ctx.step(1)
                            ctx.case(key, check_symbolic, fmt, gate, pat, angle)
