"""Circuit tokens shared by the circuit-level checks.

A token is a tuple (name, qubits, clbits, extra); GATES gives, for each name, how to build the
operation with the public API and, independently, its reference matrix.
"""
import math
import numpy as np
import qrisp as q
from qrisp import circuit as qcir
from mc import ref

A1, A2, A3 = 0.7, -1.3, 2.1


def _g(f, *a):
    return lambda: f(*a)


XXYY_REF = None


def xxyy_ref(phi, beta):
    # definition of the XX+YY interaction with phase beta on the first qubit:
    # RZ0(-beta) exp(-i phi/2 (XX+YY)/2) RZ0(beta)
    A = (np.kron(ref.X, ref.X) + np.kron(ref.Y, ref.Y)) / 2
    rz0 = np.kron(ref.rz(beta), ref.I2)
    return rz0.conj().T @ ref.expm_herm(A, phi / 2) @ rz0


GATES = {
    "x": (1, _g(q.XGate), ref.X), "y": (1, _g(q.YGate), ref.Y), "z": (1, _g(q.ZGate), ref.Z),
    "h": (1, _g(q.HGate), ref.H),
    "s": (1, _g(q.SGate), ref.S), "sdg": (1, lambda: q.SGate().inverse(), ref.S.conj()),
    "t": (1, _g(q.TGate), ref.T), "tdg": (1, lambda: q.TGate().inverse(), ref.T.conj()),
    "sx": (1, _g(q.SXGate), ref.rx(math.pi / 2)), "sxdg": (1, _g(q.SXDGGate), ref.rx(-math.pi / 2)),
    "id": (1, _g(q.IDGate), ref.I2),
    "p": (1, _g(q.PGate, A1), ref.p(A1)), "rx": (1, _g(q.RXGate, A1), ref.rx(A1)),
    "ry": (1, _g(q.RYGate, A2), ref.ry(A2)), "rz": (1, _g(q.RZGate, A3), ref.rz(A3)),
    "r": (1, _g(q.RGate, A1, A2), np.array([[math.cos(A1/2), np.exp(-1j*A2)*math.sin(A1/2)], [-np.exp(1j*A2)*math.sin(A1/2), math.cos(A1/2)]])),
    "u1": (1, _g(q.U1Gate, A1), ref.rz(A1)),
    "u3": (1, _g(q.u3Gate, A1, A2, A3), ref.u3(A1, A2, A3)),
    "gp": (1, _g(q.GPhaseGate, A1), ref.gphase(A1)),
    "cx": (2, _g(q.CXGate), ref.ctrl(ref.X)), "cy": (2, _g(q.CYGate), ref.ctrl(ref.Y)), "cz": (2, _g(q.CZGate), ref.ctrl(ref.Z)),
    "cp": (2, _g(q.CPGate, A1), ref.ctrl(ref.p(A1))), "cp0": (2, _g(q.CPGate, 0.0), np.eye(4)),
    "cppi": (2, _g(q.CPGate, math.pi), ref.ctrl(ref.Z)),
    "swap": (2, _g(q.SwapGate), ref.SWAP), "rxx": (2, _g(q.RXXGate, A1), ref.rxx(A1)), "rzz": (2, _g(q.RZZGate, A1), ref.rzz(A1)),
    "xxyy": (2, _g(q.XXYYGate, A1, A2), xxyy_ref(A1, A2)),
    "crx": (2, _g(q.MCRXGate, A1, 1), ref.ctrl(ref.rx(A1))),
    "ccx": (3, _g(q.MCXGate, 2), ref.ctrl(ref.X, 2)),
}


def is_cl(op):
    return op.name.startswith("c_if") and hasattr(op, "base_op")


NOOPS = ("barrier", "qb_alloc", "qb_dealloc")


def steps_of(qc, qmap=None, cmap=None, expand=True):
    """Reference steps of a circuit of the code under test, composite operations unpacked
    recursively through their definition."""
    if qmap is None:
        qmap = {qb: i for i, qb in enumerate(qc.qubits)}
        cmap = {cb: i for i, cb in enumerate(qc.clbits)}
    out = []
    for ins in qc.data:
        op = ins.op
        qs = [qmap[b] for b in ins.qubits]
        cs = [cmap[b] for b in ins.clbits]
        if op.name == "measure":
            out.append(("m", qs[0], cs[0]))
        elif op.name == "reset":
            out.append(("r", qs[0]))
        elif op.name in NOOPS:
            continue
        elif is_cl(op) and not op.definition:
            n = op.num_control
            vals = tuple(int(v) for v in op.ctrl_state)
            base = op.base_op
            while is_cl(base):  # nested conditions; the inner one reads the following classical bits
                vals += tuple(int(v) for v in base.ctrl_state)
                n += base.num_control
                base = base.base_op
            if base.name == "measure":
                out.append(("cm", qs[0], cs[n], tuple(cs[:n]), vals))
            elif base.name == "reset":
                out.append(("cr", qs[0], tuple(cs[:n]), vals))
            elif base.name in NOOPS:
                continue
            else:
                out.append(("cu", np.asarray(base.get_unitary(), dtype=complex), qs, cs[:n], vals))
        elif op.definition is not None and expand:
            d = op.definition
            sub_q = {b: qs[i] for i, b in enumerate(d.qubits)}
            sub_c = {b: cs[i] for i, b in enumerate(d.clbits)}
            out += steps_of(d, sub_q, sub_c)
        else:
            out.append(("u", np.asarray(op.get_unitary(), dtype=complex), qs))
    return out


def unitary_of(qc, expand=True):
    st = steps_of(qc, expand=expand)
    assert all(s[0] == "u" for s in st)
    return ref.unitary(len(qc.qubits), [(s[1], s[2]) for s in st])


def snapshot(qc):
    """Structural snapshot used to check that an input circuit is left unchanged."""
    return (tuple(b.identifier for b in qc.qubits), tuple(b.identifier for b in qc.clbits),
            tuple((i.op.name, tuple(map(str, i.op.params)), tuple(b.identifier for b in i.qubits), tuple(b.identifier for b in i.clbits)) for i in qc.data))


# ---------------------------------------------------------------- tokens
# strings: gate name + qubit digits, e.g. "cx01", "m0>1" (qubit 0 into clbit 1), "r0",
# "?10:x1" (x on qubit 1 if clbit1 == 0); "?{bits}" = list of (clbit, value) pairs.
def parse(tok):
    if tok.startswith("?"):
        cond, rest = tok[1:].split(":", 1)
        bits = tuple((int(cond[i]), int(cond[i + 1])) for i in range(0, len(cond), 2))
        return ("c", bits, parse(rest))
    if tok[0] == "m" and ">" in tok:
        a, b = tok[1:].split(">")
        return ("m", int(a), int(b))
    if tok.startswith("bar"):
        return ("bar",)
    if tok[0] == "R" and tok[1:].isdigit():
        return ("r", int(tok[1:]))
    if tok.startswith("alloc") or tok.startswith("deall"):
        return (tok[:5], int(tok[5:]))
    # gate; longest-name match, digits at end are qubits, optional /pattern for controls: "x/01:012"
    if "/" in tok:
        name, rest = tok.split("/")
        pat, qs = rest.split(":")
        return ("g", name, tuple(int(c) for c in qs), pat)
    name = tok.rstrip("0123456789")
    for k in range(len(tok), 0, -1):
        if tok[:k] in GATES and len(tok) - k == GATES[tok[:k]][0]:
            return ("g", tok[:k], tuple(int(c) for c in tok[k:]), "")
    raise ValueError(tok)


def gate_op(name, pat=""):
    op = GATES[name][1]()
    return op.control(len(pat), ctrl_state=pat) if pat else op


def gate_mat(name, pat=""):
    U = GATES[name][2]
    return ref.ctrl(U, len(pat), pat) if pat else U


_cache = {}


def tok_step(tok):
    """(adder(qc), reference step or None)"""
    if tok in _cache:
        return _cache[tok]
    t = parse(tok)
    if t[0] == "g":
        _, name, qs, pat = t
        add = lambda qc: qc.append(gate_op(name, pat), [qc.qubits[i] for i in qs])
        st = ("u", gate_mat(name, pat), list(qs))
    elif t[0] == "m":
        add = lambda qc: qc.measure(qc.qubits[t[1]], qc.clbits[t[2]])
        st = ("m", t[1], t[2])
    elif t[0] == "r":
        add = lambda qc: qc.reset(qc.qubits[t[1]])
        st = ("r", t[1])
    elif t[0] == "bar":
        add = lambda qc: qc.barrier()
        st = None
    elif t[0] == "alloc":
        add = lambda qc: qc.append(q.QubitAlloc(), [qc.qubits[t[1]]])
        st = None
    elif t[0] == "deall":
        add = lambda qc: qc.append(q.QubitDealloc(), [qc.qubits[t[1]]])
        st = None
    elif t[0] == "c":
        bits, sub = t[1], t[2]
        cbs = [b for b, _ in bits]
        vals = tuple(v for _, v in bits)
        ctrl = "".join(map(str, vals))
        if sub[0] == "g":
            _, name, qs, pat = sub
            add = lambda qc: qc.append(gate_op(name, pat).c_if(len(cbs), ctrl), [qc.qubits[i] for i in qs], [qc.clbits[b] for b in cbs])
            st = ("cu", gate_mat(name, pat), list(qs), cbs, vals)
        else:
            raise ValueError(tok)
    else:
        raise ValueError(tok)
    _cache[tok] = (add, st)
    return add, st


def build(n, nc, toks):
    qc = q.QuantumCircuit(n, nc)
    for t in toks:
        tok_step(t)[0](qc)
    return qc


def ref_steps(toks):
    return [s for s in (tok_step(t)[1] for t in toks) if s is not None]


def run_dist(qc, nc, measured):
    """Outcome distribution of qc.run() as {tuple over measured clbits (ascending): prob}."""
    res = qc.run()
    d = {}
    for k, v in dict(res).items():
        if len(k) != len(measured):
            return "result key %r has %d bits, %d classical bits were measured" % (k, len(k), len(measured))
        key = tuple(int(c) for c in k[::-1])
        d[key] = d.get(key, 0) + v
    return d
