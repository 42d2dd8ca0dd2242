"""Circuit metrics against a timeline laid out gate by gate."""
import itertools, math
import numpy as np
import qrisp as q
from mc import circ

NOTE = "every token circuit up to the depth bound (gates, nested composite gates, measurements, resets, conditioned gates), every split of it into composite gates; all metrics compared with a per-bit timeline built from the unpacked gates"

PI = math.pi


def comp1():
    qc = q.QuantumCircuit(2)
    qc.h(0); qc.t(0); qc.cx(0, 1); qc.t(1); qc.h(1)
    return qc.to_gate("comp1")


def comp2():
    qc = q.QuantumCircuit(3)
    qc.append(comp1(), [qc.qubits[2], qc.qubits[0]])
    qc.t(1)
    qc.append(comp1().inverse(), [qc.qubits[0], qc.qubits[1]])
    return qc.to_gate("comp2")


def compm():
    qc = q.QuantumCircuit(1, 1)
    qc.h(0)
    qc.measure(qc.qubits[0], qc.clbits[0])
    qc.t(0)
    return qc.to_op("compm")


A = {
    "h0": (q.HGate, "0"), "t0": (q.TGate, "0"), "tdg1": (lambda: q.TGate().inverse(), "1"), "s2": (q.SGate, "2"), "x1": (q.XGate, "1"), "sx2": (q.SXGate, "2"),
    "p4": (lambda: q.PGate(PI / 4), "0"), "p38": (lambda: q.PGate(3 * PI / 8), "1"), "pm4": (lambda: q.PGate(-PI / 4), "2"), "rz": (lambda: q.RZGate(2 * PI * 3 / 2 ** 4), "2"),
    "rx2": (lambda: q.RXGate(PI / 2), "0"), "ry": (lambda: q.RYGate(2 * PI * 5 / 2 ** 6), "1"), "u3": (lambda: q.u3Gate(0.0, PI / 4, PI / 8), "1"), "u3b": (lambda: q.u3Gate(PI / 4, PI / 2, PI / 2), "0"),
    "cx": (q.CXGate, "01"), "cx12": (q.CXGate, "12"), "cy": (q.CYGate, "20"), "cz": (q.CZGate, "01"), "swap": (q.SwapGate, "12"), "ccx": (lambda: q.MCXGate(2), "012"),
    "rzz": (lambda: q.RZZGate(2 * PI / 2 ** 5), "02"), "gp": (lambda: q.GPhaseGate(0.4), "0"), "cp": (lambda: q.CPGate(PI / 2), "12"), "cx0": (lambda: q.XGate().control(1, ctrl_state="0"), "10"),
    "m": (q.Measurement, "0", "0"), "m1": (q.Measurement, "1", "1"), "R": (q.Reset, "0"),
    "?t": (lambda: q.TGate().c_if(1, "1"), "2", "0"), "?cx": (lambda: q.CXGate().c_if(2, "01"), "12", "01"), "?c1": (lambda: comp1().c_if(1, "0"), "21", "1"),
    "c1": (comp1, "01"), "c1r": (comp1, "20"), "c2": (comp2, "012"), "cm": (compm, "1", "0"), "c1c": (lambda: comp1().control(1), "012"),
    "id": (q.IDGate, "1"), "al": (q.QubitAlloc, "2"), "de": (q.QubitDealloc, "0"),
}
KEYS = list(A)


def add(qc, k, qmap=None):
    e = A[k]
    qc.append(e[0](), [qc.qubits[int(c)] for c in e[1]], [qc.clbits[int(c)] for c in (e[2] if len(e) > 2 else "")])


def build(word):
    qc = q.QuantumCircuit(3, 2)
    for k in word:
        add(qc, k)
    return qc


def wrapped(word, i, j, twice):
    """Same circuit with tokens i..j-1 put into one composite operation."""
    qc = q.QuantumCircuit(3, 2)
    for k in word[:i]:
        add(qc, k)
    sub = q.QuantumCircuit(3, 2)
    for k in word[i:j]:
        add(sub, k)
    op = sub.to_op("blk")
    if twice:
        o = q.QuantumCircuit(3, 2)
        o.append(op, o.qubits, o.clbits)
        op = o.to_op("blk2")
    qc.append(op, qc.qubits, qc.clbits)
    for k in word[j:]:
        add(qc, k)
    return qc


# ---------------------------------------------------------------- reference
def elementary(qc, deep=True, qm=None, cm=None):
    """[(name, params, bits)] of the unpacked circuit, bits numbered qubits first."""
    if qm is None:
        qm = {b: i for i, b in enumerate(qc.qubits)}
        cm = {b: len(qc.qubits) + i for i, b in enumerate(qc.clbits)}
    out = []
    for i in qc.data:
        qs, cs = [qm[b] for b in i.qubits], [cm[b] for b in i.clbits]
        d = i.op.definition
        if d is not None and deep:
            out += elementary(d, True, {b: qs[n] for n, b in enumerate(d.qubits)}, {b: cs[n] for n, b in enumerate(d.clbits)})
        else:
            base = i.op
            while base.name.startswith("c_if") and hasattr(base, "base_op"):
                base = base.base_op
            out.append((i.op.name, base.name, list(base.params), qs + cs, qs))
    return out


SILENT = ("qb_alloc", "qb_dealloc", "gphase")


def layout(el, nbits, cost):
    t = [0] * nbits
    for name, base, params, bits, qs in el:
        if name in SILENT:
            continue
        m = max(t[b] for b in bits) + cost(name, base, params)
        for b in bits:
            t[b] = m
    return t


def tcost(eps):
    rot = 3 * math.log2(1 / eps)

    def angle(p):
        x = (p / PI) % 1
        for v, c in ((0, 0), (0.5, 0), (1, 0), (0.25, 1), (0.75, 1)):
            if abs(x - v) < 1e-9:
                return c
        return rot

    def f(name, base, params):
        if base in ("t", "t_dg"):
            return 1
        if base in ("p", "rz", "rx", "ry", "u1"):
            return angle(params[0])
        if base == "u3":
            return sum(angle(p) for p in params)
        return 0
    return f


def auto_eps(el):
    k = 1
    for _, _, params, _, _ in el:
        for p in params:
            x = round((p % (2 * PI)) / (2 * PI) * 2 ** 15)
            if x:
                k = max(k, 15 - ((x & -x).bit_length() - 1))
    return 2.0 ** -(k + 3)


WEIGHT = {"h": 2, "cx": 7, "t": 3, "measure": 11, "p": 5, "c_if_t": 4, "c_if_cx": 13}


def metrics(qc, el, el_top, n, nc):
    nb = n + nc
    one = layout(el, nb, lambda *a: 1)
    if qc.depth() != max(one[:n]):
        return "depth %r, timeline gives %r" % (qc.depth(), max(one[:n]))
    top = layout(el_top, nb, lambda *a: 1)
    if qc.depth(transpile=False) != max(top[:n]):
        return "depth without unpacking %r, timeline gives %r" % (qc.depth(transpile=False), max(top[:n]))
    dd = qc.get_depth_dic()
    if [dd[b] for b in qc.qubits] != one[:n]:
        return "per-qubit depth %r, timeline gives %r" % ([dd[b] for b in qc.qubits], one[:n])
    w = layout(el, nb, lambda name, base, params: WEIGHT.get(name, 1))
    got = qc.depth(depth_indicator=lambda op: WEIGHT.get(op.name, 1))
    if got != max(w[:n]):
        return "weighted depth %r, timeline gives %r" % (got, max(w[:n]))
    cd = layout(el, nb, lambda name, base, params: 1 if base in ("cx", "cy", "cz") else 0)
    if qc.cnot_depth() != max(cd[:n]):
        return "cnot depth %r, timeline gives %r" % (qc.cnot_depth(), max(cd[:n]))
    cc = sum(1 for e in el if e[0] in ("cx", "cy", "cz"))
    if qc.cnot_count() != cc:
        return "cnot count %r, there are %r" % (qc.cnot_count(), cc)
    # angles that are almost, but not within rounding error, a multiple of pi/4 have no defined T cost
    fuzzy = any(1e-12 < abs(p / PI * 4 - round(p / PI * 4)) < 1e-5 for e in el for p in e[2])
    for eps in () if fuzzy else (2 ** -5, None):
        e = eps or auto_eps(el)
        td = int(max(layout(el, nb, tcost(e))[:n]))
        got = qc.t_depth() if eps is None else qc.t_depth(epsilon=eps)
        if got != td:
            return "T-depth (epsilon=%r) %r, timeline gives %r" % (eps, got, td)
    for circuit, elems in ((qc, el_top), (qc.transpile(), el)):
        want = {}
        for x in elems:
            if x[0] not in ("qb_alloc", "qb_dealloc"):
                want[x[0]] = want.get(x[0], 0) + 1
        if dict(circuit.count_ops()) != want:
            return "gate counts %r, expected %r" % (circuit.count_ops(), want)
    if qc.num_qubits() != n or len(qc.clbits) != nc:
        return "qubit count"


def plain(word):
    qc = build(word)
    before = circ.snapshot(qc)
    m = metrics(qc, elementary(qc), elementary(qc, False), 3, 2)
    if m:
        return m
    if circ.snapshot(qc) != before:
        return "asking for metrics changed the circuit"


DEEPONLY = ("depth", "cnot_depth", "cnot_count", "t_depth")


def wrapping(word, i, j, twice):
    qc = build(word)
    if any(k in ("al", "de") for k in word[i:j]):
        return None
    wr = wrapped(word, i, j, twice)
    for f in DEEPONLY:
        a, b = getattr(qc, f)(), getattr(wr, f)()
        if a != b:
            return "%s is %r, with a composite gate %r" % (f, a, b)
    if qc.t_depth(2 ** -7) != wr.t_depth(2 ** -7):
        return "t_depth changes"
    if wr.count_ops().get("blk2" if twice else "blk") != 1:
        return "composite gate not counted once"
    if dict(wr.transpile().count_ops()) != dict(qc.transpile().count_ops()):
        return "unpacked gate counts differ"
    return metrics(wr, elementary(wr), elementary(wr, False), 3, 2)


def variable(word):
    """The same metrics on the circuit compiled from a recorded program."""
    qv = q.QuantumVariable(3)
    for k in word:
        if len(A[k]) < 3 and k not in ("al", "de"):
            qv.qs.append(A[k][0](), [qv[int(c)] for c in A[k][1]])
    qc = qv.qs.compile()
    return metrics(qc, elementary(qc), elementary(qc, False), len(qc.qubits), len(qc.clbits)) if qc.data else None


def shards(tier):
    return [["w", k] for k in KEYS] + [["wrap", k] for k in KEYS] + [["var"], ["empty"]] + ([["deep", k] for k in KEYS] if tier == "thorough" else [])


SMALL = ["t0", "p38", "u3", "cx", "cx12", "cy", "swap", "rzz", "m", "?t", "?cx", "c1r", "cm", "al", "gp"]


def run(shard, ctx):
    if shard[0] == "w":
        for L in range(0, 3):
            for r in itertools.product(KEYS if L < 2 else SMALL, repeat=L):
                word = (shard[1],) + r
                ctx.step(len(word))
                key = "circuit " + " ".join(word)
                ctx.state(word)
                ctx.case(key, plain, word)
    elif shard[0] == "deep":
        for r in itertools.product(SMALL, repeat=3):
            word = (shard[1],) + r
            ctx.step(len(word)); ctx.state(word)
            ctx.case("circuit " + " ".join(word), plain, word)
    elif shard[0] == "wrap":
        for r in [()] + [(k,) for k in KEYS]:
            word = (shard[1],) + r
            for i in range(len(word)):
                for j in range(i + 1, len(word) + 1):
                    for twice in (0, 1):
                        ctx.step(len(word)); ctx.state(word, i, j, twice)
                        ctx.case("wrap %s [%d:%d] nest=%d" % (" ".join(word), i, j, twice), wrapping, word, i, j, twice)
    elif shard[0] == "var":
        for word in itertools.product([k for k in KEYS if len(A[k]) < 3 and k not in ("al", "de", "R")], repeat=2):
            ctx.step(2); ctx.state("var", word)
            ctx.case("program " + " ".join(word), variable, word)
    else:
        for n, nc in ((0, 0), (1, 0), (0, 1), (3, 2)):
            def f():
                qc = q.QuantumCircuit(n, nc)
                vals = (qc.depth(), qc.cnot_count(), qc.cnot_depth(), qc.t_depth(2 ** -3), qc.t_depth(), qc.count_ops(), qc.num_qubits())
                if vals != (0, 0, 0, 0, 0, {}, n):
                    return "metrics of the empty circuit: %r" % (vals,)
            ctx.state("empty", n, nc)
            ctx.case("empty %d %d" % (n, nc), f)
