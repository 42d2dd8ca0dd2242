"""Compilation of recorded programs against the meaning of the program, for every option set."""
import itertools, math
import numpy as np
import qrisp as q
from mc import ref, circ

NOTE = "every program over the token alphabet up to the depth bound (gates, multi-controlled gates of every method, Fourier transforms, arithmetic on fresh temporaries, overlapping temporary life times, deletions) x every compile option set; the compiled circuit (with mid-circuit measurements followed through all branches) must give the program's exact state on the live qubits and zero everywhere else"

# live qubits: a0 a1 c0 c1 b, then temporaries t1 t2 while open
A0, A1, C0, C1, B, T1, T2 = range(7)
NQ = 7
ANG = [0.5, 0.9, 1.3, 1.7, 2.3]
METHODS = ["gray", "gray_pt", "gidney", "jones", "amy", "balauca", "maslov", "yong", "hybrid", "auto", "khattar", "balauca_dirty"]


def dft(n, inv=False):
    N = 1 << n
    s = -1 if inv else 1
    F = np.array([[np.exp(s * 2j * math.pi * i * j / N) for j in range(N)] for i in range(N)]) / math.sqrt(N)
    return F


def little(U, n):
    """Matrix given on integers with the first qubit least significant -> tensor order."""
    perm = [int(format(i, f"0{n}b")[::-1], 2) for i in range(1 << n)]
    P = np.zeros((1 << n, 1 << n))
    for i, j in enumerate(perm):
        P[j, i] = 1
    return P @ U @ P.T


def permu(n, f):
    U = np.zeros((1 << n, 1 << n))
    for i in range(1 << n):
        U[f(i), i] = 1
    return U


def add_ab():
    """|x>|y> -> |x>|y+x mod 4>, x in the two low bits."""
    return permu(4, lambda i: (i & 3) | ((((i >> 2) + (i & 3)) & 3) << 2))


class W:
    """The running program: real variables."""

    def __init__(self):
        self.a, self.c, self.b = q.QuantumFloat(2, name="a"), q.QuantumFloat(2, name="c"), q.QuantumVariable(1, name="b")
        self.t = {}
        for i, qb in enumerate(list(self.a) + list(self.c) + list(self.b)):
            q.ry(ANG[i], qb)


def open_t(w, k):
    t = q.QuantumVariable(1, name=f"t{k}*")
    q.cx((w.a if k == 1 else w.c)[0], t[0])
    w.t[k] = t


def close_t(w, k):
    q.cx((w.a if k == 1 else w.c)[0], w.t[k][0])
    w.t.pop(k).delete()


def mtok(m):
    def f(w):
        t = q.QuantumVariable(1)
        inv = {"gray_pt": "gray_pt_inv", "gidney": "gidney_inv"}.get(m, m)
        q.mcx(list(w.a), t[0], method=m)
        q.cx(t[0], w.b[0])
        q.mcx(list(w.a), t[0], method=inv)
        t.delete()
    return f


def wtok(m, cs):
    def f(w):
        q.mcx(list(w.a) + list(w.c), w.b[0], method=m, ctrl_state=cs)
    return f


def ftok(w):
    f = q.QuantumFloat(2)
    f += w.a
    q.cx(f[0], w.b[0])
    q.cz(f[1], w.b[0])
    f -= w.a
    f.delete()


def gtok(w):
    """Fresh register, Fourier transform directly after allocation and before deletion."""
    f = q.QuantumFloat(2)
    q.QFT(f)
    q.cp(0.7, f[0], w.b[0])
    q.cp(-0.7, f[0], w.b[0])
    q.QFT(f, inv=True)
    f.delete()


def ntok(w):
    """Nested temporaries of different life times."""
    u = q.QuantumVariable(1)
    q.cx(w.c[1], u[0])
    v = q.QuantumVariable(1)
    q.mcx([u[0], w.a[1]], v[0])
    q.cz(v[0], w.b[0])
    q.mcx([u[0], w.a[1]], v[0])
    v.delete()
    q.cx(u[0], w.a[0])
    q.cx(w.c[1], u[0])
    u.delete()


def plus1(w):
    w.a += 1


def plusq(w):
    w.c += w.a


def lt_tok(w):
    r = w.a < w.c
    q.cx(r[0], w.b[0])
    r.uncompute()


def qft(w):
    q.QFT(w.a)


def iqft(w):
    q.QFT(w.a, inv=True)


def qftns(w):
    q.QFT(w.a, exec_swap=False)


CC = ref.ctrl(ref.X, 2)
LT = permu(5, lambda i: i ^ (16 if (i & 3) < ((i >> 2) & 3) else 0))      # little-endian a0 a1 c0 c1 b
SW = ref.SWAP

# token -> (action on the real program, [(matrix, qubits)] on the reference)
TOK = {
    "hb": (lambda w: q.h(w.b[0]), [(ref.H, [B])]), "xa": (lambda w: q.x(w.a[0]), [(ref.X, [A0])]), "ta": (lambda w: q.t(w.a[1]), [(ref.T, [A1])]),
    "hc": (lambda w: q.h(w.c[0]), [(ref.H, [C0])]), "pb": (lambda w: q.p(0.4, w.b[0]), [(ref.p(0.4), [B])]),
    "cxab": (lambda w: q.cx(w.a[0], w.b[0]), [(ref.ctrl(ref.X), [A0, B])]), "cxba": (lambda w: q.cx(w.b[0], w.a[1]), [(ref.ctrl(ref.X), [B, A1])]),
    "cxca": (lambda w: q.cx(w.c[1], w.a[0]), [(ref.ctrl(ref.X), [C1, A0])]), "rzz": (lambda w: q.rzz(0.6, w.a[0], w.b[0]), [(ref.rzz(0.6), [A0, B])]),
    "cp": (lambda w: q.cp(0.6, w.a[1], w.b[0]), [(ref.ctrl(ref.p(0.6)), [A1, B])]), "swap": (lambda w: q.swap(w.a[0], w.c[1]), [(SW, [A0, C1])]),
    "cc": (lambda w: q.mcx([w.a[0], w.c[0]], w.b[0]), [(CC, [A0, C0, B])]),
    "ccj": (lambda w: q.mcx([w.a[0], w.c[0]], w.b[0], method="jones"), [(CC, [A0, C0, B])]),
    "W": (wtok("auto", -1), [(ref.ctrl(ref.X, 4), [A0, A1, C0, C1, B])]), "W0": (wtok("auto", "0110"), [(ref.ctrl(ref.X, 4, "0110"), [A0, A1, C0, C1, B])]),
    "W3": (lambda w: q.mcx([w.b[0], w.a[1], w.c[0]], w.a[0]), [(ref.ctrl(ref.X, 3), [B, A1, C0, A0])]),
    "Wb": (wtok("balauca", -1), [(ref.ctrl(ref.X, 4), [A0, A1, C0, C1, B])]), "Wh": (wtok("hybrid", -1), [(ref.ctrl(ref.X, 4), [A0, A1, C0, C1, B])]),
    "Wz": (lambda w: q.mcz([w.b[0], w.a[1], w.c[0]]), [(ref.ctrl(ref.Z, 2), [B, A1, C0])]), "Wp": (lambda w: q.mcp(0.9, [w.b[0], w.a[1], w.c[0], w.c[1]]), [(ref.ctrl(ref.p(0.9), 3), [B, A1, C0, C1])]),
    "Q": (qft, [(little(dft(2), 2), [A0, A1])]), "Qi": (iqft, [(little(dft(2, True), 2), [A0, A1])]),
    "+1": (plus1, [(little(permu(2, lambda i: (i + 1) & 3), 2), [A0, A1])]), "+c": (plusq, [(little(add_ab(), 4), [A0, A1, C0, C1])]),
    "F": (ftok, [(ref.ctrl(ref.X), [A0, B]), (ref.ctrl(ref.Z), [A1, B])]), "G": (gtok, []),
    "N": (ntok, [(ref.ctrl(ref.Z, 2), [C1, A1, B]), (ref.ctrl(ref.X), [C1, A0])]), "L": (lt_tok, [(little(LT, 5), [A0, A1, C0, C1, B])]),
    "O1": (lambda w: open_t(w, 1), [(ref.ctrl(ref.X), [A0, T1])]), "C1": (lambda w: close_t(w, 1), [(ref.ctrl(ref.X), [A0, T1])]),
    "O2": (lambda w: open_t(w, 2), [(ref.ctrl(ref.X), [C0, T2])]), "C2": (lambda w: close_t(w, 2), [(ref.ctrl(ref.X), [C0, T2])]),
    "U1": (lambda w: q.cx(w.t[1][0], w.b[0]), [(ref.ctrl(ref.X), [T1, B])]), "U12": (lambda w: q.cz(w.t[1][0], w.t[2][0]), [(ref.ctrl(ref.Z), [T1, T2])]),
    "U2": (lambda w: q.mcx([w.t[2][0], w.a[1]], w.b[0]), [(CC, [T2, A1, B])]),
}
for m in METHODS:
    TOK["M" + m] = (mtok(m), [(CC, [A0, A1, B])])
KEYS = list(TOK)
CORE = ["hb", "cxba", "xa", "W", "Q", "Qi", "+1", "F", "N", "Mgidney", "Mjones", "Mauto", "O1", "C1", "U1", "O2", "C2", "U12"]
LIFE = ["O1", "C1", "O2", "C2", "U1", "U12", "U2", "cxba", "xa", "W", "N", "F", "cxca"]

speed = lambda op: 10.0 if op.name in ("t", "t_dg", "p") else (0.5 if op.name == "cx" else 1.0)
OPT = {
    "d": {}, "w1": dict(workspace=1), "w3": dict(workspace=3), "nq": dict(cancel_qfts=False), "mcm": dict(compile_mcm=True), "sp": dict(gate_speed=speed),
    "mw": dict(compile_mcm=True, workspace=2, gate_speed=speed), "wn": dict(workspace=2, cancel_qfts=False, gate_speed=lambda op: 1.0 if op.name == "cx" else 0.0),
    "im": dict(im="b"), "ia": dict(im="a"), "iw": dict(im="b", workspace=2, compile_mcm=True),
}


def reference(word):
    """-> (state over the seven reference qubits, open temporaries) or None if the program is invalid."""
    s = ref.zero_state(NQ)
    for i in range(5):
        s = ref.apply(s, ref.ry(ANG[i]), [i])
    op = set()
    for k in word:
        need = {"C1": {1}, "C2": {2}, "U1": {1}, "U12": {1, 2}, "U2": {2}}.get(k, set())
        if not need <= op or (k in ("O1", "O2") and int(k[1]) in op):
            return None
        for U, qs in TOK[k][1]:
            s = ref.apply(s, np.asarray(U, dtype=complex), list(qs))
        if k[0] == "O":
            op.add(int(k[1]))
        if k in ("C1", "C2"):
            ax = T1 if k == "C1" else T2
            if np.linalg.norm(np.take(s, 1, axis=ax)) > 1e-6:
                return None
            op.discard(int(k[1]))
    return s, op


def live_rho(qc, live, what):
    """Density matrix of the live qubits after the circuit; all other qubits must be zero."""
    pos = {qb: i for i, qb in enumerate(qc.qubits)}
    n = len(qc.qubits)
    for qb in live:
        if qb not in pos:
            return None, f"live qubit {qb} is missing from the compiled circuit"
    idx = [pos[qb] for qb in live]
    rest = [i for i in range(n) if i not in idx]
    tot = 0
    for c, s in ref.branches(n, len(qc.clbits), circ.steps_of(qc)):
        v = np.transpose(s, idx + rest).reshape(1 << len(idx), -1)
        if what == "all":
            if rest and np.linalg.norm(v[:, 1:]) > 1e-4:
                return None, "qubits outside live variables do not end in the zero state"
            v = v[:, 0]
            tot = tot + np.outer(v, v.conj())
        else:
            tot = tot + (np.abs(v) ** 2).sum(axis=1)
    return tot, None


def check(word, opts):
    r = reference(word)
    s, op = r
    w = W()
    for k in word:
        TOK[k][0](w)
    q.merge([w.a, w.b, w.c] + list(w.t.values()))
    before = [(i.op.name, tuple(b.identifier for b in i.qubits)) for i in w.b.qs.data]
    live = list(w.a) + list(w.c) + list(w.b) + [w.t[k][0] for k in sorted(w.t)]
    axes = list(range(5)) + [{1: T1, 2: T2}[k] for k in sorted(w.t)]
    gone = [T for k, T in ((1, T1), (2, T2)) if k not in w.t]
    v = np.transpose(s, axes + gone).reshape(1 << len(axes), -1)[:, 0]
    for o in opts:
        kw = dict(OPT[o])
        im = kw.pop("im", None)
        if im:
            kw["intended_measurements"] = list(getattr(w, im))
        qc = w.b.qs.compile(**kw)
        if im:
            sub = list(getattr(w, im))
            got, err = live_rho(qc, sub, "dist")
            ax = [live.index(x) for x in sub]
            t = np.abs(v.reshape((2,) * len(live))) ** 2
            t = np.transpose(t, ax + [i for i in range(len(live)) if i not in ax]).reshape(1 << len(ax), -1).sum(axis=1)
            if err:
                return f"options {o}: {err}"
            if np.max(np.abs(got - t)) > 1e-4:
                return f"options {o}: measuring {im} gives {np.round(got, 4)} instead of {np.round(t, 4)}"
        else:
            got, err = live_rho(qc, live, "all")
            if err:
                return f"options {o}: {err}"
            d = np.max(np.abs(got - np.outer(v, v.conj())))
            if d > 1e-4:
                return f"options {o}: state of the live variables differs by {d:.4f}"
    after = [(i.op.name, tuple(b.identifier for b in i.qubits)) for i in w.b.qs.data]
    if before != after:
        return "compiling changed the recorded program"


def shards(tier):
    out = [["one"]]
    out += [["two", k] for k in KEYS]
    out += [["life", k] for k in LIFE if k[0] in "O"] + [["life", k, j] for k in ("cxba", "xa", "W", "N", "F") for j in ("O1", "O2")]
    out += [["three", k] for k in CORE]
    return out


def run(shard, ctx):
    kind = shard[0]

    def go(word, opts):
        key = kind + "/" + "-".join(word) + "/" + ",".join(opts)
        if not ctx.wants(key) or reference(word) is None:
            return
        ctx.case(key, check, word, opts)
        ctx.state(word)
        ctx.step(len(word) * len(opts))
        ctx.count("compilations", len(opts))
    if kind == "one":
        for k in KEYS:
            go((k,), tuple(OPT))
            go(("O1", k), tuple(OPT))
    elif kind == "two":
        for k in KEYS:
            go((shard[1], k), ("d", "mw", "wn", "ia") if ctx.tier == "quick" else tuple(OPT))
    elif kind == "three":
        for k, l in itertools.product(CORE, repeat=2):
            if ctx.tier == "quick" and shard[1] not in LIFE and k not in LIFE and l not in LIFE:
                continue
            go((shard[1], k, l), ("d", "iw") if ctx.tier == "quick" else tuple(OPT))
    elif kind == "life":
        pre = tuple(shard[1:])
        n = 5 if ctx.tier == "quick" else 6
        for rest in itertools.product(LIFE, repeat=n - len(pre)):
            w = pre + rest
            if w[-1] not in ("C1", "C2") and ctx.tier == "quick":
                continue
            if not valid_life(w):
                continue
            go(w, ("d", "w1") if ctx.tier == "quick" else ("d", "w1", "mw", "ia"))


def valid_life(w):
    op = set()
    for k in w:
        if k in ("O1", "O2"):
            if k[1] in op:
                return False
            op.add(k[1])
        elif k in ("C1", "C2"):
            if k[1] not in op:
                return False
            op.discard(k[1])
        elif k == "U1" and "1" not in op or k == "U2" and "2" not in op or k == "U12" and len(op) < 2:
            return False
    return True
