"""Nested quantum environments against the composition of their definitions."""
import itertools, math
from contextlib import contextmanager, ExitStack
import numpy as np
import qrisp as q
from mc import ref, prog

NOTE = "every nesting (up to depth 3) of every environment kind and control pattern around every body; the program is run with its variables entangled with reference qubits, so one run yields the full matrix of the nest, which must equal the composition of the definitions including phases, with every helper qubit back in zero"

# system qubits: c0 c1 e t0 t1 (c a two-qubit number, e a boolean, t a two-qubit number)
N = 5
C0, C1, E, T0, T1 = range(N)
DIM = 1 << N


class W:
    def __init__(self):
        self.r = q.QuantumVariable(N, name="r")
        self.c, self.e, self.t = q.QuantumFloat(2, name="c"), q.QuantumBool(name="e"), q.QuantumFloat(2, name="t")
        self.sys = list(self.c) + list(self.e) + list(self.t)
        q.h(self.r)
        for a, b in zip(self.r, self.sys):
            q.cx(a, b)

    def matrix(self):
        tab = prog.table(self.r.qs, [self.r, self.sys])
        M = np.zeros((DIM, DIM), dtype=complex)
        for (i, o, left), a in tab.items():
            if left:
                return f"helper qubits end in {left:b} for input {i:05b} output {o:05b}"
            M[rev(o), rev(i)] += a
        return M * math.sqrt(DIM)


def rev(i, n=N):
    return int(format(i, f"0{n}b")[::-1], 2)


# ---- reference --------------------------------------------------------------------------
def on(U, *qs):
    M = np.eye(DIM, dtype=complex)
    return ref.apply_matrix(M, U, list(qs), N) if hasattr(ref, "apply_matrix") else embed(U, qs)


def embed(U, qs):
    k = len(qs)
    M = np.zeros((DIM, DIM), dtype=complex)
    for i in range(DIM):
        b = [(i >> (N - 1 - j)) & 1 for j in range(N)]
        col = sum(b[p] << (k - 1 - j) for j, p in enumerate(qs))
        for row in range(1 << k):
            if abs(U[row, col]) > 1e-14:
                b2 = list(b)
                for j, p in enumerate(qs):
                    b2[p] = (row >> (k - 1 - j)) & 1
                M[sum(v << (N - 1 - j) for j, v in enumerate(b2)), i] += U[row, col]
    return M


X = np.array([[0, 1], [1, 0]], dtype=complex)
H = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)
CX = np.eye(4)[[0, 1, 3, 2]].astype(complex)


def P(f):
    return np.diag([1, np.exp(1j * f)])


def RX(f):
    return np.array([[math.cos(f / 2), -1j * math.sin(f / 2)], [-1j * math.sin(f / 2), math.cos(f / 2)]])


def RZ(f):
    return np.diag([np.exp(-0.5j * f), np.exp(0.5j * f)])


def perm(f):
    """Basis map on (c, e, t) with c and t numbers (first qubit least significant)."""
    M = np.zeros((DIM, DIM), dtype=complex)
    for i in range(DIM):
        b = [(i >> (N - 1 - j)) & 1 for j in range(N)]
        c, e, t = f(b[0] + 2 * b[1], b[2], b[3] + 2 * b[4])
        o = [c & 1, c >> 1, e, t & 1, t >> 1]
        M[sum(v << (N - 1 - j) for j, v in enumerate(o)), i] = 1
    return M


def proj(f):
    d = np.zeros(DIM)
    for i in range(DIM):
        b = [(i >> (N - 1 - j)) & 1 for j in range(N)]
        d[i] = bool(f(b[0] + 2 * b[1], b[2], b[3] + 2 * b[4]))
    return d


def ctl(pred):
    d = proj(pred)
    return lambda U: d[:, None] * U * d[None, :] + np.diag(1 - d) if np.abs(d[:, None] * U - U * d[None, :]).max() < 1e-9 else None


# ---- environments: name -> (context manager, effect, qubits it controls on) --------------
@contextmanager
def c_q(w):
    with q.control(w.c[0]):
        yield


@contextmanager
def c_q0(w):
    with q.control(w.c[1], ctrl_state=0):
        yield


@contextmanager
def c_q0s(w):
    with q.control(w.c[0], ctrl_state="0"):
        yield


@contextmanager
def c_2(w):
    with q.control([w.c[0], w.c[1]]):
        yield


@contextmanager
def c_var(w):
    with q.control(w.c, ctrl_state="01"):
        yield


@contextmanager
def c_int(w):
    with q.control([w.c[1], w.c[0]], ctrl_state=1):
        yield


@contextmanager
def c_ce(w):
    with q.control([w.c[1], w.e[0]], ctrl_state="10"):
        yield


@contextmanager
def c_b(w):
    with q.control(w.e):
        yield


@contextmanager
def c_m(w):
    with q.control([w.c[0], w.c[1], w.e[0]], ctrl_state="110", ctrl_method="gray"):
        yield


@contextmanager
def c_with(w):
    e = w.e
    with e:
        yield


@contextmanager
def q_eq(w):
    with w.c == 2:
        yield


@contextmanager
def q_ne(w):
    with w.c != 1:
        yield


@contextmanager
def q_lt(w):
    with w.c < 2:
        yield


@contextmanager
def q_ge(w):
    with w.c >= 1:
        yield


@contextmanager
def q_not(w):
    with ~w.e:
        yield


@contextmanager
def q_fun(w):
    with custom_condition(w.c, w.e):
        yield


@q.quantum_condition
@q.auto_uncompute
def custom_condition(c, e):
    res = q.QuantumBool()
    q.mcx([c[1], e[0]], res, ctrl_state="10")
    return res


@contextmanager
def inv(w):
    with q.invert():
        yield


def conj_f(t):
    q.h(t[0])
    q.cx(t[0], t[1])


def conj_g(c, t):
    q.cx(c[0], t[0])
    q.rx(0.3, t[1])


@contextmanager
def conj(w):
    with q.conjugate(conj_f)(w.t):
        yield


@contextmanager
def conjc(w):
    with q.conjugate(conj_g)(w.c, w.t):
        yield


@contextmanager
def plain(w):
    with q.QuantumEnvironment():
        yield


@contextmanager
def wrap(w):
    with q.GateWrapEnvironment("wrapped"):
        yield


@contextmanager
def it2(w):
    with q.IterationEnvironment(w.c.qs, 2):
        yield


@contextmanager
def it2p(w):
    with q.IterationEnvironment(w.c.qs, 2, precompile=True):
        yield


F1 = embed(CX, (T0, T1)) @ embed(H, (T0,))
F2 = embed(RX(0.3), (T1,)) @ embed(CX, (C0, T0))
dag = lambda U: U.conj().T

ENVS = {
    "c": (c_q, ctl(lambda c, e, t: c & 1), {C0}),
    "c0": (c_q0, ctl(lambda c, e, t: not c >> 1), {C1}),
    "c0s": (c_q0s, ctl(lambda c, e, t: not c & 1), {C0}),
    "cc": (c_2, ctl(lambda c, e, t: c == 3), {C0, C1}),
    "cv01": (c_var, ctl(lambda c, e, t: c == 2), {C0, C1}),
    "ci1": (c_int, ctl(lambda c, e, t: c == 2), {C0, C1}),
    "cce": (c_ce, ctl(lambda c, e, t: c >> 1 and not e), {C1, E}),
    "cm": (c_m, ctl(lambda c, e, t: c == 3 and not e), {C0, C1, E}),
    "cb": (c_b, ctl(lambda c, e, t: e), {E}),
    "we": (c_with, ctl(lambda c, e, t: e), {E}),
    "eq": (q_eq, ctl(lambda c, e, t: c == 2), set()),
    "ne": (q_ne, ctl(lambda c, e, t: c != 1), set()),
    "lt": (q_lt, ctl(lambda c, e, t: c < 2), set()),
    "ge": (q_ge, ctl(lambda c, e, t: c >= 1), set()),
    "not": (q_not, ctl(lambda c, e, t: not e), {E}),
    "fun": (q_fun, ctl(lambda c, e, t: c >> 1 and not e), set()),
    "inv": (inv, dag, set()),
    "conj": (conj, lambda U: dag(F1) @ U @ F1, set()),
    "conjc": (conjc, lambda U: dag(F2) @ U @ F2, {C0}),
    "env": (plain, lambda U: U, set()),
    "wrap": (wrap, lambda U: U, set()),
    "it2": (it2, lambda U: U @ U, set()),
    "it2p": (it2p, lambda U: U @ U, set()),
}


# ---- bodies -------------------------------------------------------------------------------
@q.custom_control
def cc_fun(t, ctrl=None):
    """x and phase; the controlled version spells itself out."""
    q.h(t[1])
    if ctrl is None:
        q.x(t[0])
        q.p(0.6, t[1])
    else:
        q.cx(ctrl, t[0])
        q.cp(0.6, ctrl, t[1])
    q.h(t[1])


@q.custom_inversion
def ci_fun(t, inv=False):
    if not inv:
        q.rx(0.4, t[0])
        q.cx(t[0], t[1])
    else:
        q.cx(t[0], t[1])
        q.rx(-0.4, t[0])


@q.gate_wrap
def gw_fun(t):
    q.cx(t[1], t[0])
    q.rz(0.7, t[1])


def b_gphase(w):
    q.gphase(0.7, w.t[0])


def b_add(w):
    w.t += 1


def b_temp(w):
    a = q.QuantumVariable(1, name="tmp*")
    q.cx(w.t[0], a[0])
    q.cp(0.8, a[0], w.t[1])
    q.cx(w.t[0], a[0])
    a.delete()


def b_mcx(w):
    a = q.QuantumBool(name="anc*")
    q.mcx([w.t[0], w.t[1]], a, ctrl_state="01")
    q.p(0.9, a)
    q.mcx([w.t[0], w.t[1]], a, ctrl_state="01")
    a.delete()


def b_tcond(w):
    with w.t == 1:
        q.gphase(0.5, w.t[1])


def b_seq(w):
    q.h(w.t[0])
    q.s(w.t[1])
    q.cx(w.t[1], w.t[0])
    q.ry(0.4, w.t[1])


RY = lambda f: np.array([[math.cos(f / 2), -math.sin(f / 2)], [math.sin(f / 2), math.cos(f / 2)]], dtype=complex)
S = P(math.pi / 2)
TT = lambda f: np.diag(np.exp(1j * np.array([f(2 * 0 + 0), f(2), f(1), f(3)])))       # t value by (t0,t1) order
BODIES = {
    "x": (lambda w: q.x(w.t[0]), embed(X, (T0,))),
    "p": (lambda w: q.p(0.7, w.t[0]), embed(P(0.7), (T0,))),
    "rz": (lambda w: q.rz(0.7, w.t[1]), embed(RZ(0.7), (T1,))),
    "gphase": (b_gphase, np.exp(0.7j) * np.eye(DIM)),
    "h": (lambda w: q.h(w.t[1]), embed(H, (T1,))),
    "cx": (lambda w: q.cx(w.t[0], w.t[1]), embed(CX, (T0, T1))),
    "add": (b_add, perm(lambda c, e, t: (c, e, (t + 1) & 3))),
    "temp": (b_temp, embed(np.kron(np.diag([1, 0]), np.eye(2)) + np.kron(np.diag([0, 1]), P(0.8)), (T0, T1))),
    "mcx": (b_mcx, embed(TT(lambda t: 0.9 * (t == 2)), (T0, T1))),
    "ccf": (lambda w: cc_fun(w.t), embed(H @ P(0.6) @ H, (T1,)) @ embed(X, (T0,))),
    "cif": (lambda w: ci_fun(w.t), embed(CX, (T0, T1)) @ embed(RX(0.4), (T0,))),
    "gwf": (lambda w: gw_fun(w.t), embed(RZ(0.7), (T1,)) @ embed(CX, (T1, T0))),
    "tcond": (b_tcond, embed(TT(lambda t: 0.5 * (t == 1)), (T0, T1))),
    "seq": (b_seq, embed(RY(0.4), (T1,)) @ embed(CX, (T1, T0)) @ embed(S, (T1,)) @ embed(H, (T0,))),
}
G = embed(RX(0.4), (T1,))          # decoration gate
CONDS = ("eq", "ne", "lt", "ge", "fun")
MULTI = ("cc", "cv01", "ci1", "cce", "cm", "not") + CONDS
CREATES = {"add", "temp", "mcx", "tcond"}


def deco(w):
    q.rx(0.4, w.t[1])


def build(w, nest, body, where):
    if not nest:
        return BODIES[body][0](w)
    with ENVS[nest[0]][0](w):
        if where == "before":
            deco(w)
        build(w, nest[1:], body, where)
        if where == "after":
            deco(w)


def meaning(nest, body, where):
    if not nest:
        return BODIES[body][1]
    U = meaning(nest[1:], body, where)
    if U is None:
        return None
    if where == "before":
        U = U @ G
    if where == "after":
        U = G @ U
    return ENVS[nest[0]][1](U)


def clash(nest):
    """The same qubit used as a control at two levels is not a circuit."""
    seen = set()
    for e in nest:
        if seen & ENVS[e][2]:
            return True
        if e[0] == "c" and e[:4] != "conj" or e in ("we", "not"):
            seen |= ENVS[e][2]
    # a condition over a control qubit cannot be evaluated inside a block that is itself controlled by that qubit
    for i, e in enumerate(nest):
        if e in ("c", "c0", "c0s") and any(f in ("inv", "wrap", "env", "not", "it2", "it2p") and any(g in CONDS for g in nest[i + k + 2:]) for k, f in enumerate(nest[i + 1:])):
            return True
    # temporaries freed inside a controlled conjugation are refused
    for i, e in enumerate(nest):
        if e[:4] == "conj" and i and "not" in nest[i + 1:]:
            return True
    return False


def one(ctx, nest, body, where):
    want = meaning(nest, body, where)
    if want is None:
        return None
    w = W()
    build(w, nest, body, where)
    M = w.matrix()
    ctx.state("/".join(nest) + body + where)
    ctx.step(len(nest) + 1)
    if isinstance(M, str):
        return M
    d = phase_diff(M, want)
    if d > 1e-3:
        return f"acts with a different matrix than its definition (max entry difference {d:.3f})"


def phase_diff(A, B):
    k = np.unravel_index(np.argmax(np.abs(B)), B.shape)
    if abs(A[k]) < 1e-6:
        return 9.0
    return float(np.abs(A * (B[k] / A[k]) / abs(B[k] / A[k]) - B).max())


D3 = {"quick": ["c0", "cc", "cce", "lt", "eq", "inv", "conj", "wrap", "we"], "full": list(ENVS)}


def shards(tier):
    out = []
    for e in ENVS:
        out.append(f"1/{e}")
        out.append(f"2/{e}")
    for e in D3["quick" if tier == "quick" else "full"]:
        out.append(f"3/{e}")
    return out


def allowed(nest, body):
    if clash(nest):
        return False
    # iteration blocks refuse programs that create variables
    its = [i for i, e in enumerate(nest) if e.startswith("it2")]
    if its:
        inner = nest[its[0] + 1:]
        if body in CREATES or any(e in MULTI for e in inner):
            return False
    return True


def run(shard, ctx):
    d, e = shard.split("/")
    quick = ctx.tier == "quick"
    names = list(ENVS)
    if d == "1":
        for body in BODIES:
            for where in ["", "before", "after"]:
                if allowed([e], body):
                    ctx.case(f"{e}/{body}/{where}", one, ctx, (e,), body, where)
    elif d == "2":
        for f in names:
            for body in ["gphase", "ccf", "cif", "gwf", "add", "tcond", "seq"] if quick else BODIES:
                for where in ["before"] if quick and body in ("ccf", "seq") else [""] if quick else ["", "before", "after"]:
                    if allowed((e, f), body):
                        ctx.case(f"{e}/{f}/{body}/{where}", one, ctx, (e, f), body, where)
    else:
        sub = D3["quick" if quick else "full"]
        for f in sub:
            for g in sub:
                for body in (["gphase", "ccf"] if quick else ["gphase", "ccf", "seq", "temp"]):
                    if allowed((e, f, g), body):
                        ctx.case(f"{e}/{f}/{g}/{body}/after", one, ctx, (e, f, g), body, "after")


RULE = "matrix of the nest = composition of the definitions, helpers zero"
