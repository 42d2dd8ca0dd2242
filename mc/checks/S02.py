"""Session merging against a single-session reference."""
import itertools, math
from contextlib import ExitStack
import numpy as np
import qrisp as q
from mc import prog

NOTE = "every well-formed history over single-variable gates, gates and calls that merge sessions, temporaries, new variables, and environment entry/exit up to the depth bound, starting from four variables in four separate sessions; the final state must be that of the same history recorded in one session, merged variables must share one session at once, and names must stay unique"

U, V, W, C, K = range(5)
N = 5
ANG = [0.5, 0.9, 1.3, 1.7]
I = np.eye(1 << N, dtype=complex)


def rx(f):
    return np.array([[math.cos(f / 2), -1j * math.sin(f / 2)], [-1j * math.sin(f / 2), math.cos(f / 2)]])


def ry(f):
    return np.array([[math.cos(f / 2), -math.sin(f / 2)], [math.sin(f / 2), math.cos(f / 2)]], dtype=complex)


H = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)
CX = np.eye(4, dtype=complex)[[0, 1, 3, 2]]
CZ = np.diag([1, 1, 1, -1]).astype(complex)
T = np.diag([1, np.exp(0.25j * math.pi)])


def emb(U_, qs):
    k = len(qs)
    M = I.reshape([2] * N + [1 << N])
    M = np.moveaxis(M, qs, range(k))
    sh = M.shape
    M = (U_ @ M.reshape(1 << k, -1)).reshape(sh)
    return np.moveaxis(M, range(k), qs).reshape(1 << N, 1 << N)


class Run:
    def __init__(self):
        self.v = [q.QuantumVariable(1, name=n) for n in ("u", "v", "w", "c")]
        for i, x in enumerate(self.v):
            q.ry(ANG[i], x[0])
        self.k = None
        self.groups = [{i} for i in range(4)]

    def join(self, *ix):
        g = set().union(*[h for h in self.groups if h & set(ix)]) | set(ix)
        self.groups = [h for h in self.groups if not h & g] + [g]

    def agree(self):
        for g in self.groups:
            vs = [self.v[i] if i < 4 else self.k for i in g]
            if any(not (x.qs == vs[0].qs) for x in vs):
                return f"variables {sorted(g)} were combined but do not share a session"
            if any(not (x.qs == x[0].qs()) for x in vs):
                return "a variable and its qubit disagree on the session"
            names = [x.name for x in vs[0].qs.qv_list]
            if len(set(names)) != len(names):
                return f"duplicate names {names}"
            if not {x.name for x in vs} <= set(names):
                return "a variable is missing from its session"


def tmp(r):
    t = q.QuantumVariable(1, name="t*")
    q.cx(r.v[U][0], t[0])
    q.cz(t[0], r.v[V][0])
    q.cx(r.v[U][0], t[0])
    t.delete()
    r.join(U, V)


def new(r):
    r.k = q.QuantumVariable(1, name="k")
    q.rx(0.7, r.k[0])
    r.groups.append({K})


def par(r):
    q.cx([r.v[U][0], r.v[V][0]], [r.v[W][0], r.v[C][0]])
    r.join(U, W)
    r.join(V, C)


# token: (action, reference matrix, joined)
TOK = {
    "hu": (lambda r: q.h(r.v[U]), emb(H, (U,)), ()),
    "rv": (lambda r: q.rx(0.8, r.v[V][0]), emb(rx(0.8), (V,)), ()),
    "tw": (lambda r: (q.t(r.v[W]), q.ry(0.3, r.v[W][0])), emb(ry(0.3) @ T, (W,)), ()),
    "uv": (lambda r: q.cx(r.v[U], r.v[V]), emb(CX, (U, V)), (U, V)),
    "vw": (lambda r: q.cx(r.v[V][0], r.v[W][0]), emb(CX, (V, W)), (V, W)),
    "wu": (lambda r: q.cz(r.v[W][0], r.v[U][0]), emb(CZ, (W, U)), (W, U)),
    "wc": (lambda r: q.cx(r.v[W][0], r.v[C][0]), emb(CX, (W, C)), (W, C)),
    "mg": (lambda r: q.merge(r.v[U], r.v[W]), I, (U, W)),
    "ml": (lambda r: q.merge([r.v[V], [r.v[U].qs]]), I, (U, V)),
    "tmp": (tmp, emb(CZ, (U, V)), (U, V)),
    "new": (new, emb(rx(0.7), (K,)), ()),
    "ku": (lambda r: q.cx(r.k[0], r.v[U][0]), emb(CX, (K, U)), (K, U)),
    "vk": (lambda r: q.cx(r.v[V][0], r.k[0]), emb(CX, (V, K)), (K, V)),
}


def conj_f(v):
    q.h(v)
    q.t(v)


F = emb(T @ H, (V,))
P = emb(np.diag([0, 1]).astype(complex), (C,))
Pw = emb(np.diag([1, 0]).astype(complex), (W,))
OPEN = {
    "(i": (lambda r: q.invert(), lambda M: M.conj().T, set()),
    "(c": (lambda r: q.control(r.v[C][0]), lambda M: P @ M + (I - P), {C}),
    "(w": (lambda r: q.control(r.v[W], ctrl_state=0), lambda M: Pw @ M + (I - Pw), {W}),
    "(j": (lambda r: q.conjugate(conj_f)(r.v[V]), lambda M: F.conj().T @ M @ F, set()),
    "(g": (lambda r: q.GateWrapEnvironment("g"), lambda M: M, set()),
    "(e": (lambda r: q.QuantumEnvironment(), lambda M: M, set()),
}
TOUCH = {"hu": {U}, "rv": {V}, "tw": {W}, "uv": {U, V}, "vw": {V, W}, "wu": {W, U}, "wc": {W, C}, "mg": set(), "ml": set(), "tmp": {U, V}, "new": {K}, "ku": {K, U}, "vk": {K, V}}


def legal(h):
    """Well formed: closes match, control qubits untouched inside their block, k exists when used, no new variable inside an inverted or conjugated block."""
    stack, k, pending = [], False, False
    for t in h:
        if t in OPEN:
            if len(stack) == 2 or (t in ("(c", "(w") and t in stack):
                return False
            if t == "(j" and any(V in OPEN[o][2] for o in stack):
                return False
            stack.append(t)
            pending = True
        elif t == ")":
            if not stack or pending:
                return False
            stack.pop()
        else:
            pending = False
            if any(TOUCH[t] & OPEN[o][2] for o in stack):
                return False
            if t == "new":
                if k or stack:
                    return False
                k = True
            if t in ("ku", "vk") and not k:
                return False
    return not pending


def meaning(h):
    stack = [(None, I)]
    for t in h:
        if t in OPEN:
            stack.append((t, I))
        elif t == ")":
            o, M = stack.pop()
            stack[-1] = (stack[-1][0], OPEN[o][1](M) @ stack[-1][1])
        else:
            stack[-1] = (stack[-1][0], TOK[t][1] @ stack[-1][1])
    while len(stack) > 1:
        o, M = stack.pop()
        stack[-1] = (stack[-1][0], OPEN[o][1](M) @ stack[-1][1])
    return stack[0][1]


def start_vector():
    v = np.ones(1, dtype=complex)
    for i in range(4):
        v = np.kron(v, ry(ANG[i])[:, 0])
    return np.kron(v, np.array([1, 0]))


V0 = start_vector()


def one(ctx, h):
    r = Run()
    envs = []
    for t in h:
        if t in OPEN:
            e = OPEN[t][0](r)
            e.__enter__()
            envs.append(e)
            if t == "(j":
                pass
        elif t == ")":
            envs.pop().__exit__(None, None, None)
        else:
            TOK[t][0](r)
            if TOK[t][2]:
                r.join(*TOK[t][2])
            bad = r.agree()
            if bad:
                return bad
        ctx.step()
    while envs:
        envs.pop().__exit__(None, None, None)
    bad = r.agree()
    if bad:
        return bad
    live = r.v + ([r.k] if r.k is not None else [])
    order = [x[0] for x in live]
    q.merge(live)
    ctx.state(",".join(h))
    names = sorted(x.name for x in r.v[0].qs.qv_list)
    if len(names) != len(live):
        return f"the merged session lists {names}"
    tab = prog.table(r.v[0].qs, [order], compiled=r.v[0].qs.compile())
    want = (meaning(h) @ V0).reshape([2] * 5)
    if r.k is None:
        want = want[..., 0]
    got = np.zeros([2] * len(live), dtype=complex)
    for (o, left), a in tab.items():
        if left:
            return f"helper qubits end in {left:b}"
        got[tuple((o >> j) & 1 for j in range(len(live)))] += a
    f = abs(np.vdot(want, got))
    if abs(f - 1) > 1e-4:
        return f"final state has overlap {f:.4f} with the single-session program"


def names(ctx, kind):
    """Name handling when sessions meet."""
    if kind == "user-user":
        a, b = q.QuantumVariable(1, name="same"), q.QuantumVariable(1, name="same")
        try:
            q.cx(a, b)
        except Exception:
            return None
        return "two variables with the same user-given name were merged"
    if kind == "user-auto":
        a, b = q.QuantumVariable(1, name="same"), q.QuantumVariable(1, name="same*")
        q.x(b)
        q.cx(b, a)
        if a.name != "same" or b.name == "same":
            return f"the automatically named variable kept the name: {a.name} {b.name}"
        if a.get_measurement() != {"1": 1.0}:
            return "wrong result after renaming"
    if kind == "auto-auto":
        vs = [q.QuantumVariable(1, name="same*") for _ in range(4)]
        for x in vs[1:]:
            q.cx(x, vs[0])
        ns = {x.name for x in vs}
        if len(ns) != 4 or len({qb.identifier for qb in vs[0].qs.qubits}) != 4:
            return f"names collide: {sorted(ns)}"
        q.x(vs[1])
        if [x.get_measurement() for x in vs] != [{"0": 1.0}, {"1": 1.0}, {"0": 1.0}, {"0": 1.0}]:
            return "wrong result after renaming"
    if kind == "deleted":
        a, b = q.QuantumVariable(1, name="same*"), q.QuantumVariable(1, name="same*")
        a.delete()
        c = q.QuantumVariable(1, name="other", qs=a.qs)
        q.x(b)
        q.cx(b, c)
        if b.is_deleted() or c.get_measurement() != {"1": 1.0} or b.get_measurement() != {"1": 1.0}:
            return "deleting one variable changed another of the same name"
    if kind == "deleted-auto":
        a = q.QuantumVariable(1, name="twin*")
        b = q.QuantumVariable(1, name="twin*")
        b.delete()

        @q.auto_uncompute
        def f(a):
            t = q.QuantumVariable(1, name="r*")
            q.cx(a, t)
            return t
        q.x(a)
        f(a)
        if a.is_deleted() or a.get_measurement() != {"1": 1.0}:
            return "a variable was uncomputed because another of the same name had been deleted"
    ctx.state(kind)
    ctx.step(3)


KINDS = ["user-user", "user-auto", "auto-auto", "deleted", "deleted-auto"]
SMALL = ["hu", "rv", "uv", "vw", "wu", "wc", "mg", "(i", "(c", "(w", ")"]


def shards(tier):
    out = ["names"] + [f"4/{t}" for t in list(TOK) + list(OPEN)]
    out += [f"5/{t}" for t in SMALL if t != ")"]
    if tier != "quick":
        out += [f"6/{t}/{s}" for t in SMALL if t != ")" for s in SMALL]
    return out


def run(shard, ctx):
    if shard == "names":
        for k in KINDS:
            ctx.case(f"names/{k}", names, ctx, k)
        return
    d, *first = shard.split("/")
    if d == "4":
        alph, depths = list(TOK) + list(OPEN) + [")"], [1, 2, 3] if ctx.tier == "quick" else [1, 2, 3, 4]
    elif d == "5":
        alph, depths = SMALL, [4] if ctx.tier == "quick" else [5]
    else:
        alph, depths = SMALL, [6]
    for n in depths:
        for rest in itertools.product(alph, repeat=n - len(first)):
            h = tuple(first) + rest
            if legal(h):
                ctx.case(",".join(h), one, ctx, h)


RULE = "state of the merged program = single-session reference"
