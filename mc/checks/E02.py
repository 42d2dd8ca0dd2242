"""Automatic uncomputation against the meaning of compute-use-reverse."""
import itertools, math
import numpy as np
import qrisp as q
from mc import prog

NOTE = "every program over the token alphabet up to the depth bound (computing target variables, using them, changing the variables they came from), then every uncomputation mode; the result must be the exact compute-use-reverse map (obtained by summing the branch amplitudes over the target's value) with the target back in zero, or an exception; programs that must be accepted may not be refused, programs for which no such map exists must be"

A0, A1, B, R, S = range(5)
N = 5
I2 = np.eye(2)
X = np.array([[0, 1], [1, 0]], dtype=complex)
H = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)


def ph(*a):
    return np.diag(np.exp(1j * np.array(a)))


def RXm(f):
    return np.array([[math.cos(f / 2), -1j * math.sin(f / 2)], [-1j * math.sin(f / 2), math.cos(f / 2)]])


def ctl(U, k=1):
    n = U.shape[0]
    M = np.eye(n << k, dtype=complex)
    M[-n:, -n:] = U
    return M


def neg(U):
    """controlled on zero"""
    n = U.shape[0]
    M = np.eye(2 * n, dtype=complex)
    M[:n, :n] = U
    return M


SW = np.eye(4, dtype=complex)[[0, 2, 1, 3]]
# token: (real action on qubit list, reference matrix, qubits, target qubits, control qubits)
# the reference of a target step carries no phase: phases of the computation are undone with it
TOK = {
    "a0>r": (lambda z: q.cx(z[A0], z[R]), ctl(X), (A0, R)),
    "a1>r": (lambda z: q.cx(z[A1], z[R]), ctl(X), (A1, R)),
    "aa>r": (lambda z: q.mcx([z[A0], z[A1]], z[R]), ctl(X, 2), (A0, A1, R)),
    "ab>s": (lambda z: q.mcx([z[A1], z[B]], z[S], ctrl_state="01"), np.eye(8, dtype=complex)[[0, 1, 3, 2, 4, 5, 6, 7]], (A1, B, S)),
    "x r": (lambda z: q.x(z[R]), X, (R,)),
    "cy r": (lambda z: q.cy(z[A0], z[R]), ctl(X), (A0, R)),
    "r>s": (lambda z: q.cx(z[R], z[S]), ctl(X), (R, S)),
    "ar>s": (lambda z: q.mcx([z[A1], z[R]], z[S]), ctl(X, 2), (A1, R, S)),
    "swap": (lambda z: q.swap(z[R], z[S]), SW, (R, S)),
    "b>r": (lambda z: q.cx(z[B], z[R]), ctl(X), (B, R)),
    "r>b": (lambda z: q.cx(z[R], z[B]), ctl(X), (R, B)),
    "s>b": (lambda z: q.cx(z[S], z[B]), ctl(X), (S, B)),
    "ar>b": (lambda z: q.mcx([z[A0], z[R]], z[B]), ctl(X, 2), (A0, R, B)),
    "cp": (lambda z: q.cp(0.7, z[R], z[B]), ph(0, 0, 0, 0.7), (R, B)),
    "p r": (lambda z: q.p(0.5, z[R]), ph(0, 0.5), (R,)),
    "rz s": (lambda z: q.rz(0.4, z[S]), ph(-0.2, 0.2), (S,)),
    "rh b": (lambda z: crx(z[R], z[B]), ctl(RXm(0.9)), (R, B)),
    "x a0": (lambda z: q.x(z[A0]), X, (A0,)),
    "h a0": (lambda z: q.h(z[A0]), H, (A0,)),
    "b>a0": (lambda z: q.cx(z[B], z[A0]), ctl(X), (B, A0)),
    "h b": (lambda z: q.h(z[B]), H, (B,)),
    "h r": (lambda z: q.h(z[R]), H, (R,)),
}
TARGET = {"a0>r": R, "a1>r": R, "aa>r": R, "ab>s": S, "x r": R, "cy r": R, "r>s": S, "ar>s": S, "b>r": R}
CONTROL = {"a0>r": {A0}, "a1>r": {A1}, "aa>r": {A0, A1}, "ab>s": {A1, B}, "x r": set(), "cy r": {A0}, "r>s": {R}, "ar>s": {A1, R}, "b>r": {B}}
CHANGES = {"r>b": B, "s>b": B, "ar>b": B, "rh b": B, "x a0": A0, "h a0": A0, "b>a0": A0, "h b": B}
QFREE = [t for t in TOK if t not in ("h r",)]
MODES = {"r": [R], "s": [S], "rs": [R, S], "auto": [R, S], "ctl": [R, S], "inv": [R, S], "stack": [R, S]}


def crx(a, b):
    with q.control(a):
        q.rx(0.9, b)


def apply(M, U, qs):
    k = len(qs)
    T = M.reshape([2] * N + [-1])
    T = np.moveaxis(T, qs, range(k))
    sh = T.shape
    T = (U @ T.reshape(1 << k, -1)).reshape(sh)
    return np.moveaxis(T, range(k), qs).reshape(M.shape)


def meaning(steps, targets):
    """8 input columns (a0,a1,b) -> amplitudes over (a0,a1,b, live targets), or None when impossible."""
    M = np.zeros((1 << N, 8), dtype=complex)
    for i in range(8):
        M[i << 2, i] = 1
    for t in steps:
        _, U, qs = TOK[t]
        if t == "cy r" and R not in targets:
            U = ctl(np.array([[0, -1j], [1j, 0]]))
        M = apply(M, U, qs)
    T = M.reshape([2] * N + [8])
    T = T.sum(axis=tuple(targets), keepdims=True)
    pad = [(0, 0)] * (N + 1)
    out = np.zeros([2] * N + [8], dtype=complex)
    out[tuple(slice(0, 1) if i in targets else slice(None) for i in range(N)) + (slice(None),)] = T
    out = out.reshape(1 << N, 8)
    return out, bool(np.abs(out.conj().T @ out - np.eye(8)).max() < 1e-6)


def must_work(steps, targets):
    """Every target step comes from variables that are not changed afterwards (or are themselves reversed)."""
    used = set()
    for i, t in enumerate(steps):
        if t == "swap" or t == "h r" or t == "cy r":
            return False
        if t in CHANGES and CHANGES[t] in used:
            return False
        if t in TARGET:
            if TARGET[t] == R and S in targets and any(u in ("r>s", "ar>s") for u in steps[:i]):
                return False
            if TARGET[t] in targets:
                used |= CONTROL[t] - set(targets)
            if TARGET[t] not in targets and TARGET[t] in used:
                return False
    # conservative: only one-directional data flow (nothing computed from a target feeds another target step)
    return not any(t in ("b>r", "ab>s") and any(CHANGES.get(u) == B for u in steps) for t in steps)


def body(steps, z):
    for t in steps:
        TOK[t][0](z)


def start():
    r = q.QuantumVariable(4, name="ref")
    a, b, c = q.QuantumVariable(2, name="a"), q.QuantumVariable(1, name="b"), q.QuantumVariable(1, name="c")
    q.h(r)
    for x, y in zip(r, list(a) + list(b) + list(c)):
        q.cx(x, y)
    return r, a, b, c


def fresh(k):
    return q.QuantumVariable(1, name=k)


def one(ctx, mode, steps, cut=None, rec=False):
    targets = MODES.get(mode, [R, S])
    if mode == "inv":
        want, ok = meaning(steps, targets)
        if ok:
            W3 = want.reshape([2] * 3 + [2, 2, 8])[:, :, :, 0, 0, :].reshape(8, 8).conj().T
            want = np.zeros((32, 8), dtype=complex)
            want[::4] = W3
    else:
        want, ok = meaning(steps, targets)
    if "h r" in steps and R in targets:
        ok = False
    ref, a, b, c = start()
    r, s = None, None
    try:
        if mode in ("r", "s", "rs", "stack"):
            r, s = fresh("r"), fresh("s")
            q.merge([a, b, r, s])
            body(steps, list(a) + list(b) + [r[0], s[0]])
            if mode == "rs":
                q.merge([r, s, a])
                from qrisp.permeability import uncompute
                uncompute(a.qs, [r, s])
            elif mode == "stack":
                q.merge([r, s, a])
                r.uncompute(do_it=False)
                s.uncompute()
            else:
                (r if mode == "r" else s).uncompute()
        elif mode == "auto":
            @q.auto_uncompute
            def f(a, b):
                r, s = fresh("r"), fresh("s")
                body(steps, list(a) + list(b) + [r[0], s[0]])
                q.merge([a, r, s])
            f(a, b)
        elif mode == "ctl":
            with q.control(c[0]):
                r, s = fresh("r"), fresh("s")
                body(steps, list(a) + list(b) + [r[0], s[0]])
                q.merge([r, s, a])
                r.uncompute(do_it=False)
                s.uncompute()
        elif mode == "inv":
            with q.invert():
                r, s = fresh("r"), fresh("s")
                body(steps, list(a) + list(b) + [r[0], s[0]])
                q.merge([r, s, a])
                r.uncompute(do_it=False)
                s.uncompute()
        elif mode == "seq":
            r, s = fresh("r"), fresh("s")
            body(steps[:cut], list(a) + list(b) + [r[0], s[0]])
            q.merge([r, s, a])
            r.uncompute(recompute=rec)
            body(steps[cut:], list(a) + list(b) + [None, s[0]])
            s.uncompute()
    except Exception as e:
        ctx.state(f"{mode}:refused:{steps}")
        if type(e) in (TypeError, AttributeError, KeyError, IndexError, NameError, UnboundLocalError):
            return f"uncomputation crashed: {e!r}"
        if ok and must_work(steps, targets) and mode != "seq":
            return f"refused although every value was computed from unchanged variables: {e}"
        return None
    ctx.step(len(steps) + 1)
    dirty = [v for k, v in ((R, r), (S, s)) if v is not None and k in targets]
    for v in dirty:
        if not v.is_deleted():
            return "the variable is still registered after uncomputation"
    live = list(a) + list(b)
    extra = [(k, v[0]) for k, v in ((R, r), (S, s)) if v is not None and k not in targets]
    tab = prog.table(a.qs, [ref, live, list(c), [v for _, v in extra]])
    ctx.state(f"{mode}:{steps}")
    M = np.zeros((2, 1 << N, 8), dtype=complex)
    for (i, o, cc, e, left), amp in tab.items():
        if left:
            return f"helper or uncomputed qubits end in {left:b} for input {i:04b}"
        if cc != i >> 3:
            return "an uninvolved qubit changed"
        bits = [(o >> k) & 1 for k in range(3)] + [0, 0]
        for j, (k, _) in enumerate(extra):
            bits[k] = (e >> j) & 1
        row = sum(v << (N - 1 - k) for k, v in enumerate(bits))
        col = (i & 1) << 2 | (i & 2) | (i >> 2) & 1
        M[cc, row, col] += amp * 4
    idm = np.zeros((32, 8), dtype=complex)
    idm[::4] = np.eye(8)
    exp = np.stack([idm, want]) if mode == "ctl" else np.stack([want, want])
    if not ok:
        return "accepted although the target's value can no longer be reversed exactly"
    k = np.unravel_index(np.argmax(np.abs(exp)), exp.shape)
    if abs(M[k]) < 1e-6 or np.abs(M * (exp[k] / M[k]) / abs(exp[k] / M[k]) - exp).max() > 1e-3:
        return "the remaining variables are not in the compute-use-reverse state"


STARTS = ["a0>r", "aa>r", "cy r"]
QUICK4 = ["a0>r", "aa>r", "ab>s", "x r", "r>s", "ar>s", "swap", "b>r", "r>b", "cp", "x a0", "h a0", "b>a0", "h b"]


def shards(tier):
    first = list(TARGET) + ["swap", "rh b", "h b"] if tier == "quick" else list(TOK)
    out = [f"{m}/{t}" for m in ("r", "rs") for t in first] + [f"{m}/{t}" for m in ("s", "auto", "ctl", "inv", "stack") for t in STARTS + ["ab>s"]]
    out += [f"seq/{t}" for t in STARTS[:2]]
    if tier == "quick":
        out += [f"4{m}/{t}" for m in ("r", "rs") for t in QUICK4 if t in ("r>s", "r>b", "b>r")]
    else:
        out += [f"4{m}/{t}" for m in ("r", "s", "rs", "auto", "ctl", "inv") for t in TOK]
    return out


def cases(shard, tier):
    m, t = shard.split("/")
    quick = tier == "quick"
    if m == "seq":
        alph = ["aa>r", "x r", "r>s", "ar>s", "r>b", "cp", "x a0", "a1>r"]
        post = ["s>b", "rz s", "x a0", "h a0", "b>a0", "h b", "ab>s"]
        for d in (1, 2) if quick else (1, 2, 3):
            for p1 in itertools.product(alph, repeat=d):
                for e in range(0, 2 if quick or d == 3 else 3):
                    for p2 in itertools.product(post, repeat=e):
                        for rec in (False, True):
                            yield "seq", (t,) + p1 + p2, 1 + d, rec
    elif m[0] == "4":
        for rest in itertools.product(QUICK4 if quick else list(TOK), repeat=2 if quick else 3):
            if quick:
                for s in ("a0>r", "aa>r"):
                    yield m[1:], (s, t) + rest, None, False
            else:
                yield m[1:], (t,) + rest, None, False
    else:
        depth = 2 if quick and m in ("s", "ctl", "inv", "stack", "auto") else 2 if quick else 3
        for d in range(0, depth + 1):
            if d == 3:
                continue
            for rest in itertools.product(TOK, repeat=d):
                yield m, (t,) + rest, None, False


def run(shard, ctx):
    for m, steps, cut, rec in cases(shard, ctx.tier):
        ctx.case(f"{m}/{','.join(steps)}/{cut}{'+rec' if rec else ''}", one, ctx, m, steps, cut, rec)


RULE = "compute-use-reverse map (sum of branch amplitudes over the target value) or refusal"
