"""A tiny language of hybrid programs: one syntax tree, executed by the library (traced or recorded) and by a
boring branching reference interpreter.

Statements (expressions are strings over the classical variables k, m, i, a, b, c):
  ("g", gate, idx...)      ("r", gate, angle, idx...)     ("for", lo, hi, body)      ("fori", lo, hi, body)
  ("while", cond, body)    ("if", cond, body, body)       ("sw", idx, bodies)        ("ctl", cond, body)
  ("m", name, idx)         ("mall", name)                 ("set", name, expr)        ("reset", idx)
  ("call", body)           ("slice", lo, hi, body)        ("new", size, idx, name)   ("tmp", idx, body)
  ("inv", body)            ("qc", idx, body)              ("conj", body, body)       ("kern", angle, name)
"""
import numpy as np

N = 3
R2 = 1 / np.sqrt(2)
FIX = {"x": np.array([[0, 1], [1, 0]]), "y": np.array([[0, -1j], [1j, 0]]), "z": np.diag([1, -1]), "h": R2 * np.array([[1, 1], [1, -1]]), "s": np.diag([1, 1j]), "t": np.diag([1, np.exp(0.25j * np.pi)]), "s_dg": np.diag([1, -1j]), "sx": 0.5 * np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]])}
ROT = {"p": lambda a: np.diag([1, np.exp(1j * a)]), "rz": lambda a: np.diag([np.exp(-0.5j * a), np.exp(0.5j * a)]), "ry": lambda a: np.array([[np.cos(a / 2), -np.sin(a / 2)], [np.sin(a / 2), np.cos(a / 2)]]), "rx": lambda a: np.array([[np.cos(a / 2), -1j * np.sin(a / 2)], [-1j * np.sin(a / 2), np.cos(a / 2)]]), "gphase": lambda a: np.exp(1j * a) * np.eye(2)}


def ctl(u, n=1):
    d = len(u)
    m = np.eye(d << n, dtype=complex)
    m[-d:, -d:] = u
    return m


def matrix(name, ang=None):
    if ang is not None:
        if name == "cp":
            return ctl(ROT["p"](ang))
        return ROT[name](ang)
    if name in FIX:
        return FIX[name]
    if name == "swap":
        return np.eye(4)[[0, 2, 1, 3]]
    if name == "mcx":
        return ctl(FIX["x"], 2)
    return ctl(FIX[name[1:]])


# ---- reference -------------------------------------------------------------------------------------------
class Br:
    """One measurement history: probability, normalised state of all live qubits, classical variables."""

    def __init__(self, p, psi, env):
        self.p, self.psi, self.env = p, psi, env

    def copy(self):
        return Br(self.p, self.psi.copy(), dict(self.env))


def apply(psi, m, qs):
    k, n = len(qs), psi.ndim
    m = np.asarray(m).reshape((2,) * (2 * k))
    out = np.tensordot(m, psi, axes=(list(range(k, 2 * k)), list(qs)))
    rest = [i for i in range(n) if i not in qs]
    return np.transpose(out, np.argsort(list(qs) + rest))


def ev(e, env):
    return eval(e, {}, env) if isinstance(e, str) else e


class Ref:
    """Interprets on the register view `reg` (positions of qubits); collects executed gates when asked."""

    def __init__(self, k=0, m=0, n=N):
        psi = np.zeros((2,) * n, dtype=complex)
        psi[(0,) * n] = 1
        self.br = [Br(1.0, psi, {"k": k, "m": m, "a": 0, "b": 0, "c": 0})]
        self.log = {}

    def run(self, stmts, brs=None, reg=None, ctl=()):
        brs = self.br if brs is None else brs
        for s in stmts:
            out = []
            for b in brs:
                out += self.one(s, b, reg if reg is not None else list(range(N)), ctl)
            brs = out
        return brs

    def gate(self, b, m, qs, ctl):
        # ctl: control qubits currently active
        from_m = m
        for c in ctl:
            if c in qs:
                raise ValueError("control on target")
        mm = globals()["ctl"](from_m, len(ctl)) if ctl else from_m
        b.psi = apply(b.psi, mm, list(ctl) + list(qs))

    def split(self, b, qb):
        res = []
        for v in (0, 1):
            pr = np.take(b.psi, v, axis=qb)
            w = float(np.sum(np.abs(pr) ** 2))
            if w < 1e-9:
                continue
            c = b.copy()
            c.p *= w
            sel = [slice(None)] * b.psi.ndim
            sel[qb] = 1 - v
            c.psi[tuple(sel)] = 0
            c.psi /= np.sqrt(w)
            res.append((v, c))
        return res

    def one(self, s, b, reg, ctl):
        op = s[0]
        E = lambda e: ev(e, b.env)
        if op == "g":
            self.gate(b, matrix(s[1]), [reg[E(x)] for x in s[2:]], ctl)
        elif op == "r":
            self.gate(b, matrix(s[1], E(s[2])), [reg[E(x)] for x in s[3:]], ctl)
        elif op in ("for", "fori"):
            brs = [b]
            old = b.env.get("i")
            for i in range(E(s[1]), E(s[2])):
                for c in brs:
                    c.env["i"] = i
                brs = self.run(s[3], brs, reg, ctl)
            for c in brs:
                if old is None:
                    c.env.pop("i", None)
                else:
                    c.env["i"] = old
            return brs
        elif op == "while":
            todo, done = [b], []
            while todo:
                c = todo.pop()
                if ev(s[1], c.env):
                    todo += self.run(s[2], [c], reg, ctl)
                else:
                    done.append(c)
            return done
        elif op == "if":
            return self.run(s[2] if E(s[1]) else s[3], [b], reg, ctl)
        elif op == "sw":
            j = min(max(E(s[1]), 0), len(s[2]) - 1)
            return self.run(s[2][j], [b], reg, ctl)
        elif op == "ctl":
            if not E(s[1]):
                return [b]
            env = dict(b.env)  # classical values computed inside stay inside
            brs = self.run(s[2], [b], reg, ctl)
            for c in brs:
                c.env = dict(env)
            return brs
        elif op == "m":
            out = []
            for v, c in self.split(b, reg[E(s[2])]):
                c.env[s[1]] = v
                out.append(c)
            return out
        elif op == "mall":
            brs = [(b, 0)]
            for j, qb in enumerate(reg):
                brs = [(c, acc | v << j) for bb, acc in brs for v, c in self.split(bb, qb)]
            for c, acc in brs:
                c.env[s[1]] = acc
            return [c for c, _ in brs]
        elif op == "set":
            b.env[s[1]] = E(s[2])
        elif op == "reset":
            out = []
            qb = reg[E(s[1])]
            for v, c in self.split(b, qb):
                if v:
                    c.psi = apply(c.psi, FIX["x"], [qb])
                out.append(c)
            return out
        elif op == "call":
            return self.run(s[1], [b], reg, ctl)
        elif op == "slice":
            return self.run(s[3], [b], reg[E(s[1]):E(s[2])], ctl)
        elif op == "new":
            # a fresh register of the given size, every qubit a copy of one qubit, h on its first, measured
            size = E(s[1])
            n0 = b.psi.ndim
            for j in range(size):
                z = np.zeros(b.psi.shape + (2,), dtype=complex)
                z[..., 0] = b.psi
                b.psi = z
            for j in range(size):
                b.psi = apply(b.psi, matrix("cx"), [reg[E(s[2])], n0 + j])
            if size:
                b.psi = apply(b.psi, matrix("h"), [n0])
            brs = [(b, 0)]
            for j in range(size):
                brs = [(c, acc | v << j) for bb, acc in brs for v, c in self.split(bb, n0 + j)]
            for c, acc in brs:
                for j in range(size):
                    c.psi = np.take(c.psi, (acc >> (size - 1 - j)) & 1, axis=n0 + size - 1 - j)
                c.env[s[3]] = acc
            return [c for c, _ in brs]
        elif op == "tmp":
            # a helper copy controls the body and is uncomputed and deleted
            return self.run(s[2], [b], reg, ctl + (reg[E(s[1])],))
        elif op == "inv":
            u = self.unitary(s[1], b, reg)
            self.gate(b, u.conj().T, list(reg), ctl)
        elif op == "qc":
            return self.run(s[2], [b], reg, ctl + (reg[E(s[1])],))
        elif op == "conj":
            u, w = self.unitary(s[1], b, reg), self.unitary(s[2], b, reg)
            self.gate(b, u.conj().T @ w @ u, list(reg), ctl)
        elif op == "kern":
            out = []
            p1 = float(np.sin(E(s[1]) / 2) ** 2)
            for v, p in ((0, 1 - p1), (1, p1)):
                if p > 1e-9:
                    c = b.copy()
                    c.p *= p
                    c.env[s[2]] = v
                    out.append(c)
            return out
        else:
            raise ValueError(op)
        return [b]

    def unitary(self, body, b, reg):
        n = len(reg)
        cols = []
        for j in range(1 << n):
            psi = np.zeros((2,) * n, dtype=complex)
            psi.reshape(-1)[j] = 1
            r = self.run(body, [Br(1.0, psi, dict(b.env))], list(range(n)), ())
            cols.append(r[0].psi.reshape(-1))
        return np.array(cols).T


# ---- library ---------------------------------------------------------------------------------------------
def names(stmts):
    """classical variables a body assigns"""
    out = []
    for s in stmts:
        if s[0] in ("m", "mall", "set"):
            out.append(s[1])
        elif s[0] in ("new",):
            out.append(s[3])
        elif s[0] == "kern":
            out.append(s[2])
        elif s[0] == "sw":
            for x in s[2]:
                out += names(x)
        else:
            for x in s[1:]:
                if isinstance(x, (list, tuple)) and (not x or isinstance(x[0], (list, tuple))):
                    out += names(x)
    return sorted(set(out))


def emit(stmts, v, env):
    for s in stmts:
        emit1(s, v, env)


def emit1(s, v, env):
    import qrisp as q
    from qrisp import jasp
    op = s[0]
    E = lambda e: ev(e, env)
    if op == "g":
        args = [v[E(x)] for x in s[2:]]
        if s[1] == "mcx":
            q.mcx(args[:-1], args[-1])
        else:
            getattr(q, s[1])(*args)
    elif op == "r":
        args = [v[E(x)] for x in s[3:]]
        getattr(q, s[1])(E(s[2]), *args)
    elif op == "for":
        old = env.get("i")
        for i in jasp.jrange(E(s[1]), E(s[2])) if s[1] not in (0, "0") else jasp.jrange(E(s[2])):
            env["i"] = i
            emit(s[3], v, env)
        if old is None:
            env.pop("i", None)
        else:
            env["i"] = old
    elif op == "fori":
        ks = [n for n in names(s[3]) if n in env]

        def body(i, val):
            e = dict(env)
            e.update(zip(ks, val))
            e["i"] = i
            emit(s[3], v, e)
            return tuple(num(e[n]) for n in ks)
        r = q.q_fori_loop(E(s[1]), E(s[2]), body, tuple(num(env[n]) for n in ks))
        env.update(zip(ks, r))
    elif op == "while":
        ks = [n for n in names(s[2]) if n in env]

        def wb(val):
            e = dict(env)
            e.update(zip(ks, val))
            emit(s[2], v, e)
            return tuple(num(e[n]) for n in ks)

        def wc(val):
            e = dict(env)
            e.update(zip(ks, val))
            return ev(s[1], e)
        r = q.q_while_loop(wc, wb, tuple(num(env[n]) for n in ks))
        env.update(zip(ks, r))
    elif op in ("if", "sw"):
        bodies = [s[2], s[3]] if op == "if" else s[2]
        ks = sorted(set(sum((names(b) for b in bodies), [])))
        have = [n for n in env]

        def mk(b):
            def f(v, *vals):
                e = dict(zip(have, vals))
                emit(b, v, e)
                return tuple(num(e.get(n, 0)) for n in ks)
            return f
        if op == "if":
            r = q.q_cond(E(s[1]), mk(s[2]), mk(s[3]), v, *[num(env[n]) for n in have])
        else:
            r = q.q_switch(E(s[1]), [mk(b) for b in bodies], v, *[num(env[n]) for n in have])
        env.update(zip(ks, r))
    elif op == "ctl":
        with q.control(E(s[1])):
            emit(s[2], v, dict(env))
    elif op == "m":
        env[s[1]] = q.measure(v[E(s[2])])
    elif op == "mall":
        env[s[1]] = q.measure(v)
    elif op == "set":
        env[s[1]] = E(s[2])
    elif op == "reset":
        q.reset(v[E(s[1])])
    elif op == "call":
        have = [n for n in env]
        ks = names(s[1])
        key = (repr(s), tuple(have))

        if key not in CALLS:
            @q.qache
            def sub(v, *vals):
                e = dict(zip(have, vals))
                emit(s[1], v, e)
                return tuple(e[n] for n in ks)
            CALLS[key] = sub
        r = CALLS[key](v, *[env[n] for n in have])
        env.update(zip(ks, r))
    elif op == "slice":
        emit(s[3], v[E(s[1]):E(s[2])], env)
    elif op == "new":
        n = E(s[1])
        t = q.QuantumFloat(n)
        src = v[E(s[2])]
        for j in jasp.jrange(n):
            q.cx(src, t[j])
        with q.control(n > 0):
            q.h(t[0])
        env[s[3]] = q.measure(t)
        t.delete(verify=False) if False else None
    elif op == "tmp":
        t = q.QuantumBool()
        src = v[E(s[1])]
        q.cx(src, t[0])
        with q.control(t[0]):
            emit(s[2], v, env)
        q.cx(src, t[0])
        t.delete()
    elif op == "inv":
        with q.invert():
            emit(s[1], v, dict(env))
    elif op == "qc":
        with q.control(v[E(s[1])]):
            emit(s[2], v, dict(env))
    elif op == "conj":
        def cj(v):
            emit(s[1], v, dict(env))
        with q.conjugate(cj)(v):
            emit(s[2], v, dict(env))
    elif op == "kern":
        @jasp.quantum_kernel
        def kernel(x):
            t = q.QuantumBool()
            q.ry(x, t[0])
            return q.measure(t[0])
        env[s[2]] = kernel(E(s[1]))
    else:
        raise ValueError(op)


CALLS = {}


def num(x):
    from qrisp.jasp import check_for_tracing_mode
    if not check_for_tracing_mode():
        return x
    import jax.numpy as jnp
    return jnp.asarray(x, dtype="int64")


def flow(stmts):
    """True if the program contains measurements, resets or kernels"""
    return any(s[0] in ("m", "mall", "reset", "new", "kern") or any(flow(x) for x in s[1:] if isinstance(x, (list, tuple)) and x and isinstance(x[0], (list, tuple)) and isinstance(x[0][0], str)) or s[0] == "sw" and any(flow(x) for x in s[2]) for s in stmts)


def subs(s):
    return list(s[2]) if s[0] == "sw" else [x for x in s[1:] if isinstance(x, (list, tuple)) and (not x or isinstance(x[0], (list, tuple)))]


def carries(stmts):
    """True if some plain loop assigns classical variables"""
    return any(s[0] == "for" and names(s[3]) or any(carries(x) for x in subs(s)) for s in stmts)
