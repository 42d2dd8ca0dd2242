"""Expectation values and time evolution of spin operators against their matrices."""
import itertools
import numpy as np
import scipy.linalg as sl
import qrisp as q
from qrisp.interface import Backend, Job, JobResult, JobStatus
from qrisp.operators import QubitOperator
from mc import prog, jsim, ref
from mc.checks.O01 import op, opm, words, key

NOTE = "expectation: operators over the factor alphabet (all two-site words with real and complex weight, two- and three-term sums) x an informationally complete set of product states and entangled states x both grouping methods, through a backend answering with exact probabilities; evolution: the same operators x order 1/2 x both methods x times of either sign and zero x steps x iterations x plain, controlled, inverted x recorded and traced, complete unitaries compared: exact where all terms commute, one of the two product orders for two terms, the rigorous commutator bound otherwise; randomised product formula compared with all term-count vectors"


class Exact(Backend):
    """Reports exact outcome probabilities, whatever the number of shots asked for."""

    def __init__(self):
        super().__init__(name="exact", options={"shots": None})

    def run_async(self, circuits, shots=None):
        circuits = [circuits] if isinstance(circuits, q.QuantumCircuit) else list(circuits)
        return Done(self, [self.answer(c) for c in circuits])

    def answer(self, qc):
        src = {}
        bare = qc.clearcopy()
        for ins in qc.data:
            if ins.op.name == "measure":
                src[ins.clbits[0]] = qc.qubits.index(ins.qubits[0])
            else:
                bare.append(ins.op, ins.qubits, ins.clbits)
        n = len(qc.qubits)
        pr = np.abs(np.asarray(bare.statevector_array(), dtype=complex)) ** 2
        order = [c for c in qc.clbits if c in src][::-1]
        out = {}
        for i in np.flatnonzero(pr > 1e-9):
            s = "".join(str((int(i) >> (n - 1 - src[c])) & 1) for c in order)
            out[s] = out.get(s, 0) + float(pr[i])
        return out


class Done(Job):
    def __init__(self, backend, counts):
        super().__init__(backend)
        self.counts = counts
        self._last_known_status = JobStatus.DONE

    def submit(self):
        pass

    def result(self, timeout=None):
        return JobResult(self.counts)

    def cancel(self):
        return False

    def status(self):
        return JobStatus.DONE


R2 = 2 ** -.5
ONEQ = {"0": ((), (1, 0)), "1": (("x",), (0, 1)), "+": (("h",), (R2, R2)), "-": (("x", "h"), (R2, -R2)), "r": (("h", "s"), (R2, 1j * R2)), "l": (("x", "h", "s"), (R2, -1j * R2))}


def prepare(state, v):
    if state in ("bell", "ghz"):
        q.h(v[0])
        for i in range(1, 2 if state == "bell" else len(v)):
            q.cx(v[0], v[i])
        q.p(0.7, v[0])
        return
    for i, c in enumerate(state):
        for g in ONEQ[c][0]:
            getattr(q, g)(v[i])


def vector(state, n):
    if state in ("bell", "ghz"):
        m = 2 if state == "bell" else n
        v = np.zeros(1 << n, dtype=complex)
        v[0] = R2
        v[int("1" * m + "0" * (n - m), 2)] = R2 * np.exp(0.7j)
        return v
    v = np.ones(1, dtype=complex)
    for i in range(n):
        v = np.kron(v, np.array(ONEQ[state[i]][1] if i < len(state) else (1, 0), dtype=complex))
    return v


STATES = ["".join(s) for s in itertools.product(ONEQ, repeat=2)] + ["bell"]


def expect(ctx, s, n, method, states):
    m = opm(s, n)
    h = (m + m.conj().T) / 2
    o = op(s)
    for st in states:
        def psi():
            v = q.QuantumVariable(n)
            prepare(st, v)
            return v
        ctx.step()
        got = o.expectation_value(psi, diagonalisation_method=method, backend=Exact())()
        vec = vector(st, n)
        want = np.vdot(vec, h @ vec).real
        if abs(complex(got) - want) > 1e-4:
            return f"expectation of {s} in state {st} ({method}): {got}, exact {want}"
    a = np.asarray(o.to_array(factor_amount=n))
    if not np.allclose(a, m):
        return f"{s} changed by measuring it"
    ctx.state((key(s), method))


def texpect(ctx, w, st, c, method):
    """Traced expectation value in an eigenstate (every sample gives the eigenvalue)."""
    from qrisp.jasp import jaspify
    o = c * op(((1, w),))
    n = len(w)
    vec = vector(st, n)
    want = (c * np.vdot(vec, opm(((1, w),), n) @ vec)).real

    @jaspify
    def main():
        def psi():
            v = q.QuantumVariable(n)
            prepare(st, v)
            return v
        return o.expectation_value(psi, precision=0.1, diagonalisation_method=method)()
    ctx.step()
    got = float(main())
    ctx.state(("t", w, st, c, method))
    if abs(got - want) > 1e-6:
        return f"traced expectation of {c}*{w} in its eigenstate {st}: {got}, exact {want}"


# ---- evolution -----------------------------------------------------------------------------------

def parts(s, n):
    """Hermitian matrix of every term of the hermitian part (a ladder term together with its adjoint)."""
    out = []
    for c, w in s:
        m = c * opm(((1, w),), n)
        out.append((m + m.conj().T) / 2)
    return out


def commuting(hs):
    return all(np.allclose(a @ b, b @ a) for a, b in itertools.combinations(hs, 2))


def norm(m):
    return np.linalg.norm(m, 2)


def apply(o, v, order, method, fwd, t, steps, iters, wrap, e):
    U = o.trotterization(order=order, method=method, forward_evolution=fwd)
    if wrap == "ctl":
        with q.control(e[0]):
            U(v, t=t, steps=steps, iter=iters)
    elif wrap == "inv":
        with q.invert():
            U(v, t=t, steps=steps, iter=iters)
    else:
        U(v, t=t, steps=steps, iter=iters)


def unitary(mode, n, body):
    """Complete unitary of body(v, e) on (system, control)."""
    def build():
        v, e, c = q.QuantumVariable(n), q.QuantumVariable(1), q.QuantumVariable(n + 1)
        for i in range(n):
            q.h(c[i])
            q.cx(c[i], v[i])
        q.h(c[n])
        q.cx(c[n], e[0])
        body(v, e)
        return c, v, e
    if mode == "rec":
        c, v, e = build()
        q.merge([c, v, e])
        qbs = list(v.reg) + list(e.reg)
        yield prog.choi(prog.table(c.qs, [c, qbs]), n + 1)
        return
    res, qc = jsim.circuit(build)
    g = [list(r) for r in res if isinstance(r, (list, tuple))]
    for pr, cb, tab in prog.branch_tables(qc, [g[0], g[1] + g[2]]):
        yield prog.choi(tab, n + 1)


def evolve(ctx, mode, s, n, order, method, fwd, t, steps, iters, wrap):
    o = op(s)
    hs = parts(s, n)
    H = sum(hs)
    sign = (1 if fwd else -1) * (-1 if wrap == "inv" else 1)
    exact = sl.expm(-1j * H * t * sign * iters)
    N = steps * iters
    dt = t / steps * sign
    complex_ladder = any(abs(complex(c).imag) > 1e-12 and any(f in "AC" for f in w) for c, w in s)
    for u, err in unitary(mode, n, lambda v, e: apply(o, v, order, method, fwd, t, steps, iters, wrap, e)):
        ctx.step()
        if err:
            return err
        # the control is the last (least significant) position
        off, on = u[0::2, 0::2], u[1::2, 1::2]
        if np.max(np.abs(u[0::2, 1::2])) > 1e-3 or np.max(np.abs(u[1::2, 0::2])) > 1e-3:
            return "the control qubit changed"
        d = 1 << n
        f = np.trace(off) / abs(np.trace(off)) if wrap == "ctl" and abs(np.trace(off)) > 1e-6 else 1
        if wrap == "ctl":
            if np.max(np.abs(off - f * np.eye(d))) > 1e-3:
                return "acts although the control is off"
            got, exactly = on / f, True
        else:
            got, exactly = on, False
            if np.max(np.abs(on - off)) > 1e-3:
                return "depends on an unrelated qubit"
        same = (lambda a, b: np.max(np.abs(a - b)) < 1e-3) if exactly else (lambda a, b: prog.phase_equal(a, b, 1e-3))
        if commuting(hs) and not complex_ladder:
            if not same(got, exact):
                return f"evolution under {key(s)} (t={t}, order {order}, {method}): {np.round(got, 3).tolist()} expected {np.round(exact, 3).tolist()}"
        elif len(hs) == 2 and not complex_ladder:
            ok = False
            for a, b in ((0, 1), (1, 0)):
                ea, eb = sl.expm(-1j * hs[a] * dt), sl.expm(-1j * hs[b] * dt)
                if order == 2:
                    ea = sl.expm(-1j * hs[a] * dt / 2)
                    step = ea @ eb @ ea
                else:
                    step = ea @ eb
                ok = ok or same(got, np.linalg.matrix_power(step, N))
            if not ok:
                return f"evolution under {key(s)} (t={t}, order {order}, {method}, {steps} steps) is neither order of the product formula"
        else:
            # rigorous bound of the first-order formula over any ordering and grouping; a finer split of the
            # terms into Pauli words can only be bounded by the words' commutators
            hp = [c * opm(((1, w),), n) for c, w in pauli_parts(s, n)]
            b = sum(norm(x @ y - y @ x) for x, y in itertools.combinations(hp, 2)) / 2 * dt ** 2 * N
            d0 = min(norm(got * ph - exact) for ph in ([1] if exactly else [np.exp(1j * a) for a in phases(got, exact)]))
            if d0 > b + 2e-3:
                return f"evolution under {key(s)} (t={t}) is {d0:.4f} away from exact, any first-order product formula stays within {b:.4f}"
    ctx.state((mode, key(s), order, method, fwd, t, steps, iters, wrap))


def phases(a, b):
    """Candidate global phases aligning a with b."""
    z = np.vdot(a.reshape(-1), b.reshape(-1))
    return [np.angle(z)] if abs(z) > 1e-9 else [0.0]


PM = {"X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1]), "I": np.eye(2)}


def pauli_parts(s, n):
    H = sum(parts(s, n))
    out = []
    for w in itertools.product("IXYZ", repeat=n):
        m = np.eye(1)
        for f in w:
            m = np.kron(m, PM[f])
        c = np.trace(m @ H) / (1 << n)
        if abs(c) > 1e-12:
            out.append((c, "".join(w)))
    return out


def qdrift(ctx, mode, s, n, fwd, t, samples, iters, seed, wrap):
    """Commuting terms: the result is the product with some vector of term counts."""
    o = op(s)
    hs = parts(s, n)
    ws = []
    for (c, w), h in zip(s, hs):
        ws.append((complex(c).real, h / complex(c).real))
    lam = sum(abs(c) for c, _ in ws)
    tau = lam * t / samples * (1 if fwd else -1) * (-1 if wrap == "inv" else 1)

    def body(v, e):
        U = o.qdrift(forward_evolution=fwd)
        if wrap == "ctl":
            with q.control(e[0]):
                U(v, t=t, samples=samples, seed=seed, iter=iters)
        elif wrap == "inv":
            with q.invert():
                U(v, t=t, samples=samples, seed=seed, iter=iters)
        else:
            U(v, t=t, samples=samples, seed=seed, iter=iters)
    ctx.state(("q", mode, key(s), fwd, t, samples, iters, seed, wrap))
    for u, err in unitary(mode, n, body):
        ctx.step()
        if err:
            return err
        off, on = u[0::2, 0::2], u[1::2, 1::2]
        tot = samples * iters
        for cnt in itertools.product(range(tot + 1), repeat=len(ws)):
            if sum(cnt) == tot:
                want = np.eye(1 << n)
                for k, (c, h) in zip(cnt, ws):
                    want = sl.expm(-1j * tau * k * np.sign(c) * h) @ want
                if wrap == "ctl":
                    if np.max(np.abs(off - np.eye(1 << n) * off[0, 0])) < 1e-3 and np.max(np.abs(on - want * off[0, 0])) < 1e-3:
                        break
                elif prog.phase_equal(on, want, 1e-3):
                    break
        else:
            return f"randomised evolution under {key(s)} (t={t}, {samples} samples) is no product of {tot} term exponentials"


def ops1():
    return [((1, w),) for w in words(2)]


def ops_c():
    """Complex weights (the hermitian part is meant)."""
    return [((-1.5 + 2j, w),) for w in words(2)]


def ops2(quick):
    ws = words(2)
    out = []
    for i, w in enumerate(ws):
        for j, v in enumerate(ws[i + 1:]):
            if (not quick and (j + i) % 2 == 0) or (i * 7 + j) % 16 == 0:
                out.append(((1.5, w), (-0.5, v)))
    return out


def ops3():
    out = []
    for t in (("XX", "YY", "ZZ"), ("XY", "YX", "ZI"), ("AC", "ZZ", "IZ"), ("A0", "X1", "ZI"), ("AI", "IA", "AA"), ("XZ", "ZX", "YY"), ("IX", "YI", "ZZ"), ("XX", "XI", "IX"), ("ZI", "IZ", "II"), ("AC", "AA", "II"), ("XI", "YI", "ZI"), ("A0", "A1", "IX"), ("01", "10", "XX")):
        for c in ((1, 1, 1), (1, -2, 0.5), (1j, -1, 1 + 1j)):
            out.append(tuple(zip(c, t)))
    return out


def ops_wide(quick):
    """Three sites: ladder and projector strings with several of each kind."""
    out = [((1, w),) for w in words(3) if "I" not in w and sum(f in "AC01" for f in w) >= 2]
    if quick:
        out = out[::5]
    return out + [((1, "XXX"), (-1, "YYX")), ((1, "ZIZ"), (0.5, "IXI")), ((1, "AZC"), (0.5, "CZA")), ((1, "ACI"), (1, "IAC")), ((2, "XYZ"), (1, "YZX"), (-1, "ZXY"))]


METHODS = ("commuting_qw", "commuting")


def shards(tier):
    out = [f"ex/{m}/{g}/{i}" for m in METHODS for g in ("one", "cplx", "two", "three", "wide") for i in (0, 1)]
    out += [f"tex/{m}" for m in METHODS]
    out += [f"ev/rec/{m}/{g}/{i}" for m in METHODS for g in ("one", "cplx", "two", "three", "wide") for i in (0, 1)]
    out += [f"ev/tr/{m}/{i}" for m in METHODS for i in (0, 1)] + ["qd/rec", "qd/tr"]
    return out


def oplist(g, quick):
    return {"one": ops1, "cplx": ops_c, "two": lambda: ops2(quick), "three": ops3, "wide": lambda: ops_wide(quick)}[g]()


def run(shard, ctx):
    quick = ctx.tier == "quick"
    p = shard.split("/")
    if p[0] == "ex":
        for i, s in enumerate(oplist(p[2], quick)):
            if i % 2 == int(p[3]):
                n = max(len(w) for _, w in s)
                sts = STATES if n == 2 else ["".join(x) for x in itertools.product("0+r", repeat=3)][::2] + ["ghz", "11-", "l-1"]
                if quick and p[2] != "three":
                    sts = STATES[i % 3::3] + ["bell"] if n == 2 else sts[::3]
                ctx.case(f"ex/{p[1]}/{key(s)}", expect, ctx, s, n, p[1], sts, timeout=120)
    elif p[0] == "tex":
        eig = {"X": "+-", "Y": "rl", "Z": "01", "I": "0+", "0": "01", "1": "01"}
        for w in words(2):
            if set(w) & set("AC"):
                continue
            for i, st in enumerate(itertools.product(eig[w[0]], eig[w[1]])):
                if quick and (words(2).index(w) + i) % 4:
                    continue
                ctx.case(f"tex/{p[1]}/{w}/{''.join(st)}", texpect, ctx, w, "".join(st), -1.5, p[1], timeout=60)
    elif p[0] == "ev" and p[1] == "rec":
        for i, s in enumerate(oplist(p[3], quick)):
            if i % 2 == int(p[4]):
                n = max(len(w) for _, w in s)
                cfgs = [(1, True, 0.3, 1, 1, "plain"), (1, True, -0.7, 1, 1, "ctl"), (2, True, 0.3, 1, 1, "plain"), (1, True, 0.3, 2, 1, "inv"), (1, False, 0.3, 1, 2, "plain"), (1, True, 0.0, 1, 1, "ctl"), (2, False, 0.4, 2, 2, "ctl")]
                if quick and p[3] in ("one", "cplx", "two", "wide"):
                    cfgs = cfgs[:3] + [cfgs[3 + i // 2 % 4]]
                for cf in cfgs:
                    ctx.case(f"ev/rec/{p[2]}/{key(s)}/{'/'.join(map(str, cf))}", evolve, ctx, "rec", s, n, cf[0], p[2], *cf[1:], timeout=120)
    elif p[0] == "ev":
        pool = (ops1()[::4] + ops2(True)[::12] + ops3()[::3] + ops_wide(True)[::6]) if quick else ops1() + ops2(True)[::4] + ops3() + ops_wide(True)
        for i, s in enumerate(pool):
            if i % 2 == int(p[3]):
                n = max(len(w) for _, w in s)
                for cf in ((1, True, 0.3, 2, 1, "plain"), (1, True, -0.7, 1, 1, "ctl"), (2, False, 0.3, 1, 2, "inv")):
                    ctx.case(f"ev/tr/{p[2]}/{key(s)}/{'/'.join(map(str, cf))}", evolve, ctx, "tr", s, n, cf[0], p[2], *cf[1:], timeout=120)
    elif p[0] == "qd":
        for s in ((((1, "XI"),)), ((-1.5, "ZZ"),), ((2, "0I"),), ((1, "YX"),), ((1, "XX"), (-0.5, "ZZ")), ((1, "ZI"), (0.5, "IZ"), (-1, "ZZ")), ((1, "XI"), (1, "IY"))):
            s = s if isinstance(s[0], tuple) else (s,)
            if p[1] == "tr" and len(s) > 2:  # circuits can not be extracted from traces with such a switch
                continue
            for fwd in (True, False):
                for t, samples, iters in ((0.3, 1, 1), (-0.4, 3, 1), (0.3, 2, 2)):
                    for wrap in ("plain", "ctl", "inv"):
                        if quick and (wrap != "plain" and samples != 3):
                            continue
                        ctx.case(f"qd/{p[1]}/{key(s)}/{fwd}/{t}/{samples}/{iters}/{wrap}", qdrift, ctx, p[1], s, 2, fwd, t, samples, iters, 42, wrap, timeout=120)


RULE = "expectation equals <psi|H|psi>; evolution equals the exponential / product formula, controlled and inverted likewise"
