"""Fermionic operators: algebra, spin mapping, expectation values and evolution against ladder matrices."""
import itertools
import types
import numpy as np
import scipy.linalg as sl
import qrisp as q
from qrisp.operators.fermionic import FermionicOperator, a, c
from mc import prog, uni
from mc.checks.O02 import Exact

NOTE = "all ladder words up to length 4 over 2 modes and length 3 over 3 modes with real and complex weights: spin mapping, reduction (also under hermitian assumption), adjoint, hermitian part; all sums, differences and products of two words up to length 2 over 3 modes through every operator form incl. in-place and scalar forms; expectation values in all basis and several superposed states through a backend answering exactly; complete evolution unitaries of all words and two-word sums, recorded, traced, controlled and inverted: exact where the terms commute, the rigorous commutator bound otherwise; Hamiltonians from integral tables"

Z, A, C, I = np.diag([1, -1]), np.array([[0, 1], [0, 0]]), np.array([[0, 0], [1, 0]]), np.eye(2)


def ladder(i, dag, n):
    m = np.eye(1)
    for j in range(n):
        m = np.kron(m, Z if j < i else (C if dag else A) if j == i else I)
    return m


def words(modes, length):
    al = [(i, d) for i in range(modes) for d in (False, True)]
    return [w for l in range(length + 1) for w in itertools.product(al, repeat=l)]


def mat(s, n):
    """s: ((weight, word), ...)"""
    out = np.zeros((1 << n, 1 << n), dtype=complex)
    for k, w in s:
        m = np.eye(1 << n)
        for i, d in w:
            m = m @ ladder(i, d, n)
        out = out + k * m
    return out


def ferm(s):
    o = None
    for k, w in s:
        t = None
        for i, d in w:
            f = c(i) if d else a(i)
            t = f if t is None else t * f
        if t is None:
            t = FermionicOperator({q.operators.fermionic.FermionicTerm(): 1})
        t = k * t if k != 1 else t
        o = t if o is None else o + t
    return o


def arr(o, n):
    """Matrix of a fermionic operator through the spin mapping."""
    m = o.to_qubit_operator()
    return np.asarray(m.to_array(factor_amount=n))


def show(w):
    return "".join(("c" if d else "a") + str(i) for i, d in w) or "1"


def same(got, want):
    return np.max(np.abs(got - want)) < 1e-6


def single(ctx, w, k, n):
    s = ((k, w),)
    m = mat(s, n)
    o = ferm(s)
    ctx.state((show(w), k))
    herm = (m + m.conj().T) / 2
    for nm, f, want in [("mapping", lambda: o, m), ("reduce", lambda: o.reduce(), m), ("dagger", lambda: o.dagger(), m.conj().T),
                        ("hermitize", lambda: o.hermitize(), herm), ("neg", lambda: -o, -m),
                        ("reduce/hermitian", lambda: o.reduce(assume_hermitian=True).hermitize(), herm),
                        ("hermitize/reduce", lambda: o.hermitize().reduce(assume_hermitian=True).hermitize(), herm),
                        ("square", lambda: (o * o).reduce(), m @ m)]:
        ctx.step()
        got = arr(f(), n)
        if not same(got, want):
            return f"{nm} of {k}*{show(w)} has another matrix"
    if not same(arr(o, n), m):
        return "the operator changed"
    top = max((i for i, _ in w), default=-1) + 1
    if o.find_minimal_qubit_amount() != top:
        return f"{show(w)} needs {top} qubits, reported {o.find_minimal_qubit_amount()}"
    stub = types.SimpleNamespace(terms={tuple((i, int(d)) for i, d in w): k})
    if not same(arr(FermionicOperator.from_openfermion(stub), n), m):
        return f"imported {show(w)} has another matrix"


def pair(ctx, w, v, n):
    s, t = ((1.5, w),), ((-2, v),)
    m, k = mat(s, n), mat(t, n)
    f = lambda: (ferm(s), ferm(t))
    ctx.state((show(w), show(v)))

    def ip(name):
        x, y = f()
        if name == "+":
            x += y
        elif name == "-":
            x -= y
        elif name == "*":
            x *= y
        elif name == "+3":
            x += 3
        elif name == "-3":
            x -= 3
        elif name == "*3":
            x *= 3
        return x
    x, y = f()
    one = np.eye(1 << n)
    forms = [("+", lambda: x + y, m + k), ("-", lambda: x - y, m - k), ("*", lambda: x * y, m @ k), ("*red", lambda: (x * y).reduce(), m @ k), ("+red", lambda: (x + y).reduce(), m + k),
             ("+=", lambda: ip("+"), m + k), ("-=", lambda: ip("-"), m - k), ("*=", lambda: ip("*"), m @ k),
             ("prod3", lambda: (x * y * x).reduce(), m @ k @ m), ("herm", lambda: (x + y).reduce(assume_hermitian=True).hermitize(), (m + k + m.conj().T + k.conj().T) / 2)]
    if w == v or not v:
        forms += [("+3", lambda: x + 3, m + 3 * one), ("3+", lambda: 3 + x, m + 3 * one), ("-3", lambda: x - 3, m - 3 * one), ("3-", lambda: 3 - x, 3 * one - m),
                  ("*3", lambda: x * 3, 3 * m), ("2j*", lambda: 2j * x, 2j * m), ("+=3", lambda: ip("+3"), m + 3 * one), ("-=3", lambda: ip("-3"), m - 3 * one), ("*=3", lambda: ip("*3"), 3 * m)]
    for nm, g, want in forms:
        ctx.step()
        r = g()
        if not isinstance(r, FermionicOperator):
            return f"{nm} of {show(w)} and {show(v)} gives {type(r).__name__}"
        if not same(arr(r, n), want):
            return f"{nm} of 1.5*{show(w)} and -2*{show(v)} has another matrix"
    if not same(arr(x, n), m) or not same(arr(y, n), k):
        return "an operand changed"


def energy(ctx, s, n):
    m = mat(s, n)
    h = m + m.conj().T
    o = ferm(s)
    e = float((o + o.dagger()).ground_state_energy())
    ctx.step()
    ctx.state(("e", str(s)))
    if abs(e - np.linalg.eigvalsh(h)[0]) > 1e-5:
        return f"ground state energy {e}, exact {np.linalg.eigvalsh(h)[0]}"
    sp = (o + o.dagger()).to_sparse_matrix().toarray()
    if len(sp) < len(h):
        sp = np.kron(sp, np.eye(len(h) // len(sp)))
    if not same(sp, h):
        return "sparse matrix differs"


PREP = {"+": lambda v, n: [q.h(v[i]) for i in range(n)], "ghz": lambda v, n: (q.h(v[0]), [q.cx(v[0], v[i]) for i in range(1, n)], q.p(0.7, v[0])),
        "mix": lambda v, n: [q.ry(0.5 + i, v[i]) for i in range(n)] + [q.cx(v[i], v[i + 1]) for i in range(n - 1)] + [q.p(0.4 + i, v[i]) for i in range(n)]}


def expect(ctx, s, n, st, method):
    def psi():
        v = q.QuantumVariable(n)
        if st in PREP:
            PREP[st](v, n)
        else:
            v[:] = st
        return v
    w = psi()
    vec = np.asarray(w.qs.compile().statevector_array(), dtype=complex)
    m = mat(s, n)
    want = np.vdot(vec, (m + m.conj().T) / 2 @ vec).real
    kw = {"diagonalisation_method": method}
    got = ferm(s).expectation_value(psi, backend=Exact(), **kw)()
    ctx.step()
    ctx.state(("x", str(s), st, method))
    if abs(complex(got) - want) > 2e-4:
        return f"expectation of {s} in {st}: {got}, exact {want}"


def evolve(ctx, mode, s, n, t, steps, it, fwd, wrap):
    o = ferm(s)
    hs = []
    for k, w in s:
        m = mat(((k, w),), n)
        hs.append((m + m.conj().T) / 2)
    H = sum(hs)
    sg = -1 if fwd else 1
    want = sl.expm(sg * 1j * H * t * it)
    U = o.trotterization(forward_evolution=fwd) if not fwd else o.trotterization()

    def body(v, e):
        if wrap == "ctl":
            with q.control(e[0]):
                U(v, t=t, steps=steps, iter=it)
        elif wrap == "inv":
            with q.invert():
                U(v, t=t, steps=steps, iter=it)
        else:
            U(v, t=t, steps=steps, iter=it)
    if wrap == "inv":
        want = want.conj().T
    bound = sum(np.linalg.norm(x @ y - y @ x, 2) for x, y in itertools.combinations(hs, 2)) * t * t / (2 * steps) * it
    ctx.step()
    ctx.state((mode, str(s), t, steps, it, fwd, wrap))
    for u, err in uni.branches(mode, n, body):
        if err:
            return err
        on, off = u[1::2, 1::2], u[0::2, 0::2]
        if wrap == "ctl":
            f = np.trace(off) / len(off)
            if abs(abs(f) - 1) > 1e-3 or np.max(np.abs(off - f * np.eye(len(off)))) > 1e-3:
                return "acts although the control is off"
            on = on / f
        else:
            # an identity part only contributes an unobservable phase
            on = on * np.exp(1j * np.angle(np.trace(on.conj().T @ want)))
        d = np.linalg.norm(on - want, 2)
        if d > bound + 2e-3:
            return f"evolution differs by {d:.4f} (allowed {bound:.4f})"


def integrals(ctx, ix):
    """Hamiltonian from one- and two-electron integrals over 4 spin orbitals."""
    from qrisp.algorithms.vqe.problems.electronic_structure import create_electronic_hamiltonian, spacial_to_spin
    h1 = [np.array([[1.0, 0.25], [0.25, -0.5]]), np.array([[-1.0, 0], [0, 0.5]])][ix % 2]
    g = np.zeros((2, 2, 2, 2))
    vals = [0.5, 0.3, 0.2, 0.1][:]
    for i, j, k, l in itertools.product(range(2), repeat=4):
        # physicists' order with the permutation symmetries of real orbitals
        cls = tuple(sorted([tuple(sorted((i, l))), tuple(sorted((j, k)))]))
        g[i, j, k, l] = (hash_of(cls) % 7) / 10 if ix < 4 else (0.0 if (i + j + k + l) % 2 else (hash_of(cls) % 5) / 10)
    if ix in (2, 3):
        g *= 0.5
    one, two = spacial_to_spin(h1, g)
    want = np.zeros((16, 16))
    for i, j in itertools.product(range(4), repeat=2):
        if i % 2 == j % 2:
            want = want + h1[i // 2, j // 2] * ladder(i, True, 4) @ ladder(j, False, 4)
    for i, j, k, l in itertools.product(range(4), repeat=4):
        if i % 2 == l % 2 and j % 2 == k % 2:
            want = want + 0.5 * g[i // 2, j // 2, k // 2, l // 2] * ladder(i, True, 4) @ ladder(j, True, 4) @ ladder(k, False, 4) @ ladder(l, False, 4)
    H = create_electronic_hamiltonian({"one_int": one, "two_int": two, "num_orb": 4, "num_elec": 2})
    ctx.step()
    ctx.state(("int", ix))
    if not same(arr(H, 4), want):
        return "Hamiltonian from integrals has another matrix"
    # freezing the lowest pair of orbitals
    H = create_electronic_hamiltonian({"one_int": one, "two_int": two, "num_orb": 4, "num_elec": 2 + 2 * (ix % 2)}, active_orb=2, active_elec=2 * (ix % 2))
    occ = [s for s in range(16) if s >> 2 == 3]
    sub = want[np.ix_(occ, occ)]
    if not same(arr(H, 2), sub):
        return "Hamiltonian of the active space differs from the restriction"


def hash_of(cls):
    x = 7
    for a_, b in cls:
        x = x * 31 + a_ * 5 + b * 3 + 1
    return x


def ansatz(ctx, M, N, k):
    from qrisp.algorithms.vqe.problems import electronic_structure as es
    f, num = es.create_QCCSD_ansatz(M, N)
    init = es.create_hartree_fock_init_function(M, N)
    ctx.step()
    ctx.state(("ansatz", M, N, k))
    sd = lambda r, p: [i for i in r if i % 2 == p]
    oc, vi = range(N), range(N, M)
    comb = lambda x: len(x) * (len(x) - 1) // 2
    want = len(sd(oc, 0)) * len(sd(vi, 0)) + len(sd(oc, 1)) * len(sd(vi, 1)) + len(sd(oc, 0)) * len(sd(oc, 1)) * len(sd(vi, 0)) * len(sd(vi, 1)) + sum(comb(sd(oc, p)) * comb(sd(vi, p)) for p in (0, 1))
    if num != want:
        return f"{num} parameters, expected {want}"
    v = q.QuantumVariable(M)
    init(v)
    th = [0.0] * num if k == "zero" else [0.3 + 0.2 * i for i in range(num)] if k == "all" else [0.9 if i == k else 0.0 for i in range(num)]
    f(v, th)
    got = {s: p for s, p in v.get_measurement().items() if p > 1e-5}
    for s in got:
        if s.count("1") != N or s[0::2].count("1") != len(sd(oc, 0)):
            return f"particle number not conserved: {s}"
    hf = "1" * N + "0" * (M - N)
    if k == "zero" and set(got) != {hf}:
        return f"zero amplitudes change the reference state: {got}"
    if isinstance(k, int):
        if len(got) != 2 or abs(got[hf] - np.cos(0.45) ** 2) > 1e-3:
            return f"excitation {k}: {got}"


def shards(tier):
    return ["single/2", "single/3", "pair/0", "pair/1", "pair/2", "pair/3", "energy", "expect", "evolve/one", "evolve/two", "evolve/two2", "evolve/tr", "integrals"]


def run(shard, ctx):
    s = shard.split("/")
    deep = ctx.tier == "deep"
    if s[0] == "single":
        for w in (words(2, 4) if s[1] == "2" else [w for w in words(3, 4 if deep else 3) if any(i == 2 for i, _ in w)]):
            for k in (1, -2, 1.5 + 0.5j):
                ctx.case(f"{show(w)}/{k}", single, ctx, w, k, 3)
    elif s[0] == "pair":
        ws = words(3, 2)
        for i, w in enumerate(ws):
            for j, v in enumerate(ws):
                if (i + j) % 4 == int(s[1]):
                    if not deep and len(w) + len(v) == 4 and (i * 7 + j) % 3:
                        continue
                    ctx.case(f"{show(w)}/{show(v)}", pair, ctx, w, v, 3)
    elif s[0] == "energy":
        for w in words(2, 3):
            ctx.case(f"{show(w)}", energy, ctx, ((1, w), (0.5, ((0, True), (0, False)))), 2)
    elif s[0] == "expect":
        sts = [format(k, "03b") for k in range(8)] + list(PREP)
        for w in words(3, 2):
            for st in sts:
                for m in ["commuting_qw", "commuting"]:
                    if not deep and (m == "commuting") != (len(w) == 1) or (not deep and st not in PREP and len(w) == 2 and w[0][0] != w[1][0] and st != "101"):
                        continue
                    ctx.case(f"{show(w)}/{st}/{m}", expect, ctx, ((1.5, w),), 3, st, m)
        for w, v in itertools.combinations([w for w in words(3, 2) if len(w) == 2], 2):
            if deep or (hash_of(w) + hash_of(v)) % 6 == 0:
                ctx.case(f"{show(w)}+{show(v)}", expect, ctx, ((1.5, w), (-1, v)), 3, "mix", "commuting_qw")
    elif s[0] == "evolve":
        ws = [w for w in words(3, 2) if w]
        quad = [((0, 1), (1, 1), (2, 0), (3, 0)), ((0, 1), (2, 1), (3, 0), (1, 0)), ((3, 1), (0, 1), (1, 0), (2, 0)), ((0, 1), (0, 0), (3, 1), (1, 0))]
        quad = [tuple((i, bool(d)) for i, d in w) for w in quad]
        if s[1] == "one":
            for w in ws + [w for w in words(3, 3) if len(w) == 3 and hash_of(w) % (1 if deep else 4) == 0]:
                for wrap in ["", "ctl", "inv"]:
                    for t in [0.8, -0.5]:
                        if wrap and t < 0:
                            continue
                        ctx.case(f"{show(w)}/{t}/{wrap}", evolve, ctx, "rec", ((1.5, w),), 3, t, 1, 1, True, wrap)
                ctx.case(f"{show(w)}/back", evolve, ctx, "rec", ((-1, w),), 3, 0.8, 1, 1, False, "")
                ctx.case(f"{show(w)}/steps", evolve, ctx, "rec", ((1, w),), 3, 0.8, 2, 2, True, "")
                ctx.case(f"{show(w)}/complex", evolve, ctx, "rec", ((0.5 + 0.75j, w),), 3, 0.8, 1, 1, True, "")
            for w in quad:
                for wrap in ["", "ctl"]:
                    ctx.case(f"{show(w)}/{wrap}", evolve, ctx, "rec", ((1.5, w),), 4, 0.7, 1, 1, True, wrap)
        elif s[1] in ("two", "two2"):
            l2 = [w for w in ws if len(w) == 2]
            for i, (w, v) in enumerate(itertools.combinations(l2, 2)):
                if i % 2 != (s[1] == "two2") or (not deep and i % 3):
                    continue
                for k, st in [(1, 1), (-0.5, 4)]:
                    ctx.case(f"{show(w)}/{show(v)}/{k}/{st}", evolve, ctx, "rec", ((1, w), (k, v)), 3, 0.4, st, 1, True, "")
        else:
            for w in ws + quad:
                if len(w) == 2 and not deep and hash_of(w) % 2:
                    continue
                n = 4 if len(w) == 4 else 3
                for wrap in ["", "ctl"]:
                    if wrap and not deep and len(w) != 2:
                        continue
                    ctx.case(f"tr/{show(w)}/{wrap}", evolve, ctx, "tr", ((1.5, w),), n, 0.8, 2, 1, True, wrap)
    elif s[0] == "integrals":
        try:
            import pyscf  # noqa
            for ix in range(6):
                ctx.case(f"{ix}", integrals, ctx, ix)
        except ImportError:
            pass
        for M, N in [(2, 0), (4, 1), (4, 2), (4, 3), (6, 2), (6, 3), (8, 4)]:
            from qrisp.algorithms.vqe.problems.electronic_structure import create_QCCSD_ansatz
            _, num = create_QCCSD_ansatz(M, N)
            for k in ["zero", "all"] + list(range(num)):
                ctx.case(f"ansatz/{M}/{N}/{k}", ansatz, ctx, M, N, k)
