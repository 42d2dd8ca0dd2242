"""Spin-operator expressions against the same expressions on matrices."""
import itertools
import numpy as np
import qrisp as q
from qrisp.operators import X, Y, Z, A, C, P0, P1, QubitOperator
from mc import ref

NOTE = "every pair of the 64 two-site factor words for product, sum, difference and commutator; every pair of two-term one-site operators over the factor alphabet with complex coefficients for every operator and its in-place variant (also with itself); powers, adjoint, hermitian part, Pauli form, thresholds, groupings, linear combination of unitaries, ground-state energy for every one- and two-term operator on up to 3 sites (incl. unused lower sites); every 2x2 matrix over a value alphabet and every 4x4/3x3/2x3 matrix with at most two entries for the matrix conversions; operands compared before and after"
F = {"I": None, "X": X, "Y": Y, "Z": Z, "A": A, "C": C, "0": P0, "1": P1}
M = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1]), "A": np.array([[0, 1], [0, 0]]), "C": np.array([[0, 0], [1, 0]]), "0": np.diag([1, 0]), "1": np.diag([0, 1])}
M = {k: np.asarray(v, dtype=complex) for k, v in M.items()}
TOL = 1e-7


def word(w):
    """The operator of one factor word (site i carries w[i])."""
    res = QubitOperator({next(iter((X(0) * X(0)).terms_dict)): 1})
    for i, f in enumerate(w):
        if f != "I":
            res = res * F[f](i)
    return res


def mat(w, n):
    m = np.eye(1, dtype=complex)
    for i in range(n):
        m = np.kron(m, M[w[i]] if i < len(w) else M["I"])
    return m


def op(spec):
    """spec: ((coeff, word), ...)."""
    res = None
    for c, w in spec:
        t = c * word(w)
        res = t if res is None else res + t
    return res


def opm(spec, n):
    return sum(c * mat(w, n) for c, w in spec)


def arr(o, n):
    if isinstance(o, (int, float, complex, np.number)):
        return complex(o) * np.eye(1 << n)
    return np.asarray(o.to_array(factor_amount=n), dtype=complex)


def near(a, b):
    return a.shape == b.shape and np.allclose(a, b, atol=TOL)


def bad(got, want, what):
    if not near(got, want):
        return f"{what}: got {np.round(got, 4).tolist()} expected {np.round(want, 4).tolist()}"


def pair(ctx, s1, s2, n):
    """Binary operations of two operators."""
    m1, m2 = opm(s1, n), opm(s2, n)
    for name, f, w in (("+", lambda a, b: a + b, m1 + m2), ("-", lambda a, b: a - b, m1 - m2), ("*", lambda a, b: a * b, m1 @ m2), ("comm", lambda a, b: a.commutator(b), m1 @ m2 - m2 @ m1)):
        a, b = op(s1), op(s2)
        ctx.step()
        r = f(a, b)
        e = bad(arr(r, n), w, f"{s1} {name} {s2}") or bad(arr(a, n), m1, f"left operand after {name}") or bad(arr(b, n), m2, f"right operand after {name}")
        if e:
            return e
    ctx.state((s1, s2))


def iadd(a, b):
    a += b
    return a


def isub(a, b):
    a -= b
    return a


def imul(a, b):
    a *= b
    return a


INPL = (("+=", iadd, lambda x, y: x + y), ("-=", isub, lambda x, y: x - y), ("*=", imul, lambda x, y: x @ y))


def inplace(ctx, s1, s2, n):
    m1, m2 = opm(s1, n), opm(s2, n)
    for name, f, w in INPL:
        a, b = op(s1), op(s2)
        keep = a
        ctx.step()
        r = f(a, b)
        e = bad(arr(r, n), w(m1, m2), f"{s1} {name} {s2}") or bad(arr(b, n), m2, f"right operand after {name}")
        if e:
            return e
        if r is not keep:
            return f"{name} returned another object"
    ctx.state(("i", s1, s2))


def itself(ctx, s, n):
    m = opm(s, n)
    for name, f, w in INPL:
        a = op(s)
        ctx.step()
        e = bad(arr(f(a, a), n), w(m, m), f"a {name} a for a = {s}")
        if e:
            return e
    ctx.state(("self", s))


SCAL = (0, 1, -1, 0.5, 2, 1j, -2.5 + 1j)


def scalars(ctx, s, n):
    m, one = opm(s, n), np.eye(1 << n)
    for c in SCAL:
        for name, f, w in (("a*c", lambda a: a * c, m * c), ("c*a", lambda a: c * a, m * c), ("a+c", lambda a: a + c, m + c * one), ("c+a", lambda a: c + a, m + c * one), ("a-c", lambda a: a - c, m - c * one), ("c-a", lambda a: c - a, c * one - m), ("a+=c", lambda a: iadd(a, c), m + c * one), ("a-=c", lambda a: isub(a, c), m - c * one), ("a*=c", lambda a: imul(a, c), m * c)):
            a = op(s)
            ctx.step()
            e = bad(arr(f(a), n), w, f"{name} for a = {s}, c = {c}")
            if e is None and "=" not in name:
                e = bad(arr(a, n), m, f"operand after {name}")
            if e:
                return e
    ctx.state(("sc", s))


def unary(ctx, s, n):
    m, one = opm(s, n), np.eye(1 << n)
    herm = (m + m.conj().T) / 2
    a = op(s)
    checks = [("adjoint", lambda: arr(a.adjoint(), n), m.conj().T), ("hermitize", lambda: arr(a.hermitize(), n), herm), ("to_pauli", lambda: arr(a.to_pauli(), n), m), ("to_sparse_matrix", lambda: np.asarray(a.to_sparse_matrix(n).todense()), m),
              ("from_matrix(to_array)", lambda: arr(QubitOperator.from_matrix(arr(a, n)), n), m), ("pauli terms only", lambda: arr(QubitOperator(a.to_pauli().terms_dict), n), m)]
    for e in range(4):
        checks.append((f"power {e}", lambda e=e: arr(a ** e, n), np.linalg.matrix_power(m, e)))
    for name, f, w in checks:
        ctx.step()
        e = bad(f(), w, f"{name} of {s}") or bad(arr(a, n), m, f"operand after {name}")
        if e:
            return e
    pf = a.to_pauli()
    if any(set(t.factor_dict.values()) - {"X", "Y", "Z"} for t in pf.terms_dict):
        return f"Pauli form of {s} holds other factors: {pf}"
    used = max([i + 1 for _, w in s for i, f in enumerate(w) if f != "I"], default=0)
    live = a.find_minimal_qubit_amount()
    if live > used:
        return f"{s} reports {live} sites, uses {used}"
    if live:
        small = np.asarray(a.to_array())
        if not near(np.kron(small, np.eye(1 << (n - live))), m):
            return f"to_array() of {s} without a size gives {small.tolist()}"
    ctx.step()
    # unitary combination reproduces the hermitian part
    us, cs = a.unitaries()
    tot = np.zeros_like(m)
    for u, c in zip(us, cs):
        v = q.QuantumVariable(n)
        u(v)
        tot = tot + c * np.asarray(v.qs.get_unitary(), dtype=complex)
    if np.any(np.asarray(cs) < 0):
        return f"negative weight in the unitary combination of {s}: {cs}"
    if not np.allclose(tot, herm, atol=1e-4):
        return f"unitary combination of {s} gives {np.round(tot, 4).tolist()}"
    ctx.state(("u", s))


def groups(ctx, s, n):
    """Groupings partition the terms; members of a commuting group commute."""
    m = opm(s, n)
    a = op(s)
    for name, gs, commuting in (("commuting_groups", a.commuting_groups(), True), ("commuting_qw_groups", a.commuting_qw_groups(), True), ("commuting_qw_groups/sorted", a.commuting_qw_groups(use_graph_coloring=False), True), ("commuting_qw_groups/bases", a.commuting_qw_groups(show_bases=True)[0], True)):
        ctx.step()
        tot = sum((arr(g, n) for g in gs), np.zeros_like(m))
        e = bad(tot, m, f"sum of the {name} of {s}")
        if e:
            return e
        if sum(len(g.terms_dict) for g in gs) != len(a.terms_dict):
            return f"{name} of {s} repeat or lose terms"
        for g in gs:
            ts = [arr(QubitOperator({t: 1}), n) for t in g.terms_dict]
            for x, y in itertools.combinations(ts, 2):
                if not np.allclose(x @ y, y @ x, atol=TOL):
                    return f"a group of {name} of {s} holds non-commuting terms {list(g.terms_dict)}"
    e = bad(arr(a, n), m, "operand after grouping")
    if e:
        return e
    ctx.state(("g", s))


def energy(ctx, s, n):
    m = opm(s, n)
    a = op(s)
    ctx.step()
    got = complex(a.ground_state_energy())
    want = np.linalg.eigvalsh((m + m.conj().T) / 2)[0]
    ctx.state(("e", s))
    if abs(got - want) > 1e-6:
        return f"ground-state energy of {s}: {got}, matrix has {want}"


def threshold(ctx, s, n):
    a = op(s)
    m = opm(s, n)
    for th in (0, 0.5, 1, 1.5):
        ctx.step()
        r = a.apply_threshold(th)
        kept = {t: c for t, c in a.terms_dict.items() if abs(c) > th}
        e = bad(arr(r, n), arr(QubitOperator(kept), n), f"threshold {th} on {s}") or bad(arr(a, n), m, "operand after threshold")
        if e:
            return e
    ctx.state(("t", s))


def frommat(ctx, rows, kind):
    import scipy.sparse as sp
    m = np.array(rows)
    dim = max(m.shape)
    n = max(int(np.ceil(np.log2(dim))), 0)
    pad = np.zeros((1 << n, 1 << n), dtype=complex)
    pad[:m.shape[0], :m.shape[1]] = m
    ctx.state((kind, repr(rows)))
    ctx.step()
    if kind == "np":
        return bad(arr(QubitOperator.from_matrix(m), n), pad, f"from_matrix({rows})")
    if kind == "csr":
        return bad(arr(QubitOperator.from_matrix(sp.csr_matrix(m)), n), pad, f"from_matrix(csr {rows})")
    if kind == "rev":
        p = [int(format(i, f"0{n}b")[::-1], 2) if n else 0 for i in range(1 << n)]
        return bad(arr(QubitOperator.from_matrix(m, reverse_endianness=True), n)[np.ix_(p, p)], pad, f"from_matrix({rows}) with reversed bits")
    return bad(arr(QubitOperator.from_numpy_array(m), n), pad, f"from_numpy_array({rows})")


def words(n):
    return ["".join(w) for w in itertools.product(F, repeat=n)]


ONE = list(F)
COEF = ((1, 1), (2 - 1j, -0.5), (1, -1))


def small_ops(quick):
    """Two-term one-site operators."""
    out = []
    for f, g in itertools.combinations(ONE, 2):
        for c in COEF if not quick else COEF[:2]:
            out.append(((c[0], f), (c[1], g)))
    return out


def unary_ops(quick):
    out = [((c, w),) for w in words(2) for c in (1, -1.5 + 2j)] + [((1, w),) for w in words(3) if w[0] == "I" or w[1] == "I"]
    ws = words(2)
    for i, w in enumerate(ws):
        for v in ws[i + 1:]:
            if not quick or (ws.index(v) + 3 * i) % 8 == 0:
                out.append(((1.5, w), (-0.5j if (i & 1) else -1, v)))
    three = [("XX", "YY", "ZZ"), ("XY", "YX", "ZI"), ("AC", "CA", "ZZ"), ("A0", "C0", "X1"), ("AI", "IA", "AA"), ("XZ", "ZX", "YY"), ("IX", "YI", "ZZ")]
    for t in three:
        for c in ((1, 1, 1), (1, -2, 0.5), (1j, -1j, 1)):
            out.append(tuple(zip(c, t)))
    return out


def shards(tier):
    return [f"pair/{f}" for f in ONE] + ["small/0", "small/1", "small/2", "small/3", "inpl/0", "inpl/1", "self", "scalar"] + [f"unary/{i}" for i in range(4)] + ["groups", "energy", "thresh", "mat2/np", "mat2/csr", "mat2/rev", "mat2/arr", "mat4"]


def key(*s):
    return "/".join("+".join(f"{c}{w}" for c, w in x) for x in s)


def run(shard, ctx):
    quick = ctx.tier == "quick"
    p = shard.split("/")
    if p[0] == "pair":
        for w in words(2):
            if w[0] == p[1]:
                for v in words(2):
                    s1, s2 = ((1, w),), ((2 - 1j, v),)
                    ctx.case("pair/" + key(s1, s2), pair, ctx, s1, s2, 2)
    elif p[0] in ("small", "inpl"):
        ops = small_ops(quick)
        k = 4 if p[0] == "small" else 2
        for i, a in enumerate(ops):
            if i % k == int(p[1]):
                for b in ops:
                    ctx.case(f"{p[0]}/" + key(a, b), pair if p[0] == "small" else inplace, ctx, a, b, 1)
    elif p[0] == "self":
        for a in small_ops(False) + [((1, w),) for w in words(2)]:
            ctx.case("self/" + key(a), itself, ctx, a, 2)
    elif p[0] == "scalar":
        for a in small_ops(True) + [((1, w),) for w in words(1)] + [((1, "XI"), (1, "II")), ((1, "AZ"), (0.5, "01"))]:
            ctx.case("scalar/" + key(a), scalars, ctx, a, 2)
    elif p[0] == "unary":
        for i, a in enumerate(unary_ops(quick)):
            if i % 4 == int(p[1]):
                ctx.case("unary/" + key(a), unary, ctx, a, 3)
    elif p[0] in ("groups", "energy", "thresh"):
        f = {"groups": groups, "energy": energy, "thresh": threshold}[p[0]]
        for a in unary_ops(quick):
            if p[0] == "thresh" and len(a) == 1:
                continue
            n = max(len(w) for _, w in a)
            ctx.case(f"{p[0]}/" + key(a), f, ctx, a, n)
        if p[0] == "energy":
            for a in small_ops(True):
                ctx.case("energy/" + key(a), energy, ctx, a, 1)
    elif p[0] == "mat2":
        vals = (0, 1, -2, 1j) if quick else (0, 1, -2, 0.5, 1j, 1 - 1j)
        for v in itertools.product(vals, repeat=4):
            rows = [list(v[:2]), list(v[2:])]
            ctx.case(f"mat2/{p[1]}/{v}", frommat, ctx, rows, p[1])
    elif p[0] == "mat4":
        for kind in ("np", "csr", "rev", "arr"):
            for i, j in itertools.combinations_with_replacement(range(16), 2):
                m = np.zeros((4, 4), dtype=complex)
                m[i // 4, i % 4] = 2
                m[j // 4, j % 4] += -1j
                ctx.case(f"mat4/{kind}/{i}/{j}", frommat, ctx, m.tolist(), kind)
        for shape in ((3, 3), (2, 3), (3, 2), (1, 2), (2, 1), (3, 4), (5, 5)):
            for i in range(shape[0] * shape[1]):
                m = np.zeros(shape, dtype=complex)
                m[i // shape[1], i % shape[1]] = 1 - 2j
                for kind in ("np", "csr", "rev"):
                    ctx.case(f"shape/{kind}/{shape}/{i}", frommat, ctx, m.tolist(), kind)


RULE = "matrix of every result equals the matrix expression; operands unchanged"
