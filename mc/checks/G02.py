"""Cost operators, mixers, classical cost functions and reductions of the optimization templates against brute force."""
import copy
import itertools
import networkx as nx
import numpy as np
import qrisp as q
from mc import prog, uni

NOTE = "complete unitaries of every cost operator and mixer (recorded, maximum cut and plain mixers also traced and controlled) for all graphs up to 4 vertices, all clause sets and set families over small universes and all small quadratic matrices; classical cost functions on all bitstrings and all pairs of bitstrings; compiled layered circuits against the reference state; every graph and clause reduction for every correlation; Hamiltonian converters against their matrices"
ASSUMPTIONS = ["The portfolio template is documented only by reference to a paper and is not covered; the pulse optimisation of the counterdiabatic templates is statistical and not covered, their problem Hamiltonians are."]

ANG = [0.7, -1.3]


def graphs(n):
    pairs = list(itertools.combinations(range(n), 2))
    for r in range(len(pairs) + 1):
        for e in itertools.combinations(pairs, r):
            g = nx.Graph()
            g.add_nodes_from(range(n))
            g.add_edges_from(e)
            yield g


def name(g):
    return f"{len(g)}-" + "".join(f"{a}{b}" for a, b in g.edges()) if not isinstance(g, str) else g


def bits(k, n):
    """Bit i belongs to qubit i; qubit 0 is the most significant position of matrices."""
    return [k >> (n - 1 - i) & 1 for i in range(n)]


def diag(n, f):
    return np.array([f(bits(k, n)) for k in range(1 << n)], dtype=float)


def operator(ctx, mode, n, apply, value, scale, ang, wrap=""):
    """apply(v, angle) must act as exp(i * scale * angle * value(bits)) up to an overall phase."""
    def body(v, e):
        if wrap == "ctl":
            with q.control(e[0]):
                apply(v, ang)
        else:
            apply(v, ang)
    ctx.step()
    want = np.exp(1j * scale * ang * diag(n, value))
    for u, err in uni.branches(mode, n, body):
        if err:
            return err
        on, off = u[1::2, 1::2], u[0::2, 0::2]
        if wrap == "ctl" and not prog.phase_equal(off, np.eye(1 << n), 1e-3):
            return "acts although the control is off"
        if not prog.phase_equal(on, np.diag(want), 2e-3):
            if np.max(np.abs(on - np.diag(np.diag(on)))) > 2e-3:
                return "the cost operator is not diagonal"
            return f"phases {np.round(np.angle(np.diag(on) / on[0, 0]), 3)}, expected {np.round(np.angle(want / want[0]), 3)}"


def unitary(ctx, mode, n, apply, want, wrap=""):
    ctx.step()

    def body(v, e):
        if wrap == "ctl":
            with q.control(e[0]):
                apply(v)
        else:
            apply(v)
    for u, err in uni.branches(mode, n, body):
        if err:
            return err
        if wrap == "ctl" and not prog.phase_equal(u[0::2, 0::2], np.eye(1 << n), 1e-3):
            return "acts although the control is off"
        if not prog.phase_equal(u[1::2, 1::2], want, 2e-3):
            return "the mixer differs from its definition"


def cost(ctx, n, fn, value, labels=None):
    """fn must be the probability-weighted mean of value over every outcome and every pair of outcomes."""
    keys = ["".join(map(str, bits(k, n))) for k in range(1 << n)]
    val = {s: value([int(c) for c in s]) for s in keys}
    if labels:
        val = {labels(s): x for s, x in val.items()}
    for a in val:
        ctx.step()
        got = float(fn({a: 1.0}))
        if abs(got - val[a]) > 1e-6:
            return f"{a} scores {got}, expected {val[a]}"
        for b in val:
            if a != b:
                got, want = float(fn({a: 0.25, b: 0.75})), 0.25 * val[a] + 0.75 * val[b]
                if abs(got - want) > 1e-6:
                    return f"mixture of {a} and {b} scores {got}, expected {want}"


def one_rx(n, i, th, pred):
    """RX(th) on qubit i where pred(bits) of the other qubits holds."""
    m = np.eye(1 << n, dtype=complex)
    for k in range(1 << n):
        b = bits(k, n)
        if pred(b):
            f = k ^ (1 << (n - 1 - i))
            m[k, k] = np.cos(th / 2)
            m[f, k] = -1j * np.sin(th / 2)
    return m


def seq(ms, n):
    u = np.eye(1 << n, dtype=complex)
    for m in ms:
        u = m @ u
    return u


# ---- templates ----
def cut(g):
    return lambda b: -sum(b[i] != b[j] for i, j in g.edges())


def indep(g):
    return lambda b: -sum(b) if not any(b[i] and b[j] for i, j in g.edges()) else 0


def maxcut(ctx, n, ix, what):
    from qrisp.algorithms.qaoa.problems import maxCut as m
    g = list(graphs(n))[ix]
    ctx.state((n, ix, what))
    if what == "cost":
        if g.number_of_edges() == 0:
            return
        p = m.maxcut_problem(g)
        r = cost(ctx, n, p.cl_cost_function, cut(g))
        if r:
            return r
        for k in range(1 << n):
            b = bits(k, n)
            if m.maxcut_obj("".join(map(str, b)), g) != cut(g)(b):
                return f"objective of {b} is {m.maxcut_obj(''.join(map(str, b)), g)}"
        arr = np.arange(1 << n)
        post = m.create_maxcut_sample_array_post_processor(g)
        want = [cut(g)(bits(k, n)[::-1]) for k in range(1 << n)]
        for k in range(1 << n):
            for l in range(k, 1 << n):
                got = float(post(np.array([k, l, l])))
                if abs(got - (want[k] + 2 * want[l]) / 3) > 1e-5:
                    return f"samples {k},{l},{l} score {got}"
        return
    mode, wrap = what.split("+")
    p = m.maxcut_problem(g)
    for a in ANG:
        r = operator(ctx, mode, n, p.cost_operator, cut(g), -2, a, wrap)
        if r:
            return r


def indep_set(ctx, kind, n, ix, what):
    from qrisp.algorithms.qaoa.problems import maxIndepSet as mi, maxClique as mc, maxSetPacking as mp
    g = list(graphs(n))[ix]
    ctx.state((kind, n, ix, what))
    if kind == "clique":
        p, h = mc.max_clique_problem(g), nx.complement(g)
    elif kind == "packing":
        # sets holding the edges at each vertex intersect exactly along the edges
        sets = [set([("v", i)] + [e for e in g.edges() if i in e]) for i in range(n)]
        p, h = mp.max_set_packing_problem(sets), g
    else:
        p, h = mi.max_indep_set_problem(g), g
    if what == "cost":
        r = cost(ctx, n, p.cl_cost_function, indep(h))
        if not r and kind == "clique":
            r = cost(ctx, n, mc.create_max_clique_cl_cost_function(g), indep(h))
        return r
    if what == "op":
        return operator(ctx, "rec", n, p.cost_operator, lambda b: -sum(b), 1, ANG[0])
    a = ANG[1]
    want = seq([one_rx(n, i, a, lambda b, i=i: not any(b[j] for j in h.adj[i])) for i in range(n)], n)
    return unitary(ctx, "rec", n, lambda v: p.mixer(v, a), want, what.split("+")[1])


def families(u):
    """All families of up to 3 distinct nonempty sets covering a universe of u elements."""
    subs = [frozenset(c) for r in range(1, u + 1) for c in itertools.combinations(range(u), r)]
    for r in range(1, 4):
        for f in itertools.combinations(subs, r):
            if frozenset().union(*f) == frozenset(range(u)):
                yield [set(x) for x in f]


def set_cover(ctx, u, ix, what):
    from qrisp.algorithms.qaoa.problems import minSetCover as m
    f = list(families(u))[ix]
    n = len(f)
    uni_ = set(range(u))
    p = m.min_set_cover_problem(f, uni_)
    ctx.state((u, ix, what))
    covered = lambda b: set().union(*[s for s, x in zip(f, b) if x]) == uni_ if any(b) else False
    if what == "cost":
        return cost(ctx, n, p.cl_cost_function, lambda b: sum(b) if covered(b) else n)
    a = ANG[0]
    free = lambda b, i: f[i] <= set().union(*[s for j, (s, x) in enumerate(zip(f, b)) if x and j != i])
    want = seq([one_rx(n, i, a, lambda b, i=i: free(b, i)) for i in range(n)], n)
    r = unitary(ctx, "rec", n, lambda v: p.mixer(v, a), want)
    if r:
        return r
    v = q.QuantumVariable(n)
    p.init_function(v)
    if v.get_measurement() != {"1" * n: 1.0}:
        return "initial state is not the full family"


def clause_sets(n):
    lits = [l for i in range(1, n + 1) for l in (i, -i)]
    cl = [c for r in range(1, 4) for c in itertools.combinations(lits, r) if len({abs(x) for x in c}) == len(c)]
    out = [[list(c)] for c in cl] + [[list(a), list(b)] for a, b in itertools.combinations(cl, 2)]
    return out


def sat_value(clauses):
    return lambda b: -sum(any((b[abs(l) - 1] == 1) == (l > 0) for l in c) for c in clauses)


def maxsat(ctx, n, ix, what):
    from qrisp.algorithms.qaoa.problems import maxSat as m
    cl = clause_sets(n)[ix]
    p = m.maxsat_problem([n, cl])
    ctx.state((n, ix, what))
    if what == "cost":
        return cost(ctx, n, p.cl_cost_function, sat_value(cl))
    if what == "poly":
        ps, sy = m.create_maxsat_cost_polynomials([n, cl])
        for k in range(1 << n):
            b = bits(k, n)
            got = [int(pp.subs(dict(zip(sy, b)))) for pp in ps]
            want = [-sat_value([c])(b) for c in cl]
            if got != want:
                return f"{b}: {got}, expected {want}"
        return
    return operator(ctx, "rec", n, p.cost_operator, sat_value(cl), 1, ANG[0])


def lin(ctx, n, ix, what):
    from qrisp.algorithms.qaoa.problems import eThrLinTwo as m
    one = [list(c) + [r] for c in itertools.combinations(range(n), 3) for r in (0, 1)]
    if n == 3:
        one += [list(c) + [1] for c in itertools.permutations(range(3), 3)]
    al = [[c] for c in one] + [[a, b] for a, b in itertools.combinations(one, 2)]
    if ix >= len(al):
        return
    cl = al[ix]
    p = m.e3lin2_problem(cl)
    val = lambda b: -sum((b[c[0]] + b[c[1]] + b[c[2]]) % 2 == c[3] for c in cl)
    ctx.state((n, ix, what))
    if what == "cost":
        return cost(ctx, n, p.cl_cost_function, val)
    return operator(ctx, "rec", n, p.cost_operator, val, 1, ANG[1])


def matrices(n, vals):
    for c in itertools.product(vals, repeat=n * n):
        yield np.array(c, dtype=float).reshape(n, n)


def qubo(ctx, key, what):
    from qrisp.algorithms.qaoa.problems import QUBO as m
    Q = np.array(key, dtype=float)
    n = len(Q)
    val = lambda b: float(np.array(b) @ Q @ np.array(b))
    ctx.state((str(key), what))
    if what == "cost":
        r = cost(ctx, n, m.create_QUBO_cl_cost_function(Q), val)
        if r:
            return r
        for k in range(1 << n):
            s = "".join(map(str, bits(k, n)))
            if abs(m.QUBO_obj(s, Q) - val(bits(k, n))) > 1e-9:
                return f"objective of {s} wrong"
        return
    if not np.any(Q):
        return
    if what == "array":
        def apply(v, a):
            arr = q.QuantumArray(q.QuantumVariable(1), shape=(n,))
            for i in range(n):
                q.swap(v[i], arr[i][0])
            m.create_QUBO_cost_operator(Q)(arr, a)
            for i in range(n):
                q.swap(v[i], arr[i][0])
            arr.delete()
    else:
        apply = m.create_QUBO_cost_operator(Q)
    return operator(ctx, "rec", n, apply, val, -1 / np.sqrt(np.linalg.norm(Q)), ANG[0], what if what == "ctl" else "")


def cold(ctx, key):
    """Problem Hamiltonian of the counterdiabatic templates."""
    from qrisp.algorithms.cold.problems.QUBO import create_COLD_instance, create_LCD_instance
    Q = np.array(key, dtype=float)
    n = len(Q)
    ctx.state(("cold", str(key)))
    want = diag(n, lambda b: float(np.array(b) @ Q @ np.array(b)))
    for inst in (create_COLD_instance(Q, True), create_COLD_instance(Q, False), create_LCD_instance(Q, "order1", True), create_LCD_instance(Q, "order1", False)):
        ctx.step()
        M = inst[2].to_sparse_matrix(n).toarray() if not isinstance(inst[2], (int, float)) else inst[2] * np.eye(1 << n)
        if np.max(np.abs(M - np.diag(np.diag(M)))) > 1e-6:
            return "problem Hamiltonian not diagonal"
        d = np.real(np.diag(M)) - want
        if np.max(np.abs(d - d[0])) > 1e-6:
            return f"energies {np.real(np.diag(M))}, objective {want}"


def coloring(ctx, n, ix, k, hot, what):
    from qrisp.algorithms.qaoa.problems import maxKColorableSubgraph as m
    g = list(graphs(n))[ix]
    cols = list("rgby")[:k]
    p = m.graph_coloring_problem(g)
    ctx.state((n, ix, k, hot, what))
    w = k if hot else int(np.ceil(np.log2(k)))
    if what == "cost":
        for a in itertools.product(cols, repeat=n):
            ctx.step()
            want = -4 ** sum(a[i] != a[j] for i, j in g.edges())
            got = p.cl_cost_function({a: 1.0})
            if abs(got - want) > 1e-9 or abs(m.mkcs_obj(a, g) - want) > 1e-9:
                return f"{a} scores {got}, expected {want}"
            got = p.cl_cost_function({a: 0.5, (cols[0],) * n: 0.5}) if a != (cols[0],) * n else (want - 1) / 2
            if abs(got - (want - 1) / 2) > 1e-9:
                return f"mixture of {a} scores {got}"
        return

    def split(v):
        arr = q.QuantumArray(m.QuantumColor(cols, one_hot_enc=hot), shape=(n,))
        for i in range(n):
            for j in range(w):
                q.swap(v[i * w + j], arr[i][j])
        return arr

    def apply(v, a):
        arr = split(v)
        (p.cost_operator if what == "op" else p.mixer)(arr, a)
        for i in range(n):
            for j in range(w):
                q.swap(v[i * w + j], arr[i][j])
        arr.delete()

    def val(b):
        c = [b[i * w:(i + 1) * w] for i in range(n)]
        if hot:
            return sum(sum(x & y for x, y in zip(c[i], c[j])) for i, j in g.edges())
        return sum(c[i] == c[j] for i, j in g.edges())
    if what == "op":
        return operator(ctx, "rec", n * w, apply, val, 2, ANG[0])
    one = xy(w, ANG[1])
    want = np.eye(1)
    for _ in range(n):
        want = np.kron(want, one)
    return unitary(ctx, "rec", n * w, lambda v: apply(v, ANG[1]), want)


def color_type(ctx, k, hot):
    from qrisp.algorithms.qaoa.problems.maxKColorableSubgraph import QuantumColor
    cols = list("rgby")[:k]
    v = QuantumColor(cols, one_hot_enc=hot)
    ctx.state((k, hot))
    for i in range(1 << v.size):
        ctx.step()
        want = cols[i] if not hot and i < k else cols[int(np.log2(i))] if hot and i and not i & (i - 1) else "undefined"
        if not hot and i >= k:
            continue
        if v.decoder(i) != want:
            return f"{i} decodes to {v.decoder(i)}, expected {want}"
    for c in cols:
        v = QuantumColor(cols, one_hot_enc=hot)
        v[:] = c
        if v.get_measurement() != {c: 1.0}:
            return f"{c} reads back as {v.get_measurement()}"


def hop(n, i, j, th):
    """exp(-i th/4 (XX+YY)) on qubits i and j."""
    m = np.eye(1 << n, dtype=complex)
    for k in range(1 << n):
        b = bits(k, n)
        if b[i] != b[j]:
            f = k ^ (1 << (n - 1 - i)) ^ (1 << (n - 1 - j))
            m[k, k] = np.cos(th / 2)
            m[f, k] = -1j * np.sin(th / 2)
    return m


def xy(n, b):
    if n == 1:
        return np.eye(2)
    ms = [hop(n, 2 * i, 2 * i + 1, 4 * b) for i in range(n // 2)]
    ms += [hop(n, 2 * i + 1, 2 * i + 2, 4 * b) for i in range((n - 1) // 2)]
    return seq(ms + [hop(n, n - 1, 0, 4 * b)], n)


def mixer(ctx, mode, kind, n, a, wrap):
    from qrisp.algorithms.qaoa import mixers as m
    from qrisp.circuit.standard_operations import RXGate, RYGate, RZGate
    k1 = lambda u: __import__("functools").reduce(np.kron, [u] * n)
    c, s = np.cos(a), np.sin(a)
    want = {"rx": lambda: k1(np.array([[c, -1j * s], [-1j * s, c]])), "ry": lambda: k1(np.array([[c, -s], [s, c]])),
            "rz": lambda: k1(np.diag([np.exp(0.5j * a), np.exp(-0.5j * a)])), "xy": lambda: xy(n, a),
            "grover": lambda: np.eye(1 << n) - (1 - np.exp(1j * a)) * np.ones((1 << n, 1 << n)) / (1 << n)}[kind]()
    f = {"rx": m.RX_mixer, "ry": m.RY_mixer, "rz": m.RZ_mixer, "xy": m.XY_mixer, "grover": m.grover_mixer}[kind]
    ctx.state((mode, kind, n, a, wrap))
    return unitary(ctx, mode, n, lambda v: f(v, a), want, wrap)


def constrained(ctx, n, win, a):
    from qrisp.algorithms.qaoa.mixers import constrained_mixer_gen

    def oracle(v, phase=np.pi):
        for w in win:
            q.grover.tag_state({v: "".join(map(str, bits(w, n)))}, phase=phase)
    mix = constrained_mixer_gen(oracle, lambda v: len(win))
    psi = np.array([float(k in win) for k in range(1 << n)]) / np.sqrt(len(win))
    want = np.eye(1 << n) - (1 - np.exp(1j * a)) * np.outer(psi, psi)
    ctx.state((n, win, a))
    return unitary(ctx, "rec", n, lambda v: mix(v, a), want)


def layered(ctx, n, ix, depth, init, src):
    """Circuit with symbolic angles, bound to numbers, and the trained circuit against the layered product."""
    from qrisp.algorithms.qaoa.problems.maxCut import maxcut_problem
    g = list(graphs(n))[ix]
    p = maxcut_problem(g)
    ctx.step()
    ctx.state((n, ix, depth, init, src))
    th = [0.3 + 0.45 * i for i in range(2 * depth)]
    v = q.QuantumVariable(n)
    if src == "compile":
        before = len(v.qs.data)
        qc, sy = p.compile_circuit(v, depth, init)
        if len(v.qs.data) != before:
            return "compiling leaves gates behind"
        qc = qc.bind_parameters(dict(zip(sy, th)))
        got = qc.statevector_array()
    elif src == "train":
        f = p.train_function(v, depth, init_type=init, init_point=np.array(th), max_iter=1, options={"rhobeg": 1e-12}, mes_kwargs={"shots": 10})
        w = q.QuantumVariable(n)
        f(w)
        got = w.qs.compile().statevector_array()
    c = diag(n, cut(g))
    one = np.array([1, -1 if init == "tqa" else 1]) / np.sqrt(2)
    st = np.ones(1, dtype=complex)
    for _ in range(n):
        st = np.kron(st, one)
    for i in range(depth):
        st = np.exp(-2j * th[i] * c) * st
        b = th[depth + i]
        r = np.array([[np.cos(b), -1j * np.sin(b)], [-1j * np.sin(b), np.cos(b)]])
        u = np.eye(1)
        for _ in range(n):
            u = np.kron(u, r)
        st = u @ st
    if not prog.phase_equal(np.asarray(got), st, 2e-3):
        return f"state {np.round(got, 3)}, expected {np.round(st, 3)}"


def params(ctx, depth, dt):
    from qrisp.algorithms.qaoa.problems.maxCut import maxcut_problem
    p = maxcut_problem(nx.path_graph(2))
    got = p.computeParams(depth, dt)
    t = [(i + 0.5) / depth for i in range(depth)]
    want = [x * dt for x in t] + [(1 - x) * dt for x in t]
    ctx.step()
    ctx.state((depth, dt))
    if np.max(np.abs(np.array(got) - want)) > 1e-6:
        return f"{got}, expected {want}"


# ---- iterative reductions ----
def reduce_graph(ctx, kind, n, ix, res):
    """One reduction step driven by the given outcome distribution."""
    from qrisp.algorithms.qiro.qiroproblems import qiroMaxIndepSet as mi, qiroMaxClique as mc
    g = list(graphs(n))[ix]
    h = g if kind == "indep" else nx.complement(g)
    sol, exc = [], []
    f = mi.create_max_indep_replacement_routine if kind == "indep" else mc.create_max_clique_replacement_routine
    before = (sorted(g.nodes()), sorted(g.edges()))
    new, sol, sign, exc = f(dict(res), [g, sol, exc])
    ctx.step()
    ctx.state((kind, n, ix, str(res)))
    if (sorted(g.nodes()), sorted(g.edges())) != before:
        return "the given graph was changed"
    corr = {}
    for i in g.nodes():
        corr[(i,)] = sum(p * (-1) ** int(k[i]) for k, p in res.items())
    for i, j in g.edges():
        corr[(i, j)] = sum(p * (-1) ** (int(k[i]) + int(k[j])) for k, p in res.items())
    top = max(abs(x) for x in corr.values())
    if top < 1e-9:
        return None if sign == 0 and set(new.nodes()) == set(g.nodes()) else "reduction without correlation"
    cands = [c for c, x in corr.items() if abs(x) > top - 1e-9]
    left = set(new.nodes())
    gone = set(g.nodes()) - left
    if gone != set(exc):
        return f"removed vertices {gone} but excluded {exc}"
    feas = [b for b in (bits(k, n) for k in range(1 << n)) if not any(b[i] and b[j] for i, j in h.edges())]
    why = []
    for c in cands:
        s = np.sign(corr[c])
        if len(c) == 1:
            ok = [b for b in feas if b[c[0]] == (0 if s > 0 else 1)]
            sel = [c[0]] if s < 0 else []
        elif s > 0:
            # equal: neither (edge of the conflict graph) or, for cliques, both
            ok = [b for b in feas if b[c[0]] == b[c[1]] == (1 if kind == "clique" else 0)]
            sel = list(c) if kind == "clique" else []
        else:
            ok = [b for b in feas if b[c[0]] != b[c[1]]]
            sel = []
        never = {i for i in g.nodes() if all(not b[i] for b in ok)}
        always = {i for i in g.nodes() if all(b[i] for b in ok)}
        if gone == never and set(sel) == set(sol) and sign == s:
            return None
        why.append(f"correlation {corr[c]:.2f} of {c}: should remove {never} and select {sel}")
    return f"removed {gone}, selected {sol}, sign {sign}; " + "; ".join(why)


def reduce_sat(ctx, n, ix, res):
    from qrisp.algorithms.qiro.qiroproblems.qiroMaxSat import create_maxsat_replacement_routine as f
    cl = clause_sets(n)[ix]
    prob = [n, copy.deepcopy(cl)]
    (m, new), sol, sign, exc = f(dict(res), [prob, [], []])
    ctx.step()
    ctx.state((n, ix, str(res)))
    if prob[1] != cl:
        return "the given clauses were changed"
    corr = {(i,): sum(p * (-1) ** int(k[i]) for k, p in res.items()) for i in range(n)}
    corr.update({(i, j): sum(p * (-1) ** (int(k[i]) + int(k[j])) for k, p in res.items()) for i, j in itertools.combinations(range(n), 2)})
    top = max(abs(x) for x in corr.values())
    if top < 1e-9:
        return
    cands = [c for c, x in corr.items() if abs(x) > top - 1e-9]
    old, red = sat_value(cl), sat_value([c for c in new if c])
    why = []
    for c in cands:
        s = np.sign(corr[c])
        if len(c) == 1:
            ok = [b for b in (bits(k, n) for k in range(1 << n)) if b[c[0]] == (0 if s > 0 else 1)]
            fixed = c[0]
        else:
            ok = [b for b in (bits(k, n) for k in range(1 << n)) if (b[c[0]] == b[c[1]]) == (s > 0)]
            fixed = c[1]
        d = {old(b) - red(b) for b in ok}
        left = {abs(l) for x in new for l in x}
        if len(d) == 1 and fixed + 1 not in left and set(exc) == {fixed + 1} and set(sol) == ({fixed + 1} if len(c) == 1 and s < 0 else set()):
            return
        why.append(f"correlation {corr[c]:.2f} of {c}: clauses {cl} became {new}, offsets {d}, selected {sol}, excluded {exc}")
    return "; ".join(why)


def reduced_ops(ctx, n, ix, sol, exc, what):
    """Operators of a reduced instance leave decided qubits alone."""
    from qrisp.algorithms.qiro import qiro_mixers as qm
    from qrisp.algorithms.qiro.qiroproblems import qiroMaxIndepSet as mi
    g = list(graphs(n))[ix]
    red = g.copy()
    red.remove_nodes_from(exc)
    up = [red, list(sol), list(exc)]
    dec = set(sol) | set(exc)
    a = ANG[0]
    ctx.state((n, ix, sol, exc, what))
    if what == "rx":
        want = seq([one_rx(n, i, 2 * a, lambda b: True) for i in range(n) if i not in dec], n)
        return unitary(ctx, "rec", n, lambda v: qm.qiro_rx_mixer(up)(v, a), want)
    if what == "ctrl":
        want = seq([one_rx(n, i, a, lambda b, i=i: not any(b[j] for j in red.adj[i])) for i in range(n) if i not in dec], n)
        return unitary(ctx, "rec", n, lambda v: mi.create_max_indep_controlled_mixer_reduced(up)(v, a), want)
    v = q.QuantumVariable(n)
    if what == "init":
        qm.qiro_init_function(list(sol), list(exc))(v)
        want = {"".join(c): 0.5 ** (n - len(dec)) for c in itertools.product(*[["1"] if i in sol else ["0"] if i in exc else ["0", "1"] for i in range(n)])}
    else:
        mi.qiro_max_indep_set_init_function(list(sol), list(exc))(v)
        want = {"".join("1" if i in sol else "0" for i in range(n)): 1.0}
    ctx.step()
    got = v.get_measurement()
    if set(got) != set(want) or any(abs(got[k] - want[k]) > 1e-4 for k in want):
        return f"{got}, expected {want}"


# ---- eigensolver templates ----
def heis(ctx, n, ix, J, B, what):
    from qrisp.algorithms.vqe.problems import heisenberg as m
    g = list(graphs(n))[ix]
    P = {"X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}

    def op(t):
        out = np.eye(1)
        for i in range(n):
            out = np.kron(out, P[t[i]] if i in t else np.eye(2))
        return out
    ctx.step()
    ctx.state((n, ix, J, B, what))
    if what == "ham":
        H = m.create_heisenberg_hamiltonian(g, J, B)
        want = sum([J * op({i: s, j: s}) for i, j in g.edges() for s in "XYZ"] + [B * op({i: "Z"}) for i in range(n)])
        got = H.to_sparse_matrix(n).toarray()
        return None if np.max(np.abs(got - want)) < 1e-6 else "Hamiltonian differs"
    if what == "color":
        C = m.greedy_edge_coloring(g)
        flat = [tuple(sorted(e)) for c in C for e in c]
        if sorted(flat) != sorted(tuple(sorted(e)) for e in g.edges()):
            return "colouring does not cover every edge once"
        for c in C:
            vs = [x for e in c for x in e]
            if len(vs) != len(set(vs)):
                return "edges of one colour share a vertex"
        M = nx.maximal_matching(g)
        C = m.greedy_edge_coloring(g, M)
        flat = [tuple(sorted(e)) for c in C for e in c]
        if sorted(flat) != sorted(tuple(sorted(e)) for e in g.edges()):
            return "colouring with a given matching does not cover every edge once"
        return
    if what == "problem":
        p = m.heisenberg_problem(g, J, B)
        if g.number_of_edges() == 0:
            return
        M = nx.maximal_matching(g)
        from scipy.linalg import expm
        ex = lambda i, j, th: expm(-0.25j * th * (sum(op({i: s, j: s}) for s in "XYZ") - np.eye(1 << n)))
        th = [0.4, 0.9]
        C = m.greedy_edge_coloring(g, M)
        u = [expm(-0.5j * B * th[1] * sum(op({i: "Z"}) for i in range(n)))]
        for c in reversed(C):
            u += [ex(i, j, J * th[1]) for i, j in c]
        u += [ex(i, j, th[0]) for i, j in M]
        return unitary(ctx, "rec", n, lambda v: p.ansatz_function(v, th), seq(u, n))


def sing(ctx):
    from qrisp.algorithms.vqe.problems import heisenberg as m
    v = q.QuantumVariable(2)
    m.create_heisenberg_init_function([(0, 1)])(v)
    ctx.step()
    ctx.state("sing")
    got = v.qs.compile().statevector_array()
    if not prog.phase_equal(np.asarray(got), np.array([0, 1, -1, 0]) / np.sqrt(2), 1e-3):
        return f"{got}"


def dists(n):
    """Outcome distributions: every basis state and every unequal mixture of two."""
    s = ["".join(map(str, bits(k, n))) for k in range(1 << n)]
    out = [{a: 0.625, b: 0.375} for a in s for b in s if a != b]
    out += [{a: 1.0} for a in s]
    out += [{a: 0.5, b: 0.25, c: 0.25} for a, b, c in itertools.combinations(s, 3)]
    return out


def shards(tier):
    return ["maxcut", "maxcuttr", "indep", "clique", "packing", "cover", "sat", "lin", "qubo", "cold", "color", "mixer", "mixertr", "constrained", "layered", "reduce/indep", "reduce/clique", "reduce/sat", "reducedops", "heis"]


def run(shard, ctx):
    s = shard.split("/")
    deep = ctx.tier == "deep"
    ng = {1: 1, 2: 2, 3: 8, 4: 64}
    sizes = [1, 2, 3, 4]
    if s[0] == "maxcut":
        for n in [2, 3, 4]:
            for ix in range(ng[n]):
                for w in ["cost", "rec+"] + (["rec+ctl"] if n < 4 or deep else []):
                    ctx.case(f"{n}/{ix}/{w}", maxcut, ctx, n, ix, w)
    elif s[0] == "maxcuttr":
        for n in [2, 3, 4]:
            for ix in range(ng[n]):
                if n < 4 or deep:
                    ctx.case(f"{n}/{ix}/tr", maxcut, ctx, n, ix, "tr+")
    elif s[0] in ("indep", "clique", "packing"):
        for n in sizes:
            for ix in range(ng[n]):
                for w in ["cost", "op", "mix+"] + (["mix+ctl"] if n < 4 else []):
                    if w == "op" and ix:
                        continue
                    ctx.case(f"{n}/{ix}/{w}", indep_set, ctx, s[0], n, ix, w)
    elif s[0] == "cover":
        for u in [1, 2, 3]:
            for ix in range(len(list(families(u)))):
                for w in ["cost", "mix"]:
                    ctx.case(f"{u}/{ix}/{w}", set_cover, ctx, u, ix, w)
    elif s[0] == "sat":
        for n in [1, 2, 3]:
            for ix in range(len(clause_sets(n))):
                for w in ["cost", "poly", "op"]:
                    if n == 3 and ix > 26 and not deep and (w != "cost" and ix % 5):
                        continue
                    ctx.case(f"{n}/{ix}/{w}", maxsat, ctx, n, ix, w)
    elif s[0] == "lin":
        for n in [3, 4]:
            for ix in range(40):
                for w in ["cost", "op"]:
                    ctx.case(f"{n}/{ix}/{w}", lin, ctx, n, ix, w)
    elif s[0] in ("qubo", "cold"):
        ms = [m for n in (1, 2) for m in matrices(n, (-1, 0, 1, 2))]
        ms += [np.array([[a, b, c], [d, -1, e], [0, b, 2]]) for a in (-1, 2) for b in (0, 1) for c in (0, -2) for d in (0, 3) for e in (0, 1)]
        if s[0] == "cold":
            ms = [m for m in ms if np.allclose(m, m.T) and len(m) > 1]
            for a, b, c, d in itertools.product((-1.0, 0.0, 0.5), repeat=4):
                ms.append(np.array([[a, b, c], [b, 1, d], [c, d, -0.5]]))
        for m in ms:
            key = m.astype(float).tolist()
            for w in (["cost", "op", "ctl", "array"] if s[0] == "qubo" else ["ham"]):
                if w in ("ctl", "array") and len(m) == 2 and np.sum(m) % 2:
                    continue
                if s[0] == "qubo":
                    ctx.case(f"{key}/{w}", qubo, ctx, key, w)
                else:
                    ctx.case(f"{key}", cold, ctx, key)
    elif s[0] == "color":
        for k in [1, 2, 3, 4]:
            for hot in [True, False]:
                if k > 1 or hot:
                    ctx.case(f"type/{k}/{hot}", color_type, ctx, k, hot)
        for n in [1, 2, 3]:
            for ix in range(ng[n]):
                for k in [2, 3, 4]:
                    for hot in [True, False]:
                        w = k if hot else int(np.ceil(np.log2(k)))
                        for what in ["cost", "op", "mix"]:
                            if what != "cost" and n * w > 6 or what == "mix" and (ix or not hot and k != 4):
                                continue
                            ctx.case(f"{n}/{ix}/{k}/{hot}/{what}", coloring, ctx, n, ix, k, hot, what)
    elif s[0] in ("mixer", "mixertr"):
        m = "rec" if s[0] == "mixer" else "tr"
        for kind in ["rx", "ry", "rz", "xy", "grover"]:
            for n in [1, 2, 3, 4]:
                if kind == "xy" and n < 2:
                    continue
                for a in ANG + [np.pi]:
                    for w in ["", "ctl"]:
                        if m == "tr" and (n == 4 or w and n == 3) and not deep:
                            continue
                        ctx.case(f"{m}/{kind}/{n}/{a}/{w}", mixer, ctx, m, kind, n, a, w)
    elif s[0] == "constrained":
        for n in [2, 3]:
            for r in range(1, 1 << n):
                for win in itertools.combinations(range(1 << n), r):
                    if n == 3 and not deep and r > 1 and sum(win) % 4:
                        continue
                    for a in ANG:
                        ctx.case(f"{n}/{win}/{a}", constrained, ctx, n, win, a)
    elif s[0] == "layered":
        for n in [2, 3]:
            for ix in range(1, ng[n]):
                for d in [1, 2]:
                    for init in ["random", "tqa"]:
                        for src in ["compile", "train"]:
                            ctx.case(f"{n}/{ix}/{d}/{init}/{src}", layered, ctx, n, ix, d, init, src)
        for d in range(1, 6):
            for dt in [0.1, 0.75]:
                ctx.case(f"params/{d}/{dt}", params, ctx, d, dt)
    elif shard in ("reduce/indep", "reduce/clique"):
        for n in [1, 2, 3, 4]:
            for ix in range(ng[n]):
                ds = dists(n)
                if n == 4 and not deep:
                    ds = ds[ix % 4::4]
                for i, d in enumerate(ds):
                    ctx.case(f"{s[1]}/{n}/{ix}/{d}", reduce_graph, ctx, s[1], n, ix, d)
    elif shard == "reduce/sat":
        for n in [1, 2, 3]:
            for ix in range(len(clause_sets(n))):
                ds = dists(n)
                if n == 3 and not deep:
                    ds = ds[ix % 7::7]
                for d in ds:
                    ctx.case(f"sat/{n}/{ix}/{d}", reduce_sat, ctx, n, ix, d)
    elif s[0] == "reducedops":
        for n in [1, 2, 3]:
            for ix in range(ng[n]):
                for st in itertools.product(range(3), repeat=n):
                    sol = tuple(i for i in range(n) if st[i] == 1)
                    exc = tuple(i for i in range(n) if st[i] == 2)
                    for w in ["rx", "ctrl", "init", "mis"]:
                        if w != "ctrl" and ix:
                            continue
                        ctx.case(f"{n}/{ix}/{sol}/{exc}/{w}", reduced_ops, ctx, n, ix, sol, exc, w)
    elif s[0] == "heis":
        ctx.case("sing", sing, ctx)
        for n in [2, 3, 4]:
            for ix in range(ng[n]):
                for J, B in [(1, 1), (0.5, -1.5)]:
                    for w in ["ham", "color", "problem"]:
                        if n == 4 and w == "problem" and ix % 4 and not deep:
                            continue
                        ctx.case(f"{n}/{ix}/{J}/{B}/{w}", heis, ctx, n, ix, J, B, w)
