"""Marking oracles, reflections, amplification, search, counting and backtracking walks against closed forms."""
import itertools
import numpy as np
import qrisp as q
from mc import prog, jsim, uni

NOTE = "complete unitaries of state marking and reflections for all marked values up to 3 qubits and all variable splits, recorded, traced and controlled; exact amplitudes of amplification and search for all marked sets up to 3 qubits and all iteration counts up to 4; complete estimate distributions of counting; all walk operators of backtracking trees up to depth 3 with all single (deep: double) accepted and rejected nodes, phase distributions and found solutions"

PHASES = {"pi": np.pi, "half": np.pi / 2, "odd": 0.9}


def split(v, lay):
    """Views of a variable as list of qubit lists, qubit 0 first."""
    out, o = [], 0
    for k in lay:
        out.append([v[o + i] for i in range(k)])
        o += k
    return out


def bits_of(k, n):
    return [k >> i & 1 for i in range(n)]


# ---- marking one state ----
def tag(ctx, mode, lay, value, ph, form, wrap):
    n = sum(lay)
    phi = PHASES[ph]

    def body(v, e):
        parts = []
        o = 0
        for k in lay:
            if form == "float":
                w = q.QuantumFloat(k)
            elif form == "signed":
                w = q.QuantumFloat(k - 1, -1, signed=True)
            else:
                w = q.QuantumVariable(k)
            for i in range(k):
                q.swap(v[o + i], w[i])
            parts.append(w)
            o += k
        spec, o = {}, 0
        for w, k in zip(parts, lay):
            x = value >> o & ((1 << k) - 1)
            if form == "binary":
                spec[w] = format(x, f"0{k}b")
            elif form == "float":
                spec[w] = x
            elif form == "signed":
                spec[w] = (x - (1 << k) if x >> (k - 1) else x) / 2
            else:
                spec[w] = format(x, f"0{k}b")[::-1]
            o += k
        kw = dict(phase=phi) if ph != "pi" else {}
        if form == "binary":
            kw["binary_values"] = True
        if wrap == "ctl":
            with q.control(e[0]):
                q.tag_state(spec, **kw)
        elif wrap == "inv":
            with q.invert():
                q.tag_state(spec, **kw)
        else:
            q.tag_state(spec, **kw)
        o = 0
        for w, k in zip(parts, lay):
            for i in range(k):
                q.swap(v[o + i], w[i])
            o += k
            w.delete()
    d = np.ones(1 << n, dtype=complex)
    d[value] = np.exp(1j * phi * (-1 if wrap == "inv" else 1))
    ctx.step()
    ctx.state((mode, lay, value, ph, form, wrap))
    return uni.compare(mode, n, body, uni.little(np.diag(d)), wrap == "ctl", exact=True)


# ---- reflections ----
def psi_of(kind, n):
    """(preparation on a list of qubits, amplitude vector with qubit 0 most significant)"""
    if kind == "none":
        return None, np.eye(1 << n)[0]
    if kind == "h":
        return (lambda qs: [q.h(b) for b in qs]), np.ones(1 << n) / np.sqrt(1 << n)
    # unequal weights with entanglement
    an = [0.6, 1.3, 2.1]

    def f(qs):
        for i, b in enumerate(qs):
            q.ry(an[i], b)
        for a, b in zip(qs, qs[1:]):
            q.cx(a, b)
    v = np.ones(1)
    for i in range(n):
        v = np.kron(v, [np.cos(an[i] / 2), np.sin(an[i] / 2)])
    for i in range(n - 1):
        t = v.reshape([2] * n)
        t = np.moveaxis(t, [i, i + 1], [0, 1]).copy()
        t[1] = t[1][::-1].copy()
        v = np.moveaxis(t, [0, 1], [i, i + 1]).reshape(-1)
    return f, v


def refl(ctx, mode, lay, kind, ph, route, idx, wrap):
    n = sum(lay)
    phi = PHASES[ph]
    prep, psi = psi_of(kind, n)

    def body(v, e):
        parts, o = [], 0
        for k in lay:
            w = q.QuantumVariable(k)
            for i in range(k):
                q.swap(v[o + i], w[i])
            parts.append(w)
            o += k

        def state(*ws):
            prep([b for w, k in zip(ws, lay) for b in (w[i] for i in range(k))])
        kw = {}
        if ph != "pi":
            kw["phase"] = phi
        if idx is not None:
            kw["reflection_indices"] = list(idx)
        if prep is not None and not (route == "diffuser" and kind == "h"):
            kw["state_function"] = state
        arg = parts[0] if len(parts) == 1 else parts
        f = {"diffuser": q.grover.diffuser, "reflection": q.reflection}[route]
        if wrap == "ctl":
            with q.control(e[0]):
                f(arg, **kw)
        elif wrap == "inv":
            with q.invert():
                f(arg, **kw)
        else:
            f(arg, **kw)
        o = 0
        for w, k in zip(parts, lay):
            for i in range(k):
                q.swap(v[o + i], w[i])
            o += k
            w.delete()
    if idx is None:
        pr = np.outer(psi, psi)
    else:
        # projector on zero of the chosen variables, carried through the preparation
        pos, o = [], 0
        for j, k in enumerate(lay):
            if j in idx:
                pos += range(o, o + k)
            o += k
        zero = np.diag([float(all(not (x >> (n - 1 - b) & 1) for b in pos)) for x in range(1 << n)])
        u = unitary(prep, n) if prep is not None else np.eye(1 << n)
        pr = u @ zero @ u.conj().T
    want = -(np.eye(1 << n) - (1 - np.exp(1j * phi)) * pr)
    if wrap == "inv":
        want = want.conj().T
    ctx.step()
    ctx.state((mode, lay, kind, ph, route, idx, wrap))
    return uni.compare(mode, n, body, want, wrap == "ctl", exact=True)


def unitary(prep, n):
    v = q.QuantumVariable(n)
    prep([v[i] for i in range(n)])
    return np.array(v.qs.copy().get_unitary())


# ---- amplification and search ----
def oracle(marked, n, phase=np.pi):
    """Phase on every marked value (qubit 0 least significant)."""
    def f(v):
        for k in marked:
            for i in range(n):
                if not k >> i & 1:
                    q.x(v[i])
            if n == 1:
                q.p(phase, v[0])
            else:
                q.mcp(phase, [v[i] for i in range(n)]) if not isinstance(phase, float) or phase != np.pi else mcz(v, n)
            for i in range(n):
                if not k >> i & 1:
                    q.x(v[i])
    return f


def mcz(v, n):
    q.h(v[n - 1])
    q.mcx([v[i] for i in range(n - 1)], v[n - 1])
    q.h(v[n - 1])


def amps(mode, build, n):
    """Amplitudes indexed by value (qubit 0 least significant) of the variables returned by build."""
    if mode == "rec":
        vs = build()
        q.merge(vs)
        tabs = [prog.table(vs[0].qs, [[b for v in vs for b in v.reg]])]
    else:
        res, qc = jsim.circuit(lambda: tuple(build()))
        g = [list(r) for r in res if isinstance(r, (list, tuple))]
        tabs = [t for _, _, t in prog.branch_tables(qc, [sum(g, [])])]
    out = []
    for tab in tabs:
        a = np.zeros(1 << n, dtype=complex)
        for k, c in tab.items():
            if abs(c) < 1e-5:
                continue
            if k[-1]:
                return None
            a[k[0]] += c
        out.append(a)
    return out


def amplify(ctx, mode, n, marked, kind, it, two):
    prep, psi = psi_of(kind, n)
    psi = psi[uni.rev(n)]
    f = oracle(marked, n)

    def build():
        if two:
            a, b = q.QuantumVariable(1), q.QuantumVariable(n - 1)
            vs = [a, b]
        else:
            vs = [q.QuantumVariable(n)]
        qb = lambda ws: ([ws[0][0]] + [ws[1][i] for i in range(n - 1)]) if two else [ws[0][i] for i in range(n)]
        state = lambda *ws: prep(qb(ws))
        orac = lambda *ws, scale=1: f(qb(ws))
        state(*vs)
        q.amplitude_amplification(vs if two else vs[0], state, orac, iter=it, kwargs_oracle={"scale": 2})
        return vs
    got = amps(mode, build, n)
    if got is None:
        return "helper qubits not clean"
    good = np.array([k in marked for k in range(1 << n)])
    a = np.sum(psi[good] ** 2)
    th = np.arcsin(np.sqrt(min(1, a)))
    want = psi.astype(complex)
    if 1e-9 < a < 1 - 1e-9:
        want[good] *= np.sin((2 * it + 1) * th) / np.sqrt(a)
        want[~good] *= np.cos((2 * it + 1) * th) / np.sqrt(1 - a)
    ctx.step(it)
    ctx.state((mode, n, marked, kind, it, two))
    for g in got:
        if not prog.phase_equal(g, want, 1e-3):
            return f"amplitudes {np.round(g, 3)}, expected {np.round(want, 3)}"


def search(ctx, mode, n, marked, it, exact, lay, amount):
    """it None: default count."""
    N = 1 << n
    M = len(marked)

    def build():
        if lay == "array":
            vs = q.QuantumArray(q.QuantumBool(), shape=(n,))
        elif lay == "one":
            vs = q.QuantumVariable(n)
        elif lay == "float":
            vs = q.QuantumFloat(n)
        else:
            vs = [q.QuantumVariable(1), q.QuantumVariable(n - 1)]

        def qb(w):
            if lay == "array":
                return [w[i][0] for i in range(n)]
            if lay == "list":
                return [w[0][0]] + [w[1][i] for i in range(n - 1)]
            return [w[i] for i in range(n)]

        def orac(w, phase=None, unused=0):
            oracle(marked, n, np.pi if phase is None else phase)(qb(w))
        kw = {}
        if it is not None:
            kw["iterations"] = it
        if amount:
            kw["winner_state_amount"] = amount
        if exact:
            kw["exact"] = True
        q.grover.grovers_alg(vs, orac, kwargs={"unused": 1}, **kw)
        if lay == "array":
            return list(vs.flatten())
        return vs if isinstance(vs, list) else [vs]
    got = amps(mode, build, n)
    if got is None:
        return "helper qubits not clean"
    good = np.array([k in marked for k in range(N)])
    want = np.ones(N, dtype=complex) / np.sqrt(N)
    ctx.step()
    ctx.state((mode, n, marked, it, exact, lay))
    if exact:
        for g in got:
            p = np.sum(np.abs(g[good]) ** 2)
            if abs(p - 1) > 2e-3:
                return f"marked probability {p:.4f} in exact search"
            h = g[good]
            if np.max(np.abs(h - h[0])) > 2e-3:
                return f"marked states not equally weighted: {np.round(h, 3)}"
        return None
    reps = it if it is not None else int(np.round(np.pi / 4 * np.sqrt(N / (amount or 1))))
    th = np.arcsin(np.sqrt(M / N))
    if 0 < M < N:
        want[good] = np.sin((2 * reps + 1) * th) / np.sqrt(M)
        want[~good] = np.cos((2 * reps + 1) * th) / np.sqrt(N - M)
    for g in got:
        if not prog.phase_equal(g, want, 1e-3):
            return f"amplitudes {np.round(g, 3)}, expected {np.round(want, 3)}"


def counting(ctx, mode, n, marked, prec):
    N, P = 1 << n, 1 << prec
    th = np.arcsin(np.sqrt(len(marked) / N))
    k = np.arange(P)
    ker = lambda phi: np.array([abs(np.mean(np.exp(2j * np.pi * k * (phi - y / P)))) ** 2 for y in range(P)])
    w = (ker(th / np.pi) + ker(-th / np.pi)) / 2
    if len(marked) in (0, N):
        w = ker(th / np.pi)
    law = {}
    for y in range(P):
        m = round(float(N * np.sin(np.pi * y / P) ** 2), 4)
        law[m] = law.get(m, 0) + w[y]
    f = oracle(marked, n)
    ctx.step()
    ctx.state((mode, n, marked, prec))
    if mode == "rec":
        v = q.QuantumVariable(n)
        m = float(q.quantum_counting(v, lambda a: f(a), prec))
        best = max(w)
        ok = {round(float(N * np.sin(np.pi * y / P) ** 2), 4) for y in range(P) if w[y] > best - 2e-3}
        if not any(abs(m - o) < 1e-3 for o in ok):
            return f"count {m}, expected one of {sorted(ok)}"
        return None
    from qrisp.jasp import make_jaspr

    def prog_():
        v = q.QuantumVariable(n)
        return q.quantum_counting(v, lambda a: f(a), prec)
    jp = make_jaspr(prog_)()
    got = jsim.dist(lambda: jp())
    for m, p in law.items():
        g = sum(pr for x, pr in got.items() if abs(x - m) < 1e-3)
        if abs(g - p) > 4e-3:
            return f"count {m} has probability {g:.4f}, expected {p:.4f}"


# ---- backtracking ----
def paths(depth, deg):
    return [p for l in range(depth + 1) for p in itertools.product(range(deg), repeat=l)]


def predicate(sel):
    @q.auto_uncompute
    def f(tree):
        r = q.QuantumBool()
        for p in sel:
            if len(p) > len(tree.branch_qa):
                continue
            qs, st = [tree.h[tree_height(tree) - len(p)]], "1"
            for k, b in enumerate(p):
                qv = tree.branch_qa[-1 - k]
                for i in range(qv.size):
                    qs.append(qv[i])
                    st += str(b >> i & 1)
            q.mcx(qs, r, ctrl_state=st)
        return r
    return f


def tree_height(tree):
    return len(tree.branch_qa)


def make_tree(depth, deg, acc, rej, opt=False):
    return q.quantum_backtracking.QuantumBacktrackingTree(depth, q.QuantumFloat(int(np.log2(deg))), predicate(acc), predicate(rej), subspace_optimization=opt)


def nodes(tree, deg):
    """{path: amplitude} of the state of a tree; None for weight outside of the node states."""
    from mc.prog import table
    d = len(tree.branch_qa)
    tab = table(tree.qs, [tree.h] + [tree.branch_qa[-1 - k] for k in range(d)])
    out = {}
    for k, a in tab.items():
        if abs(a) < 1e-4:
            continue
        h = k[0]
        if k[-1] or h & (h - 1) or not h:
            return None
        l = d - (h.bit_length() - 1)
        if any(k[1 + i] for i in range(l, d)):
            return None
        out[tuple(k[1:1 + l])] = a
    return out


def diffusion(depth, deg, acc, rej, even):
    """Sum of the local diffusions around nodes of one parity of height, on the existing nodes."""
    live = [p for p in paths(depth, deg) if not any(p[:i] in rej for i in range(len(p)))]
    ix = {p: i for i, p in enumerate(live)}
    m = np.eye(len(live))
    for p in live:
        if (depth - len(p)) % 2 == (0 if even else 1) and p not in acc:
            kids = [] if p in rej else [c for c in live if len(c) == len(p) + 1 and c[:len(p)] == p]
            v = np.zeros(len(live))
            v[ix[p]] = 1
            for c in kids:
                v[ix[c]] = np.sqrt(depth) if not p else 1
            v /= np.linalg.norm(v)
            m -= 2 * np.outer(v, v)
    return live, ix, m


def walk(ctx, depth, deg, acc, rej, what, opt):
    live, ix, a = diffusion(depth, deg, acc, rej, True)
    _, _, b = diffusion(depth, deg, acc, rej, False)
    first, second = (a, b) if not depth % 2 else (b, a)
    op = {"even": a, "odd": b, "step": second @ first, "ctl0": np.eye(len(live)), "ctl1": second @ first}[what]
    for p in live:
        t = make_tree(depth, deg, acc, rej, opt)
        t.init_node(list(p))
        ctx.step()
        ctx.state((depth, deg, acc, rej, what, p, opt))
        if what == "step":
            t.quantum_step()
        elif what in ("even", "odd"):
            t.qstep_diffuser(even=what == "even")
        else:
            c = q.QuantumBool(qs=t.qs)
            if what == "ctl1":
                q.x(c)
            t.quantum_step(ctrl=[c[0]])
            if what == "ctl1":
                q.x(c)
        got = nodes(t, deg)
        if got is None:
            return f"leaves the node states from {p}"
        want = op[:, ix[p]]
        g = np.zeros(len(live), dtype=complex)
        for k, v in got.items():
            if k not in ix:
                return f"reaches the removed node {k} from {p}"
            g[ix[k]] = v
        if np.max(np.abs(g - want)) > 2e-3:
            return f"from {p}: { {live[i]: np.round(x, 3) for i, x in enumerate(g) if abs(x) > 1e-3} }, expected { {live[i]: round(float(x), 3) for i, x in enumerate(want) if abs(x) > 1e-3} }"


def phi_state(ctx, depth, deg, path, root):
    t = make_tree(depth, deg, [path], [])
    if root is not None:
        t = t.subtree(list(root))
    t.init_phi(list(path))
    d = depth - len(root or ())
    ctx.step()
    ctx.state((depth, deg, path, root))
    tab = prog.table(t.qs, [t.h] + [t.branch_qa[-1 - k] for k in range(depth)])
    want = {}
    full = tuple(root or ())
    for i in range(len(path) + 1):
        h = 1 << (d - i)
        p = full + tuple(path[:i])
        want[(h,) + p + (0,) * (depth - len(p)) + (0,)] = np.sqrt(d) if not i else (-1) ** i
    nrm = np.sqrt(sum(x * x for x in want.values()))
    got = {k: a for k, a in tab.items() if abs(a) > 1e-4}
    keys = set(want) | set(got)
    v = np.array([got.get(k, 0) for k in keys])
    w = np.array([want.get(k, 0) / nrm for k in keys], dtype=complex)
    if not prog.phase_equal(v, w, 2e-3):
        return f"{got}, expected {want}"


def sub_node(ctx, depth, deg, root, path):
    t = make_tree(depth, deg, [], []).subtree(list(root))
    t.init_node(list(path))
    ctx.step()
    ctx.state((depth, deg, root, path))
    tab = prog.table(t.qs, [t.h] + [t.branch_qa[-1 - k] for k in range(depth)])
    p = tuple(root) + tuple(path)
    want = (1 << (depth - len(p)),) + p + (0,) * (depth - len(p)) + (0,)
    if abs(abs(tab.get(want, 0)) - 1) > 1e-3:
        return f"{tab}, expected {want}"


def estimate(ctx, depth, deg, acc, rej, prec, opt):
    live, ix, a = diffusion(depth, deg, acc, rej, True)
    _, _, b = diffusion(depth, deg, acc, rej, False)
    first, second = (a, b) if not depth % 2 else (b, a)
    w, v = np.linalg.eig(second @ first)
    P = 1 << prec
    r = np.zeros(len(live))
    r[ix[()]] = 1
    amp = np.array([np.linalg.matrix_power(second @ first, k) @ r for k in range(P)])
    want = np.array([np.linalg.norm(sum(np.exp(-2j * np.pi * k * y / P) * amp[k] for k in range(P)) / P) ** 2 for y in range(P)])
    t = make_tree(depth, deg, acc, rej, opt)
    t.init_node([])
    res = t.estimate_phase(prec)
    got = res.get_measurement()
    ctx.step()
    ctx.state((depth, deg, acc, rej, prec, opt))
    for y in range(P):
        if abs(got.get(y / P, 0) - want[y]) > 3e-3:
            return f"phase {y / P} has probability {got.get(y / P, 0):.4f}, expected {want[y]:.4f}"


def solve(ctx, depth, deg, acc, rej, prec):
    t = make_tree(depth, deg, acc, rej)
    ctx.step()
    ctx.state((depth, deg, acc, rej, prec))
    s = t.find_solution(prec)
    real = [p for p in acc if not any(p[:i] in rej for i in range(len(p)))]
    if not real:
        return None if s is None else f"found {s} in a tree without solution"
    if s is None or tuple(int(x) for x in s) not in real:
        return f"found {s}, solutions {real}"


# accepted and rejected nodes at different levels of the larger trees
KEEP = [(((1, 0),), ((0,),)), (((0, 1, 1),), ((1, 0),)), (((0, 1, 1),), ((0, 0),)), (((2, 3),), ((1,),))]


def subsets(n, full):
    N = 1 << n
    sets = [m for r in range(N + 1) for m in itertools.combinations(range(N), r)]
    return sets if full else [m for m in sets if len(m) in (0, 1, N - 1, N) or sum(m) % 5 == 0]


def shards(tier):
    return ["walk/q/even", "walk/q/odd", "walk/q/ctl1", "walk/3", "search/tr/one", "search/tr/list", "search/tr/array", "estimate/2", "estimate/3", "tag/rec", "tag/tr", "refl/rec", "refl/tr", "amp/rec/2", "amp/rec/3", "amp/tr", "search/rec", "exact", "count/rec", "count/tr", "walk/1", "walk/2", "phi", "solve"]


def run(shard, ctx):
    s = shard.split("/")
    deep = ctx.tier == "deep"
    if s[0] == "tag":
        m = s[1]
        for lay in [(1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (1, 1, 1)]:
            n = sum(lay)
            for value in range(1 << n):
                for ph in PHASES:
                    for form in ["str", "float", "binary", "signed"]:
                        if form == "signed" and min(lay) < 2 or (m == "tr" and form in ("binary", "str")):
                            continue
                        for wrap in ["", "ctl", "inv"]:
                            if m == "tr" and not deep and (n == 3 and value not in (0, 3, 5, 6) or ph == "half" or (wrap and value % 2)):
                                continue
                            if m == "rec" and not deep and wrap and form != "float" and ph != "odd":
                                continue
                            ctx.case(f"{m}/{lay}/{value}/{ph}/{form}/{wrap}", tag, ctx, m, lay, value, ph, form, wrap)
    elif s[0] == "refl":
        m = s[1]
        for lay in [(1,), (2,), (3,), (1, 1), (2, 1), (1, 1, 1)]:
            for kind in ["none", "h", "gen"]:
                for ph in PHASES:
                    for route in ["reflection", "diffuser"]:
                        if route == "diffuser" and kind == "none":
                            continue
                        for idx in [None] + [c for r in range(1, len(lay)) for c in itertools.combinations(range(len(lay)), r)]:
                            for wrap in ["", "ctl", "inv"]:
                                if m == "tr" and not deep and (wrap and kind == "h" or ph == "half" or sum(lay) == 3 and kind == "none"):
                                    continue
                                ctx.case(f"{m}/{lay}/{kind}/{ph}/{route}/{idx}/{wrap}", refl, ctx, m, lay, kind, ph, route, idx, wrap)
    elif s[0] == "amp":
        m = s[1]
        for n in ([int(s[2])] if m == "rec" else [2, 3]):
            for mk in subsets(n, m == "rec" and (n < 3 or deep)):
                for kind in ["h", "gen"]:
                    for it in range(5):
                        for two in [False, True]:
                            if m == "tr" and not deep and (two or it != 2 or n == 3 and sum(mk) % 3):
                                continue
                            if n == 3 and two and not deep and it != 2:
                                continue
                            ctx.case(f"{m}/{n}/{mk}/{kind}/{it}/{two}", amplify, ctx, m, n, mk, kind, it, two)
        if m == "rec" and int(s[2]) == 2:
            for mk in subsets(1, True):
                for kind in ["h", "gen"]:
                    for it in range(4):
                        ctx.case(f"{m}/1/{mk}/{kind}/{it}", amplify, ctx, m, 1, mk, kind, it, False)
    elif s[0] == "search":
        m = s[1]
        for n in [2, 3]:
            for mk in subsets(n, n < 3 or (deep and m == "rec")):
                for lay in ["one", "float", "list", "array"]:
                    if m == "tr" and s[2] != lay and not (lay == "float" and s[2] == "one"):
                        continue
                    for it in [None, 0, 1, 2, 3]:
                        if n == 3 and not deep and lay in ("float",):
                            continue
                        if m == "tr" and not deep and (it in (0, 3) or lay == "float" or n == 3 and (lay == "list" or sum(mk) % 2 or it == 1)):
                            continue
                        ctx.case(f"{m}/{n}/{mk}/{it}/{lay}", search, ctx, m, n, mk, it, False, lay, None)
                    if len(mk) > 0 and (m == "rec" or deep):
                        ctx.case(f"{m}/{n}/{mk}/amount/{lay}", search, ctx, m, n, mk, None, False, lay, len(mk))
        if m == "rec":
            for k in range(16):
                ctx.case(f"{m}/4/{k}", search, ctx, m, 4, (k,), None, False, "one", None)
    elif s[0] == "exact":
        for m in ["rec", "tr"]:
            for n in [2, 3]:
                for mk in subsets(n, n < 3 or deep):
                    if not mk or len(mk) == 1 << n:
                        continue
                    for lay in ["one", "list", "array"]:
                        if m == "tr" and not deep and (lay != "one" or n == 3 and len(mk) > 1):
                            continue
                        ctx.case(f"{m}/{n}/{mk}/{lay}", search, ctx, m, n, mk, None, True, lay, len(mk))
    elif s[0] == "count":
        m = s[1]
        for n in [1, 2, 3]:
            for mk in subsets(n, n < 3):
                for prec in [1, 2, 3, 4]:
                    if n == 3 and (sum(mk) % 2 or prec == 4) and not deep:
                        continue
                    if m == "tr" and not deep and (n == 3 or prec == 4):
                        continue
                    ctx.case(f"{m}/{n}/{mk}/{prec}", counting, ctx, m, n, mk, prec)
    elif s[0] == "walk":
        depth, deg = (2, 4) if s[1] == "q" else (int(s[1]), 2)
        ps = paths(depth, deg)
        one = [()] + [(p,) for p in ps]
        if s[1] in "12" and deep:
            one += list(itertools.combinations(ps, 2))
        for acc in one:
            for rej in one:
                if set(acc) & set(rej):
                    continue
                if not deep and s[1] in "3q" and (acc and rej or any(len(p) > 1 and sum(p) % 3 for p in acc + rej)):
                    if (acc, rej) not in KEEP:
                        continue
                if not deep and s[1] == "2" and acc and rej and sum(acc[0]) + sum(rej[0]) != 1:
                    continue
                for what in ["even", "odd", "step", "ctl0", "ctl1"]:
                    if s[1] == "q" and s[2] != (what if what != "ctl0" else "odd"):
                        continue
                    if what == "step" and (s[1] in "3q" or acc and rej) or what == "ctl0" and (acc and rej):
                        continue
                    for opt in [False] + ([True] if not rej else []):
                        if s[1] == "q" and not deep and (what == "ctl0" or opt or acc and len(acc[0]) == 2 and what == "even"):
                            continue
                        if opt and s[1] in "3q" and what != "ctl1":
                            continue
                        ctx.case(f"{s[1]}/{acc}/{rej}/{what}/{opt}", walk, ctx, depth, deg, acc, rej, what, opt)
    elif s[0] == "phi":
        for depth, deg in [(1, 2), (2, 2), (3, 2), (2, 4)]:
            for p in paths(depth, deg):
                ctx.case(f"{depth}/{deg}/{p}", phi_state, ctx, depth, deg, p, None)
                for r in paths(depth, deg):
                    if len(r) + len(p) <= depth:
                        ctx.case(f"sub/{depth}/{deg}/{r}/{p}", sub_node, ctx, depth, deg, r, p)
                        if len(r) < depth:
                            ctx.case(f"subphi/{depth}/{deg}/{r}/{p}", phi_state, ctx, depth, deg, p, r)
    elif s[0] == "estimate":
        for depth, deg, pr in [(1, 2, 3), (2, 2, 3), (2, 2, 4), (3, 2, 3)]:
            if (depth == 3) != (s[1] == "3"):
                continue
            one = [()] + [(p,) for p in paths(depth, deg)]
            for acc in one:
                for rej in one:
                    if set(acc) & set(rej) or not deep and (depth == 3 and (acc and rej or any(sum(p) % 2 for p in acc + rej)) or pr == 4 and acc and rej):
                        continue
                    for opt in [False] + ([True] if not rej else []):
                        ctx.case(f"{depth}/{deg}/{pr}/{acc}/{rej}/{opt}", estimate, ctx, depth, deg, acc, rej, pr, opt)
    elif s[0] == "solve":
        for depth, deg, pr in [(1, 2, 4), (2, 2, 4)] + ([(3, 2, 5)] if deep else []):
            ps = paths(depth, deg)
            for acc in [()] + [(p,) for p in ps] + list(itertools.combinations(ps, 2)):
                for rej in [()] + [(p,) for p in ps if p and p not in acc and len(p) < depth]:
                    if not deep and len(acc) == 2 and (rej or sum(acc[0]) + sum(acc[1]) == 2):
                        continue
                    ctx.case(f"{depth}/{acc}/{rej}", solve, ctx, depth, deg, acc, rej, pr)
