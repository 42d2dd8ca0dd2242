"""All readout routes against the exact program state."""
import itertools, math
import numpy as np
import sympy as sp
import qrisp as q

NOTE = "every program over the token alphabet up to the depth bound on three variables of different types x every readout route (single, joint over every ordered subset, batched, statevector as array, function and symbolic expression, rounded variants, substitution at readout); each must give the distribution or amplitudes of the reference state in the variables' own labels, and leave the program as it was"

# qubits: f0 f1 (fixed point number, step 0.5), b (boolean), v0 (bit string)
N = 4
F0, F1, B, V = range(N)
ANG = [0.7, 1.1, 1.9, 2.5]


def ry(f):
    return np.array([[math.cos(f / 2), -math.sin(f / 2)], [math.sin(f / 2), math.cos(f / 2)]], dtype=complex)


def rx(f):
    return np.array([[math.cos(f / 2), -1j * math.sin(f / 2)], [-1j * math.sin(f / 2), math.cos(f / 2)]])


H = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)
X = np.array([[0, 1], [1, 0]], dtype=complex)
S = np.diag([1, 1j])
CX = np.eye(4, dtype=complex)[[0, 1, 3, 2]]
P = lambda f: np.diag([1, np.exp(1j * f)])


def app(psi, U, qs):
    k = len(qs)
    T = np.moveaxis(psi, qs, range(k))
    sh = T.shape
    T = (U @ T.reshape(1 << k, -1)).reshape(sh)
    return np.moveaxis(T, range(k), qs)


def incr(psi):
    out = np.zeros_like(psi)
    for i in itertools.product((0, 1), repeat=N):
        k = (i[0] + 2 * i[1] + 1) % 4
        out[(k & 1, k >> 1) + i[2:]] = psi[i]
    return out


class Z:
    def __init__(self):
        self.f, self.b, self.v = q.QuantumFloat(2, -1, name="f"), q.QuantumBool(name="b"), q.QuantumVariable(1, name="v")
        q.merge([self.f, self.b, self.v])
        self.qb = list(self.f) + list(self.b) + list(self.v)
        self.vars = [self.f, self.b, self.v]


def cond(z):
    with z.f == 1:
        q.x(z.v[0])


def ctl(z):
    with q.control(z.b[0], ctrl_state=0):
        q.h(z.f[0])


def condr(psi):
    out = psi.copy()
    out[0, 1, :, 0], out[0, 1, :, 1] = psi[0, 1, :, 1].copy(), psi[0, 1, :, 0].copy()
    return out


def add(z):
    z.f += 0.5


def tmp(z):
    t = q.QuantumBool(name="t*")
    q.mcx([z.f[0], z.b[0]], t)
    q.cx(t, z.v)
    q.mcx([z.f[0], z.b[0]], t)
    t.delete()


CCX = np.eye(8, dtype=complex)[[0, 1, 2, 3, 4, 5, 7, 6]]
TOK = {
    "h f0": (lambda z: q.h(z.f[0]), lambda s: app(s, H, (F0,))),
    "h v": (lambda z: q.h(z.v), lambda s: app(s, H, (V,))),
    "x b": (lambda z: q.x(z.b), lambda s: app(s, X, (B,))),
    "x f1": (lambda z: q.x(z.f[1]), lambda s: app(s, X, (F1,))),
    "s f0": (lambda z: q.s(z.f[0]), lambda s: app(s, S, (F0,))),
    "ry f1": (lambda z: q.ry(0.7, z.f[1]), lambda s: app(s, ry(0.7), (F1,))),
    "rx b": (lambda z: q.rx(1.1, z.b), lambda s: app(s, rx(1.1), (B,))),
    "f0>b": (lambda z: q.cx(z.f[0], z.b[0]), lambda s: app(s, CX, (F0, B))),
    "b>v": (lambda z: q.cx(z.b, z.v), lambda s: app(s, CX, (B, V))),
    "cond": (cond, condr),
    "ctl": (ctl, lambda s: app(s, np.kron(np.diag([1, 0]), H) + np.kron(np.diag([0, 1]), np.eye(2)), (B, F0))),
    "add": (add, incr),
    "tmp": (tmp, lambda s: app(s, CCX, (F0, B, V))),
}


def prep(z):
    for a, qb in zip(ANG, z.qb):
        q.ry(a, qb)


def reference(start, steps):
    s = np.zeros([2] * N, dtype=complex)
    s[(0,) * N] = 1
    if start == "mix":
        for i, a in enumerate(ANG):
            s = app(s, ry(a), (i,))
    for t in steps:
        s = TOK[t][1](s)
    return s


def build(start, steps):
    z = Z()
    if start == "mix":
        prep(z)
    for t in steps:
        TOK[t][0](z)
    return z


def label(k, bits):
    return [(bits[0] + 2 * bits[1]) / 2, bool(bits[2]), str(bits[3])][k]


def dist(psi, order):
    d = {}
    for i in itertools.product((0, 1), repeat=N):
        p = abs(psi[i]) ** 2
        if p > 1e-9:
            key = tuple(label(k, i) for k in order)
            d[key] = d.get(key, 0) + p
    return d


def same(got, want, what):
    got = dict(got)
    for k in set(got) | set(want):
        if abs(got.get(k, 0) - want.get(k, 0)) > 2e-3:
            return f"{what}: probability of {k} is {got.get(k, 0)}, expected {want.get(k, 0):.4f}"
    vals = list(got.values())
    if abs(sum(vals) - 1) > 5e-3:
        return f"{what}: probabilities sum to {sum(vals)}"
    if any(vals[i] < vals[i + 1] - 1e-12 for i in range(len(vals) - 1)):
        return f"{what}: results are not ordered by decreasing probability: {got}"


def routes(ctx, start, steps, deep):
    psi = reference(start, steps)
    z = build(start, steps)
    qs = z.f.qs
    before = [str(v.name) for v in qs.qv_list]
    for k, v in enumerate(z.vars):
        got = v.get_measurement()
        bad = same(got, {a[0]: p for a, p in dist(psi, [k]).items()}, f"measuring {v.name}")
        if bad:
            return bad
        ctx.step()
    ev = z.f.get_ev()
    if abs(ev - sum(k[0] * p for k, p in dist(psi, [0]).items())) > 5e-3:
        return f"expectation value of f is {ev}"
    ml = z.f.most_likely()
    d0 = dist(psi, [0])
    if d0[(ml,)] < max(d0.values()) - 2e-3:
        return f"most likely value of f is {ml}"
    orders = [o for n in ((1, 2, 3) if deep else (2, 3)) for o in itertools.permutations(range(3), n)]
    if not deep:
        orders = orders[::3] + [(0, 1, 2)]
    for o in orders:
        got = q.multi_measurement([z.vars[k] for k in o])
        bad = same(got, dist(psi, o), f"joint measurement of {[z.vars[k].name for k in o]}")
        if bad:
            return bad
        ctx.step()
    # amplitudes
    f = qs.statevector("function")
    amps = np.zeros([2] * N, dtype=complex)
    for i in itertools.product((0, 1), repeat=N):
        amps[i] = f({v: label(k, i) for k, v in enumerate(z.vars)})
    ph = np.vdot(psi, amps)
    if abs(abs(ph) - 1) > 1e-4 or np.abs(amps - psi * ph / abs(ph)).max() > 1e-3:
        return f"statevector function differs from the exact amplitudes (overlap {abs(ph):.4f})"
    arr = np.asarray(qs.statevector("array")).reshape(-1)
    comp = qs.compile()
    pos = {qb: i for i, qb in enumerate(comp.qubits)}
    n = len(comp.qubits)
    for i in itertools.product((0, 1), repeat=N):
        idx = sum(b << (n - 1 - pos[qb]) for b, qb in zip(i, z.qb))
        if abs(arr[idx] - amps[i]) > 1e-4:
            return f"statevector array and function disagree at {i}"
    arr3 = np.asarray(qs.statevector("array", decimals=2)).reshape(-1)
    if np.abs(arr3 - np.round(arr, 2)).max() > 1e-6:
        return "rounded statevector array is not the rounded array"
    if deep:
        for dec in (None, 4):
            expr = qs.statevector("sympy", decimals=dec)
            bad = symbolic(expr, amps, z)
            if bad:
                return f"symbolic statevector (decimals={dec}): {bad}"
            ctx.step()
    if [str(v.name) for v in qs.qv_list] != before:
        return "reading out changed the list of variables"
    again = z.f.get_measurement()
    bad = same(again, {a[0]: p for a, p in dist(psi, [0]).items()}, "measuring f again")
    if bad:
        return bad
    ctx.state(f"{start}:{steps}")


def norm(s):
    try:
        return float(sp.Rational(s))
    except Exception:
        return s


def terms(expr):
    expr = sp.expand(expr)
    return sp.Add.make_args(expr)


def symbolic(expr, amps, z):
    from sympy.physics.quantum import OrthogonalKet
    got = {}
    for t in terms(expr):
        kets = [a for a in sp.Mul.make_args(t) if isinstance(a, OrthogonalKet)]
        coef = sp.Mul(*[a for a in sp.Mul.make_args(t) if not isinstance(a, OrthogonalKet)])
        names = tuple(norm(str(k.label[0])) for k in kets)
        got[names] = got.get(names, 0) + complex(coef.evalf())
    order = [v.name for v in z.f.qs.qv_list]
    want = {}
    for i in itertools.product((0, 1), repeat=N):
        lab = {"f": label(0, i), "b": label(1, i), "v": label(2, i)}
        want[tuple(norm(str(lab[n])) for n in order)] = amps[i]
    for k in got:
        if k not in want:
            return f"unexpected term {k}"
    for k, a in want.items():
        if abs(got.get(k, 0) - a) > 3e-3:
            return f"amplitude of {k} is {got.get(k, 0):.4f}, expected {a:.4f}"


def params(ctx, steps, where):
    """A symbolic angle, substituted at readout or before."""
    t = sp.Symbol("theta")
    for val in (0.0, 0.4, 2.0, -1.3):
        res = []
        for angle, sub in ((t, {t: val}), (val, {})):
            z = Z()
            prep(z)
            for k, s in enumerate(steps):
                if k == where:
                    q.rx(angle, z.f[0])
                    q.cp(2 * angle, z.f[0], z.b[0])
                    q.h(z.b)
                TOK[s][0](z)
            if where >= len(steps):
                q.rx(angle, z.f[0])
                q.cp(2 * angle, z.f[0], z.b[0])
                q.h(z.b)
            res.append([dict(v.get_measurement(subs_dic=sub)) for v in z.vars])
            ctx.step()
        for a, b in zip(*res):
            for k in set(a) | set(b):
                if abs(a.get(k, 0) - b.get(k, 0)) > 2e-3:
                    return f"substituting {val} at readout gives {a}, before gives {b}"
    ctx.state(f"param{steps}{where}")


def midmeasure(ctx, steps, which):
    """A mid-circuit measurement leaves extra classical bits in the session."""
    z = build("mix", steps)
    psi = reference("mix", steps)
    q.measure(z.qb[which])
    for o in ((0, 1), (2, 0), (0, 1, 2)):
        bad = same(q.multi_measurement([z.vars[k] for k in o]), dist(psi, o), f"joint measurement after measuring qubit {which}")
        if bad:
            return bad
        ctx.step()
    for k, v in enumerate(z.vars):
        bad = same(v.get_measurement(), {a[0]: p for a, p in dist(psi, [k]).items()}, f"measuring {v.name} after measuring qubit {which}")
        if bad:
            return bad
    ctx.state(f"mid{steps}{which}")


def batched(ctx, progs):
    """Several independent programs read through one batched call."""
    from qrisp.interface import BatchedBackend
    from qrisp.interface.simulators.qrisp_simulator_backend import QrispSimulatorBackend
    zs = [build("mix", p) for p in progs]
    backend = BatchedBackend(QrispSimulatorBackend())
    got = q.batched_measurement([z.f for z in zs], backend=backend)
    for p, g in zip(progs, got):
        want = {a[0]: x for a, x in dist(reference("mix", p), [0]).items()}
        g = dict(g)
        for k in set(g) | set(want):
            if abs(g.get(k, 0) - want.get(k, 0)) > 2e-3:
                return f"batched result of {p} is {g}, expected {want}"
    ctx.state(f"batch{progs}")
    ctx.step(len(progs))


def symstate(ctx, gates):
    """Statevector with a free angle, compared at several angles with the statevector at that angle."""
    t = sp.Symbol("theta", real=True)

    def prog(a):
        z = Z()
        for g in gates:
            {"rx": lambda: q.rx(a, z.f[0]), "ry": lambda: q.ry(a, z.b), "rz": lambda: q.rz(a, z.f[0]), "p": lambda: q.p(a, z.b),
             "h": lambda: q.h(z.f[0]), "cx": lambda: q.cx(z.f[0], z.b[0]), "hb": lambda: q.h(z.b), "ry2": lambda: q.ry(2 * a, z.v)}[g]()
        return z

    expr = prog(t).f.qs.statevector("sympy")
    for val in (0.3, 1.7, -0.9):
        z = prog(val)
        f = z.f.qs.statevector("function")
        amps = np.zeros([2] * N, dtype=complex)
        for i in itertools.product((0, 1), repeat=N):
            amps[i] = f({v: label(k, i) for k, v in enumerate(z.vars)})
        bad = symbolic(expr.subs(t, val), amps, z)
        if bad:
            return f"at angle {val}: {bad}; expression {expr}"
        ctx.step()
    ctx.state(f"free{gates}")


def precomp(ctx, steps):
    z = build("mix", steps)
    psi = reference("mix", steps)
    qc = z.f.qs.compile()
    if steps and "cond" not in steps and "ctl" not in steps:
        got = z.f.get_measurement(compile=False)
        bad = same(got, {a[0]: p for a, p in dist(psi, [0]).items()}, "measuring f without compilation")
        if bad:
            return bad
    n = len(qc.data)
    for k, v in enumerate(z.vars):
        bad = same(v.get_measurement(precompiled_qc=qc), {a[0]: p for a, p in dist(psi, [k]).items()}, f"measuring {v.name} on a precompiled circuit")
        if bad:
            return bad
        ctx.step()
    if len(qc.data) != n:
        return "reading out changed the precompiled circuit"

    def pre(c):
        d = c.clearcopy()
        for i in c.data:
            d.append(i.op, i.qubits, i.clbits)
        return d

    for k, v in enumerate(z.vars):
        bad = same(v.get_measurement(circuit_preprocessor=pre), {a[0]: p for a, p in dist(psi, [k]).items()}, f"measuring {v.name} through a copying preprocessor")
        if bad:
            return bad
        ctx.step()
    ctx.state(f"pre{steps}")


def arrays(ctx, shape, steps, post):
    """Array entries read jointly with a variable, before and after view operations."""
    z = Z()
    prep(z)
    arr = q.QuantumArray(q.QuantumFloat(1, -1), shape)
    q.merge([arr[(0,) * len(shape)], z.f])
    cells = list(np.ndindex(*shape))
    for c in cells:
        q.ry(0.5 + 0.4 * sum(x * (2 ** k) for k, x in enumerate(c)), arr[c][0])
    for kind, a in steps:
        c = cells[a % len(cells)]
        if kind == "cx":
            q.cx(arr[c][0], z.b[0])
        elif kind == "xc":
            q.cx(z.f[0], arr[c][0])
        else:
            q.x(arr[c][0])
    # reference over len(cells) + 4 qubits
    m = len(cells)
    psi = np.zeros([2] * (m + N), dtype=complex)
    psi[(0,) * (m + N)] = 1
    for k, c in enumerate(cells):
        psi = app(psi, ry(0.5 + 0.4 * sum(x * (2 ** j) for j, x in enumerate(c))), (k,))
    for i, a in enumerate(ANG):
        psi = app(psi, ry(a), (m + i,))
    for kind, a in steps:
        k = a % m
        psi = app(psi, *{"cx": (CX, (k, m + B)), "xc": (CX, (m + F0, k)), "x": (X, (k,))}[kind])
    pos = np.arange(m).reshape(shape)
    if post == "T":
        arr, pos = arr.transpose(), pos.transpose()
    elif post == "flat":
        arr, pos = arr.reshape(m), pos.reshape(m)
    elif post == "rev":
        arr, pos = arr[::-1], pos[::-1]
    elif post == "part":
        arr, pos = arr[1:], pos[1:]
    want = {"a": {}, "ab": {}, "ba": {}}
    for i in itertools.product((0, 1), repeat=m + N):
        p = abs(psi[i]) ** 2
        val = tuple(0.5 * i[k] for k in pos.reshape(-1))
        for n, key in (("a", (pos.shape, val)), ("ab", ((pos.shape, val), bool(i[m + B]))), ("ba", (label(0, i[m:]), (pos.shape, val)))):
            want[n][key] = want[n].get(key, 0) + p
    key = lambda a: (tuple(np.shape(a)), tuple(float(x) for x in np.asarray(a).reshape(-1)))
    got = {"a": {key(k): v for k, v in dict(arr.get_measurement()).items()},
           "ab": {(key(k[0]), k[1]): v for k, v in dict(q.multi_measurement([arr, z.b])).items()},
           "ba": {(k[0], key(k[1])): v for k, v in dict(q.multi_measurement([z.f, arr])).items()}}
    for n in got:
        bad = same(got[n], {k: v for k, v in want[n].items() if v > 1e-9}, f"array readout {n}")
        if bad:
            return bad
        ctx.step()
    ctx.state(f"arr{shape}{steps}{post}")


def shards(tier):
    return ["0", "free", "pre", "arr1", "arr2"] + [f"2/{t}" for t in TOK] + ["sym", "param", "mid", "batch"] + ([] if tier == "quick" else [f"3/{t}" for t in TOK])


def run(shard, ctx):
    quick = ctx.tier == "quick"
    if shard == "0":
        for st in ("zero", "mix"):
            ctx.case(f"{st}/", routes, ctx, st, (), True)
            for t in TOK:
                ctx.case(f"{st}/{t}", routes, ctx, st, (t,), True)
    elif shard.startswith("2/") or shard.startswith("3/"):
        n = int(shard[0]) - 1
        for rest in itertools.product(TOK, repeat=n):
            steps = (shard[2:],) + rest
            for st in ("zero", "mix"):
                ctx.case(f"{st}/{','.join(steps)}", routes, ctx, st, steps, not quick and n == 1)
    elif shard == "sym":
        for steps in itertools.product(["h f0", "s f0", "ry f1", "b>v", "rx b", "f0>b"], repeat=2):
            ctx.case(f"sym/{','.join(steps)}", routes, ctx, "zero", steps, True)
    elif shard == "param":
        for steps in itertools.product(["h f0", "cond", "b>v", "add"], repeat=2):
            for w in range(3):
                ctx.case(f"param/{','.join(steps)}/{w}", params, ctx, steps, w)
    elif shard == "mid":
        for steps in itertools.product(["h f0", "f0>b", "b>v", "add", "x b"], repeat=2):
            for w in range(N):
                ctx.case(f"mid/{','.join(steps)}/{w}", midmeasure, ctx, steps, w)
    elif shard == "free":
        al = ["rx", "ry", "rz", "p", "h", "cx", "hb", "ry2"]
        for gates in itertools.product(al, repeat=2 if quick else 3):
            ctx.case(f"free/{','.join(gates)}", symstate, ctx, gates, timeout=120)
    elif shard == "pre":
        for steps in [(a,) for a in TOK] + list(itertools.product(TOK, repeat=2)):
            ctx.case(f"pre/{','.join(steps)}", precomp, ctx, steps)
    elif shard in ("arr1", "arr2"):
        acts = [(k, c) for k in ("cx", "xc", "x") for c in (0, 1, 3)]
        for shape in ([(2,), (3,)] if shard == "arr1" else [(2, 2), (1, 3)]):
            for steps in [(a,) for a in acts] + (list(itertools.product(acts, repeat=2)) if not quick else list(zip(acts, acts[1:]))):
                for post in ["", "flat", "T"] + (["rev", "part"] if shape[0] > 1 else []):
                    ctx.case(f"arr/{shape}/{steps}/{post}", arrays, ctx, shape, steps, post)
    elif shard == "batch":
        for a, b in itertools.product(TOK, repeat=2):
            ctx.case(f"batch/{a}/{b}", batched, ctx, ((a,), (b, a), (b,)))


RULE = "readout = reference distribution/amplitudes"
