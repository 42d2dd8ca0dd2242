"""State preparation: every amplitude vector over a small alphabet, every route, recorded and traced."""
import itertools
import math
import numpy as np
import qrisp as q
from qrisp.alg_primitives.state_preparation import prepare
from mc import prog, jsim

NOTE = "all amplitude vectors over {0, 1, -1, i} on one and two qubits, all supports with graded complex amplitudes on three qubits, both bit orders, methods auto, qiskit and qswitch recorded and traced (fixed and run-time arrays), plain, controlled (with the phase) and undone; dictionaries over every type; generalised W states for all amplitude vectors over four values on up to four qubits; Dicke states for all sizes up to 5, all weights and all lower weights; malformed requests"


def norm(a):
    a = np.array(a, dtype=complex)
    return a / np.linalg.norm(a)


def judge(tab, want, wrap, n, phase=True):
    """tab over (control copy, control, register)."""
    got = np.zeros((2, 1 << n), dtype=complex)
    for k, amp in tab.items():
        if abs(amp) < 1e-5:
            continue
        if k[0] != k[1]:
            return "the control qubit changed"
        if k[-1]:
            return f"helper qubits end in {k[-1]:b}"
        got[k[0], k[2]] += amp * np.sqrt(2)
    zero = np.zeros(1 << n)
    zero[0] = 1
    w0, w1 = (zero, want) if wrap == "ctl" else (zero, zero) if wrap == "undo" else (want, want)
    ref = np.array([w0, w1])
    if np.max(np.abs(got - ref)) < 2e-3:
        return None
    if not phase and wrap != "ctl" and prog.phase_equal(got, ref, 2e-3):
        return None
    return f"amplitudes {np.round(got, 3).tolist()}, requested {np.round(ref, 3).tolist()}"


TRACES = {}


def execute(mode, build, arg=(), key=None):
    if mode == "rec":
        vs = build(*arg)
        q.merge(list(vs))
        return [prog.table(vs[0].qs, list(vs))]
    if key:
        # one trace serves every run-time argument
        if key not in TRACES:
            from qrisp.jasp import make_jaspr
            TRACES[key] = make_jaspr(build)(*arg)
        r = TRACES[key].to_qc(*arg)
        res, qc = r[:-1], r[-1]
    else:
        res, qc = jsim.circuit(build, *arg)
    return [t for _, _, t in prog.branch_tables(qc, [list(g) for g in res if isinstance(g, (list, tuple))][:3])]


def scaffold(make, act, wrap):
    def build(*arg):
        c, e, v = q.QuantumVariable(1), q.QuantumVariable(1), make()
        q.h(c[0])
        q.cx(c[0], e[0])
        if wrap == "ctl":
            with q.control(e[0]):
                act(v, *arg)
        else:
            act(v, *arg)
        if wrap == "undo":
            with q.invert():
                act(v, *arg)
        return c, e, v
    return build


def array(ctx, mode, amps, route, reverse, wrap):
    n = int(np.log2(len(amps)))
    want = norm(amps)
    if reverse:
        want = want[[int(format(i, f"0{n}b")[::-1], 2) for i in range(1 << n)]]
    a = np.array(amps, dtype=complex)
    arg = ()
    if route == "init":
        act = lambda v: v.init_state(a)
    elif route == "list":
        act = lambda v: v.init_state([complex(x) for x in amps])
    elif route == "dyn":
        act = lambda v, x: prepare(v, x, reversed=reverse)
        import jax.numpy as jnp
        arg = (jnp.array(a),)
    elif route == "initq":
        act = lambda v: v.init_state(a, method="qswitch")
    else:
        act = lambda v: prepare(v, a, reversed=reverse, method=route)
    ctx.step()
    ctx.state((mode, tuple(amps), route, reverse, wrap))
    for tab in execute(mode, scaffold(lambda: q.QuantumVariable(n), act, wrap), arg, (n, reverse, wrap) if route == "dyn" else None):
        r = judge(tab, want, wrap, n)
        if r:
            return r


TYPES = {
    "u": (lambda: q.QuantumFloat(2), [0, 1, 2, 3], [0, 1, 2, 3]), "s": (lambda: q.QuantumFloat(1, signed=True), [-1, 1, -2, 0], [3, 1, 2, 0]), "e": (lambda: q.QuantumFloat(2, -1), [0.5, 0, 1.5, 1.0], [1, 0, 3, 2]), "bool": (lambda: q.QuantumBool(), [False, True], [0, 1]), "mod": (lambda: q.QuantumModulus(3), [2, 0, 1], [2, 0, 1]), "label": (lambda: q.custom_qv(["x", "y", "z"]), ["z", "x", "y"], [2, 0, 1]), "var": (lambda: q.QuantumVariable(2), ["10", "01", "11", "00"], [1, 2, 3, 0]),
}


def dictionary(ctx, kind, idx, vals, method, wrap):
    make, labels, raw = TYPES[kind]
    n = make().size
    d = {labels[i]: complex(v) for i, v in zip(idx, vals)}
    want = np.zeros(1 << n, dtype=complex)
    for i, v in zip(idx, vals):
        want[raw[i]] += v
    ctx.step()
    ctx.state((kind, idx, vals, method, wrap))
    for tab in execute("rec", scaffold(make, lambda v: v.init_state(d, method=method), wrap)):
        r = judge(tab, norm(want), wrap, n)
        if r:
            return r
    v = make()
    v.init_state(d, method=method)
    m = v.get_measurement()
    t = np.sum(np.abs(vals) ** 2)
    if {k: round(p, 3) for k, p in m.items()} != {labels[i]: round(abs(x) ** 2 / t, 3) for i, x in zip(idx, vals)}:
        return f"reads {m}"


def wstate(ctx, mode, amps, wrap, aslist):
    n = len(amps)
    want = np.zeros(1 << n, dtype=complex)
    for i, a in enumerate(norm(amps)):
        want[1 << i] = a
    act = lambda v: q.unbalanced_w_state(list(v.reg) if aslist else v, np.array(amps, dtype=complex))
    ctx.step()
    ctx.state((mode, amps, wrap, aslist))
    for tab in execute(mode, scaffold(lambda: q.QuantumVariable(n), act, wrap)):
        r = judge(tab, want, wrap, n)
        if r:
            return r


def dicke(ctx, mode, n, k, j, wrap, dyn, aslist):
    """Weight-j seed on the last qubits becomes the Dicke state of weight j, for every j <= k."""
    want = np.zeros(1 << n, dtype=complex)
    for ones in itertools.combinations(range(n), j):
        want[sum(1 << i for i in ones)] = 1 / math.sqrt(math.comb(n, j))
    seed = sum(1 << i for i in range(n - j, n))

    def build(*arg):
        c, e, v = q.QuantumVariable(1), q.QuantumVariable(1), q.QuantumVariable(n)
        q.h(c[0])
        q.cx(c[0], e[0])
        for i in range(n - j, n):
            q.x(v[i])
        w = list(v.reg) if aslist else v
        kk = arg[0] if dyn else k
        if wrap == "ctl":
            with q.control(e[0]):
                q.dicke_state(w, kk)
        else:
            q.dicke_state(w, kk)
        if wrap == "undo":
            with q.invert():
                q.dicke_state(w, kk)
        if wrap in ("ctl", "undo"):
            # make the reference state the zero state
            for i in range(n - j, n):
                if wrap == "undo":
                    q.x(v[i])
                else:
                    q.cx(e[0], v[i])
                    q.x(v[i])
        return c, e, v
    ctx.step()
    ctx.state((mode, n, k, j, wrap, dyn, aslist))
    if wrap == "ctl":
        w2 = np.zeros(1 << n, dtype=complex)
        for i, a in enumerate(want):
            w2[i] = a
        # on the active branch the trailing flips are cx and x together: identity
    for tab in execute(mode, build, (k,) if dyn else ()):
        r = judge(tab, want, wrap, n)
        if r:
            return r


def refuse(ctx, what):
    bad = {
        "long": lambda: q.QuantumVariable(1).init_state([1, 0, 0, 1]), "short": lambda: q.QuantumVariable(2).init_state([1, 1]), "zero": lambda: q.QuantumVariable(1).init_state([0, 0]), "plong": lambda: prepare(q.QuantumVariable(1), np.array([1, 0, 0, 1]), method="qswitch"), "pzero": lambda: prepare(q.QuantumVariable(1), np.array([0, 0]), method="qswitch"), "dzero": lambda: q.QuantumFloat(2).init_state({1: 0}), "dkey": lambda: q.custom_qv(["x", "y"]).init_state({"q": 1}), "wlong": lambda: q.unbalanced_w_state(q.QuantumVariable(2), [1, 1, 1]), "wzero": lambda: q.unbalanced_w_state(q.QuantumVariable(2), [0, 0]),
    }
    ctx.step()
    ctx.state((what,))
    try:
        bad[what]()
    except Exception:
        return None
    return "accepted"


REFUSE = ("long", "short", "zero", "plong", "pzero", "dzero", "dkey", "wlong", "wzero")


def vectors(n, tier):
    al = (0, 1, -1, 1j)
    if n == 1:
        al = (0, 1, -1, 1j, 0.6 - 0.8j, -2.5)
    if n < 3:
        return [v for v in itertools.product(al, repeat=1 << n) if any(v)]
    out = []
    for mask in range(1, 256):
        out.append(tuple((0.5 + (i % 3)) * (1, 1j, -1, -1j, 1 + 1j)[(i * i + mask) % 5] if mask >> i & 1 else 0 for i in range(8)))
    return out


def shards(tier):
    out = []
    for r in ("auto", "qiskit", "qswitch"):
        out += [f"arr/{r}/{i}" for i in range(4 if r == "qswitch" else 2)]
    return [f"tr/{r}/{i}" for r in ("qswitch", "dyn") for i in (1, 2, 3)] + out + ["init", "dict", "w/rec", "w/tr", "dicke/rec", "dicke/tr", "refuse"]


def run(shard, ctx):
    quick = ctx.tier == "quick"
    p = shard.split("/")
    if p[0] == "arr":
        parts = 4 if p[1] == "qswitch" else 2
        for n in (1, 2, 3):
            for i, v in enumerate(vectors(n, ctx.tier)):
                if i % parts != int(p[2]):
                    continue
                combos = [(w, r) for w in ("plain", "ctl", "undo") for r in (False, True)]
                if n > 1 and quick:
                    k = (i // parts)
                    combos = [combos[k % 6]] if p[1] == "qswitch" or n == 3 else [combos[k % 6], combos[(k + 3) % 6]]
                    if p[1] == "qswitch" and n == 3 and k % 3:
                        continue
                    if n == 3 and p[1] == "auto" and k % 2:
                        continue
                for w, r in combos:
                    ctx.case(f"arr/{p[1]}/{n}/{i}/{r}/{w}", array, ctx, "rec", v, p[1], r, w)
    elif p[0] == "tr":
        n = int(p[2])
        full = [(w, r) for w in ("plain", "ctl", "undo") for r in (False, True)]
        part = [("plain", False), ("ctl", True), ("undo", False)]
        vs = vectors(n, ctx.tier)
        for i, v in enumerate(vs):
            if quick and p[1] == "qswitch":
                if i % {1: 7, 2: 51, 3: 51}[n]:
                    continue
                combos = [full[i % 6]]
            elif quick:
                if i % {1: 2, 2: 6, 3: 11}[n]:
                    continue
                combos = [part[i // {1: 2, 2: 6, 3: 11}[n] % 3]]
            else:
                combos = full if n == 1 else [full[i % 6], full[(i + 3) % 6]]
            for w, r in combos:
                ctx.case(f"tr/{p[1]}/{n}/{i}/{r}/{w}", array, ctx, "tr", v, p[1], r, w)
    elif p[0] == "init":
        for n in (1, 2):
            for i, v in enumerate(vectors(n, ctx.tier)):
                for route in ("init", "list", "initq"):
                    if n == 2 and quick and i % (3 if route != "initq" else 7):
                        continue
                    ctx.case(f"init/{route}/{n}/{i}", array, ctx, "rec", v, route, False, "plain")
    elif p[0] == "dict":
        for kind, (mk, labels, raw) in TYPES.items():
            for size in range(1, len(labels) + 1):
                for idx in itertools.permutations(range(len(labels)), size):
                    if quick and size > 2 and idx[0] > idx[1]:
                        continue
                    vals = (1, -2, 1j, 0.5 - 1j)[:size]
                    m, w = ("auto", "qswitch", "qiskit")[sum(idx) % 3], ("plain", "ctl")[(sum(idx) + size) % 2]
                    ctx.case(f"dict/{kind}/{idx}/{m}/{w}", dictionary, ctx, kind, idx, vals, m, w)
    elif p[0] == "w":
        for n in (1, 2, 3, 4):
            for i, v in enumerate(v for v in itertools.product((0, 1, -1, 2j), repeat=n) if any(v)):
                if quick and n == 4 and i % (4 if p[1] == "rec" else 40) or p[1] == "tr" and n == 3 and quick and i % 5:
                    continue
                for w, al in (("plain", False), ("ctl", False), ("undo", True)):
                    if n > 2 and quick and w != ("plain", "ctl", "undo")[i % 3]:
                        continue
                    if al and p[1] == "tr":
                        continue
                    ctx.case(f"w/{p[1]}/{n}/{i}/{w}", wstate, ctx, p[1], v, w, al)
    elif p[0] == "dicke":
        for n in range(1, (5 if p[1] == "rec" else 4) + (0 if quick else 1)):
            for k in range(1, n + 1):
                for j in range(k + 1):
                    for w in ("plain", "ctl", "undo"):
                        for dyn in ((False, True) if p[1] == "tr" else (False,)):
                            if quick and p[1] == "tr" and (w == "undo" or dyn and w == "ctl"):
                                continue
                            ctx.case(f"dicke/{p[1]}/{n}/{k}/{j}/{w}/{dyn}", dicke, ctx, p[1], n, k, j, w, dyn, p[1] == "rec" and (n + k) % 2 == 0)
    elif p[0] == "refuse":
        for w in REFUSE:
            ctx.case(f"refuse/{w}", refuse, ctx, w)


RULE = "every preparation route yields the requested normalised amplitudes, controlled and undone, or refuses"
