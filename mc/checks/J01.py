"""Traced execution computes what recorded execution computes."""
import itertools
import numpy as np
import qrisp as q
from qrisp import jasp
from mc import prog, jsim, tprog

NOTE = "all pairs of statements from an alphabet of gates with computed indices and angles, loops over argument and measured ranges, branches, switches, while loops, cached calls, slices, fresh registers, deleted helpers, kernels, measurements and resets, each alone and nested inside every kind of control flow, for all argument values 0..2 x 0..2; executed as simulated run (every measurement history enumerated), as extracted circuit and as exact sampled run, and where measurement-free also directly; oracle: branching interpreter of the same syntax tree"

PRE = [("g", "h", 0), ("r", "ry", 0.9, 1), ("g", "cx", 0, 2), ("r", "p", 0.7, 2)]

GATES = {
    "gk": [("g", "h", "k")],
    "cxk": [("g", "cx", "k", "(k+1)%3")],
    "mcx": [("g", "mcx", "k", "(k+1)%3", "(k+2)%3")],
    "cp": [("r", "cp", "0.3*k+0.2*m", "m", "(m+1)%3")],
    "rz": [("r", "rx", "0.4*m-0.3*k", "(k+m)%3")],
    "loop": [("for", 0, "k+1", [("g", "h", "i"), ("r", "p", "0.3*i+0.1*m", "i")])],
    "loop2": [("for", "m", "k+1", [("g", "cx", "i", "(i+1)%3"), ("r", "ry", "0.3*i", "i")])],
    "acc": [("fori", 0, "k+m", [("set", "a", "a+2*i+1"), ("r", "ry", "0.2*a", "i%3")])],
    "nest": [("for", 0, "k+1", [("for", 0, "i+1", [("r", "ry", "0.3", "i")])])],
    "nest2": [("fori", 0, "k", [("set", "a", "a+1"), ("fori", 0, "m", [("set", "a", "a+3"), ("r", "rx", "0.1*a", "i")])])],
    "fori": [("fori", 0, "k+1", [("set", "a", "a+i"), ("g", "h", "i"), ("r", "p", "0.5*a", "i")])],
    "while": [("set", "a", "0*k"), ("while", "a<k+m", [("r", "ry", "0.4+0.1*a", "a%3"), ("set", "a", "a+1")])],
    "if": [("if", "k>m", [("g", "h", 0), ("g", "cx", 0, 1)], [("g", "y", 2)])],
    "sw": [("sw", "k", [[("g", "x", 0)], [("r", "ry", "0.3", 1)], [("g", "cx", 1, 0), ("g", "h", 1)]])],
    "ctl": [("ctl", "k==m", [("g", "x", 0), ("r", "ry", "0.2*k+0.5", 1)])],
    "call": [("call", [("g", "h", "k"), ("r", "ry", "0.3*m", "k")])],
    "slice": [("slice", "m//2", "3", [("g", "h", 0), ("g", "cx", 0, 1)])],
    "sliceloop": [("slice", "0", "k+1", [("for", 0, "k+1", [("g", "h", "i")])])],
    "tmp": [("tmp", "m", [("r", "ry", "0.6*k", "(m+1)%3")])],
    "inv": [("inv", [("g", "s", "k"), ("r", "ry", "0.3*m", "k"), ("g", "cx", "k", "(k+1)%3")])],
    "qc": [("qc", "k", [("g", "h", "(k+1)%3"), ("r", "p", "0.3+m", "(k+2)%3")])],
    "conj": [("conj", [("g", "h", 0), ("g", "cx", 0, 1)], [("r", "p", "0.4*k+0.3", 1)])],
    "neg": [("g", "x", "-1"), ("g", "cx", "-1", "-3")],
}
MEAS = {
    "m": [("m", "b", "k")],
    "mif": [("m", "b", "m"), ("ctl", "b", [("g", "h", "(m+1)%3")])],
    "mifnot": [("m", "b", 0), ("if", "b==0", [("g", "x", 1)], [("g", "h", 2), ("g", "cx", 2, 1)])],
    "mset": [("m", "b", 0), ("m", "c", 1), ("set", "a", "2*b+c+k")],
    "mloop": [("mall", "a"), ("for", 0, "a%3", [("g", "h", "i")])],
    "macc": [("fori", 0, "k+1", [("m", "b", "i"), ("set", "a", "a+b*(i+1)"), ("r", "ry", "0.5*a", "i")])],
    "reset": [("reset", "k"), ("g", "h", "k")],
    "new": [("new", "k+1", "m", "a")],
    "kern": [("kern", "0.5+0.5*k", "b"), ("ctl", "b", [("g", "x", "m")])],
    "wm": [("set", "a", "0*k"), ("while", "a<k+1", [("m", "b", "a"), ("ctl", "b", [("r", "ry", "0.7", "(a+1)%3")]), ("set", "a", "a+1")])],
    "mangle": [("mall", "a"), ("r", "ry", "0.3*a", "k")],
    "cm": [("call", [("m", "b", "k"), ("g", "h", "k")]), ("ctl", "b", [("g", "h", 0)])],
    "ifm": [("if", "k>0", [("m", "b", 0), ("g", "h", 0)], [("m", "b", 1)]), ("set", "a", "3*b+k")],
    "swm": [("mall", "a"), ("sw", "a%3", [[("g", "h", 0)], [("g", "h", 1)], [("g", "x", 2), ("g", "h", 0)]])],
}
ALL = {**GATES, **MEAS}
WRAP = {
    "for": lambda b: [("for", 0, "k", b)],
    "if": lambda b: [("if", "m>0", b, [("g", "x", 0)])],
    "ctl": lambda b: [("ctl", "m>0", b)],
    "call": lambda b: [("call", b)],
    "call2": lambda b: [("call", b), ("g", "x", 1), ("call", b)],
    "sw": lambda b: [("sw", "k", [b, [("g", "x", 1)], b + [("g", "h", 2)]])],
    "fori": lambda b: [("fori", 0, "m", b)],
    "mctl": lambda b: [("m", "c", 2), ("ctl", "c", b)],
    "mif": lambda b: [("m", "c", 2), ("if", "c", b, [("g", "h", 1)])],
    "slice": lambda b: [("slice", 0, 3, b)],
}


def close(got, want, tol=2e-3):
    for key in set(got) | set(want):
        if abs(got.get(key, 0) - want.get(key, 0)) > tol:
            return f"result {key}: probability {got.get(key, 0):.4f}, expected {want.get(key, 0):.4f}"


def program(ctx, body, args=None):
    stm = PRE + body
    hyb = tprog.flow(stm)
    ret = ["a", "b", "c"]

    def main(k, m):
        env = {"k": k, "m": m, "a": 0 * k, "b": 0 * k, "c": 0 * k}
        v = q.QuantumVariable(3)
        tprog.emit(stm, v, env)
        return tuple(env[n] for n in ret if n in env) + (q.measure(v),)

    def quantum(k, m):
        env = {"k": k, "m": m, "a": 0 * k, "b": 0 * k, "c": 0 * k}
        v = q.QuantumVariable(3)
        tprog.emit(stm, v, env)
        return v
    try:
        jp = jasp.make_jaspr(main)(1, 1)
    except Exception as e:
        if "external carry value" in str(e) and tprog.carries(body):
            return None  # loops carrying classical values are refused
        raise
    jq = None if hyb else jasp.make_jaspr(quantum)(1, 1)
    if not hyb:
        ts = jasp.terminal_sampling(quantum)
    for k, m in itertools.product(range(3), repeat=2) if args is None else args:
        ctx.step()
        brs = tprog.Ref(k, m).run(stm)
        brs = tprog.Ref().run([("mall", "_v")], brs)
        want = {}
        for b in brs:
            key = tuple(int(b.env[n]) for n in ret if n in b.env) + (b.env["_v"],)
            want[key] = want.get(key, 0) + b.p
        ctx.state((str(body), k, m))
        got = jsim.dist(lambda: jp(k, m))
        got = {kk if isinstance(kk, tuple) else (kk,): p for kk, p in got.items()}
        r = close(got, want)
        if r:
            return f"simulated run for {k}, {m}: {r}"
        if not hyb:
            psi = tprog.Ref(k, m).run(stm)[0].psi.reshape(-1)
            if "'sw'" not in str(stm):  # extraction refuses conditions with more than two branches
                res = jq.to_qc(k, m)
                reg, qc = res[0], res[-1]
                tab = prog.table(None, [list(reg)], compiled=qc)
                vec = np.zeros(8, dtype=complex)
                for key, amp in tab.items():
                    if key[1] and abs(amp) > 1e-3:
                        return f"extracted circuit for {k}, {m} leaves work qubits dirty"
                    vec[int(format(key[0], "03b")[::-1], 2)] += amp
                if not prog.phase_equal(vec, psi, 2e-3):
                    return f"extracted circuit for {k}, {m} prepares another state"
            v = quantum(k, m)
            tab = prog.table(v.qs, [list(v.reg)], compiled=v.qs.compile())
            vec = np.zeros(8, dtype=complex)
            for key, amp in tab.items():
                if key[1] and abs(amp) > 1e-3:
                    return f"direct execution for {k}, {m} leaves work qubits dirty"
                vec[int(format(key[0], "03b")[::-1], 2)] += amp
            if not prog.phase_equal(vec, psi, 2e-3):
                return f"direct execution for {k}, {m} prepares another state"
            if m == 1:
                sd = {}
                for kk, p in want.items():
                    sd[kk[-1]] = sd.get(kk[-1], 0) + p
                d = ts(k, m)
                d = {int(kk): p for kk, p in d.items()}
                r = close(d, sd)
                if r:
                    return f"sampled run for {k}, {m}: {r}"


def extracted(ctx, body):
    """Programs whose results are plain bits: the extracted circuit with its classical conditions."""
    stm = PRE + body
    bits = [n for n in ("b", "c") if any(s[0] == "m" and s[1] == n for s in body)]

    def main(k, m):
        env = {"k": k, "m": m, "a": 0 * k, "b": 0 * k, "c": 0 * k}
        v = q.QuantumVariable(3)
        tprog.emit(stm, v, env)
        return tuple(env[n] for n in bits) + tuple(q.measure(v[i]) for i in range(3))
    jp = jasp.make_jaspr(main)(1, 1)
    for k, m in itertools.product(range(3), repeat=2):
        ctx.step()
        ctx.state(("qc", str(body), k, m))
        brs = tprog.Ref(k, m).run(stm + [("m", f"_{i}", i) for i in range(3)])
        want = {}
        for b in brs:
            key = tuple(int(b.env[n]) for n in bits) + tuple(b.env[f"_{i}"] for i in range(3))
            want[key] = want.get(key, 0) + b.p
        res = jp.to_qc(k, m)
        qc = res[-1]
        got = {}
        for p, cb, tab in prog.branch_tables(qc, []):
            key = tuple(int(cb[qc.clbits.index(c)]) if not isinstance(c, (bool, int, np.bool_)) else int(c) for c in res[:-1])
            got[key] = got.get(key, 0) + p
        r = close(got, want)
        if r:
            return f"extracted circuit for {k}, {m}: {r}"


def shards(tier):
    return [f"one/{i}" for i in range(4)] + [f"pair/{i}" for i in range(16)] + [f"wrap/{w}" for w in WRAP] + ["ext/0", "ext/1"]


def run(shard, ctx):
    s = shard.split("/")
    deep = ctx.tier == "deep"
    if s[0] == "one":
        for i, (n, b) in enumerate(ALL.items()):
            if i % 4 == int(s[1]):
                ctx.case(n, program, ctx, b)
    elif s[0] == "pair":
        for i, (x, y) in enumerate(itertools.product(ALL, repeat=2)):
            if i % 16 != int(s[1]) or not deep and (i * 7 + i // 37) % 4:
                continue
            ctx.case(f"{x}+{y}", program, ctx, ALL[x] + ALL[y], None if deep else [(0, 1), (1, 2), (2, 1), (2, 2)])
    elif s[0] == "wrap":
        for i, n in enumerate(ALL):
            if not deep and (i + len(s[1])) % 2:
                continue
            ctx.case(n, program, ctx, WRAP[s[1]](ALL[n]), None if deep else [(0, 1), (1, 2), (2, 1), (1, 0)])
    else:
        L = [MEAS["m"], MEAS["mif"], MEAS["reset"], MEAS["mif"] + [("m", "c", "k")],
             [("m", "b", "k"), ("m", "c", "m"), ("ctl", "b", [("ctl", "c", [("g", "h", 0)])])], [("m", "b", 0), ("for", 0, "k+1", [("ctl", "b", [("g", "h", "i")])])],
             [("m", "b", 0), ("g", "h", 0), ("m", "b", 0), ("ctl", "b", [("g", "h", "m")])], [("m", "b", 0), ("if", "b", [("g", "h", "k")], [("g", "x", "m")])],
             [("m", "b", 0), ("ctl", "b", [("qc", 1, [("g", "h", 2)])]), ("m", "c", 2)], [("m", "b", 0), ("inv", [("ctl", "b", [("g", "s", 1), ("g", "h", 1)])])]]
        for i, b in enumerate(L):
            for j, g in enumerate(["gk", "loop", "cxk", "tmp", "if"]):
                if (i + j) % 2 == int(s[1]) and (deep or j < 2):
                    ctx.case(f"{i}/{g}", extracted, ctx, b + GATES[g])
                    ctx.case(f"{i}/{g}/r", extracted, ctx, GATES[g] + b)
