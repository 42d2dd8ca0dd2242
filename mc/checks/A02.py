"""Every multi-controlled X/Z/phase method against the truth table of the gate."""
import itertools
import cmath
import numpy as np
import qrisp as q
from mc import prog, jsim

NOTE = "every synthesis method x number of controls x every control bit pattern (as string and as integer) x plain, inverted, controlled on either value, target a slice of a larger variable; mid-circuit-measurement recompilation with every measurement branch; traced execution with qubit lists and with whole variables as controls; controls and target copied before the gate, complete truth table and all relative phases compared"

METHODS = ("gray", "auto", "gray_pt", "maslov", "balauca", "dirty1", "dirty2", "dirty3", "yong", "hybrid0", "hybrid1", "hybrid2", "hybrid3", "amy", "jones", "khattar", "gidney")
ONLY2 = ("amy", "jones", "gidney")
WRAPS = ("plain", "inv", "ctl", "ctl0", "twice", "conj")


def call(method, ctl, t, state):
    k = {}
    if method.startswith("dirty"):
        method, k = "balauca_dirty", {"num_ancilla": int(method[5:])}
    elif method.startswith("hybrid"):
        method, k = "hybrid", {"num_ancilla": int(method[6:])}
    if state is not None:
        k["ctrl_state"] = state
    q.mcx(ctl, t, method=method, **k)


def wrapped(wrap, e, act):
    if wrap == "plain":
        act()
    elif wrap == "inv":
        with q.invert():
            act()
    elif wrap == "ctl":
        with q.control(e[0]):
            act()
    elif wrap == "ctl0":
        with q.control(e[0], ctrl_state=0):
            act()
    elif wrap == "twice":
        act()
        with q.invert():
            act()
    elif wrap in ("ctltwice", "ctl0twice"):
        with q.control(e[0], ctrl_state=0 if "0" in wrap else 1):
            act()
            with q.invert():
                act()
    elif wrap == "conj":
        with q.conjugate(act)():
            q.x(e[0])


def active(wrap, e):
    return {"plain": 1, "inv": 1, "ctl": e, "ctl0": 1 - e, "twice": 0, "conj": 0, "ctltwice": 0, "ctl0twice": 0}[wrap]


def pattern(n, i):
    return "".join(str((i >> j) & 1) for j in range(n))


def setup(n, zero_target=False):
    c, rc, t, rt, e, re = q.QuantumFloat(n), q.QuantumFloat(n), q.QuantumBool(), q.QuantumBool(), q.QuantumBool(), q.QuantumBool()
    q.h(c)
    q.cx(c, rc)
    if not zero_target:
        q.h(t)
        q.cx(t[0], rt[0])
    q.h(e)
    q.cx(e[0], re[0])
    return [rc, rt, re], [c, t, e]


def truth(n, pat, wrap, zero_target=False):
    rows = {}
    for x in range(1 << n):
        for t in (0,) if zero_target else (0, 1):
            for e in (0, 1):
                hit = int(x == pat) & active(wrap, e)
                rows[(x, t, e)] = (x, t ^ hit, e ^ (wrap == "conj"))
    return rows


def recorded(ctx, method, n, pat, wrap, form, mcm=False):
    z = method == "gidney"
    ins, outs = setup(n, z)
    q.merge(ins + outs)
    c, t, e = outs
    state = {"str": pattern(n, pat), "int": pat, "none": None}[form]
    live = len(c.qs.qv_list)
    wrapped(wrap, e, lambda: call(method, [c[i] for i in range(n)], t if form != "int" else t[0], state))
    ctx.state(f"{method}/{n}/{pat}/{wrap}/{form}/{mcm}")
    want = truth(n, pat, wrap, z)
    pt = method == "gray_pt" and wrap not in ("twice", "conj") and n > 1
    if mcm:
        for pr, cb, tab in prog.branch_tables(c.qs.compile(compile_mcm=True), ins + outs):
            ctx.step(len(want))
            bad = prog.is_map(tab, want, 3)
            if bad:
                return f"measurement outcomes {cb}: {bad}"
        return
    ctx.step(len(want))
    bad = prog.is_map(prog.table(c.qs, ins + outs), want, 3, modulo_phases=pt)
    if bad:
        return bad
    if len(c.qs.qv_list) != live:
        return f"{len(c.qs.qv_list) - live} helper variables were left allocated"


PHI = {"pi": np.pi, "4": np.pi / 4, "n": -1.1}
PM = ("gray", "auto", "balauca", "khattar")
ZM = ("gray", "auto", "balauca", "yong", "khattar")


def phase_rec(ctx, gate, method, n, pat, wrap, form, phi):
    ins, outs = setup(n)
    q.merge(ins + outs)
    c, t, e = outs
    state = {"str": pattern(n, pat), "int": pat, "none": None}[form]
    kw = {} if state is None else {"ctrl_state": state}

    def act():
        if gate == "mcz":
            q.mcz([c[i] for i in range(n)], method=method, **kw)
        else:
            q.mcp(PHI[phi], [c[i] for i in range(n)], method=method, **kw)
    wrapped(wrap, e, act)
    f = np.pi if gate == "mcz" else PHI[phi]
    sign = -1 if wrap == "inv" else 1
    ctx.state(f"{gate}/{method}/{n}/{pat}/{wrap}/{form}/{phi}")
    ctx.step(1 << (n + 2))
    want = {(x, tt, ee): (x, tt, ee ^ (wrap == "conj")) for x in range(1 << n) for tt in (0, 1) for ee in (0, 1)}
    return prog.is_map(prog.table(c.qs, ins + outs), want, 3, phases=lambda k: cmath.exp(1j * f * sign) if k[0] == pat and active(wrap, k[2]) else 1)


def traced(ctx, gate, method, n, pat, wrap, form, arr, phi="4"):
    """arr: controls given as a list of qubits or as one variable of (traced) size."""
    def f(state, size):
        ins, outs = setup(size if arr == "var" else n, method == "gidney")
        c, t, e = outs
        ctl = c if arr == "var" else [c[i] for i in range(n)]
        kw = {} if form == "none" else {"ctrl_state": pattern(n, pat) if form == "str" else pat if form == "int" else state}

        def act():
            if gate == "mcx":
                q.mcx(ctl, t[0], method=method, **kw)
            elif gate == "mcz":
                q.mcz(ctl, method=method, **kw)
            else:
                q.mcp(PHI[phi], ctl, method=method, **kw)
        wrapped(wrap, e, act)
        return tuple(ins) + tuple(outs)

    res, qc = jsim.circuit(f, pat, n)
    groups = [list(r) for r in res if isinstance(r, (list, tuple))]
    ctx.state(f"t/{gate}/{method}/{n}/{pat}/{wrap}/{form}/{arr}")
    ph = None
    if gate == "mcx":
        want = truth(n, pat, wrap, method == "gidney")
    else:
        ang = (np.pi if gate == "mcz" else PHI[phi]) * (-1 if wrap == "inv" else 1)
        want = {(x, tt, ee): (x, tt, ee ^ (wrap == "conj")) for x in range(1 << n) for tt in (0, 1) for ee in (0, 1)}
        ph = lambda k: cmath.exp(1j * ang) if k[0] == pat and active(wrap, k[2]) else 1
    for pr, cb, tab in prog.branch_tables(qc, groups):
        ctx.step(len(want))
        bad = prog.is_map(tab, want, 3, phases=ph, modulo_phases=gate == "mcx" and method == "gray_pt" and wrap not in ("twice", "conj") and n > 1)
        if bad:
            return f"traced, measurement outcomes {cb}: {bad}"


def pats(n, quick):
    return range(1 << n) if n <= (3 if quick else 5) else sorted({0, 1, (1 << n) - 1, (1 << (n - 1)), 0b10110 & ((1 << n) - 1)})


def sizes(m, quick):
    if m in ONLY2:
        return (1, 2)
    if m == "maslov":
        return (1, 2, 3, 4)
    return (1, 2, 3, 4, 5) if quick else (1, 2, 3, 4, 5, 6)


TX = ("auto", "gray", "gray_pt", "balauca", "khattar")


def shards(tier):
    out = [f"x/{m}" for m in METHODS] + [f"mcm/{m}" for m in ("gidney", "jones", "balauca", "mcp")]
    out += [f"p/{m}" for m in PM] + [f"z/{m}" for m in ZM]
    out += ["t/mcx/gidney/list"] + [f"t/mcx/{m}/{a}" for m in TX for a in ("list", "var")]
    out += [f"t/{g}/{m}/{a}" for g in ("mcz", "mcp") for m in ("auto", "balauca", "khattar") for a in ("list", "var")]
    return out


def run(shard, ctx):
    quick = ctx.tier == "quick"
    p = shard.split("/")
    if p[0] == "x":
        m = p[1]
        for n in sizes(m, quick):
            for pat in pats(n, quick):
                forms = ["str", "int"] + (["none"] if pat == (1 << n) - 1 else [])
                for wrap in WRAPS:
                    if m == "gidney" and wrap in ("inv",):
                        continue
                    for form in forms:
                        if form == "int" and wrap != "plain":
                            continue
                        if quick and n >= 4 and wrap not in ("plain", "ctl") :
                            continue
                        ctx.case(f"x/{m}/{n}/{pat}/{wrap}/{form}", recorded, ctx, m, n, pat, wrap, form, timeout=60)
    elif p[0] == "mcm":
        m = p[1]
        for n in (2,) if m in ("gidney", "jones") else (2, 3, 4):
            for pat in pats(n, quick):
                for wrap in ("plain", "ctl", "twice", "conj"):
                    if m == "mcp":
                        ctx.case(f"mcm/mcp/{n}/{pat}/{wrap}", mcm_phase, ctx, n, pat, wrap, timeout=60)
                    else:
                        ctx.case(f"mcm/{m}/{n}/{pat}/{wrap}", recorded, ctx, m, n, pat, wrap, "str", True, timeout=60)
    elif p[0] in ("p", "z"):
        gate = "mcp" if p[0] == "p" else "mcz"
        for n in (1, 2, 3, 4, 5) if quick else (1, 2, 3, 4, 5, 6):
            for pat in pats(n, quick):
                for wrap in ("plain", "inv", "ctl", "ctl0"):
                    if quick and n >= 4 and wrap in ("inv", "ctl0"):
                        continue
                    for form in ["str"] + (["int"] if wrap == "plain" else []) + (["none"] if pat == (1 << n) - 1 else []):
                        for phi in (("4", "n", "pi") if wrap == "plain" and n < 4 else ("4",)) if gate == "mcp" else ("pi",):
                            ctx.case(f"{p[0]}/{p[1]}/{n}/{pat}/{wrap}/{form}/{phi}", phase_rec, ctx, gate, p[1], n, pat, wrap, form, phi, timeout=60)
    elif p[0] == "t":
        _, gate, m, arr = p
        for n in (2,) if m == "gidney" else (1, 2, 3, 5) if quick else (1, 2, 3, 4, 5, 6):
            for pat in pats(n, quick):
                if quick and n == 3 and pat not in (0, 1, 6, 7):
                    continue
                for wrap in ("plain", "ctl", "twice", "conj", "ctltwice", "ctl0twice") if m == "gidney" else ("plain", "inv", "ctl"):
                    if quick and m != "gidney" and (wrap != "plain" and (n not in (2, 3) or pat not in (1, 6))):
                        continue
                    for form in ("int",) + (("str",) if wrap == "plain" else ()) + (("dyn",) if arr == "var" and wrap == "plain" else ()) + (("none",) if pat == (1 << n) - 1 else ()):
                        ctx.case(f"t/{gate}/{m}/{arr}/{n}/{pat}/{wrap}/{form}", traced, ctx, gate, m, n, pat, wrap, form, arr, timeout=90)


def mcm_phase(ctx, n, pat, wrap):
    ins, outs = setup(n)
    q.merge(ins + outs)
    c, t, e = outs
    wrapped(wrap, e, lambda: q.mcp(np.pi / 4, [c[i] for i in range(n)], method="balauca", ctrl_state=pattern(n, pat)))
    want = {(x, tt, ee): (x, tt, ee ^ (wrap == "conj")) for x in range(1 << n) for tt in (0, 1) for ee in (0, 1)}
    ctx.state(f"mcm/mcp/{n}/{pat}/{wrap}")
    for pr, cb, tab in prog.branch_tables(c.qs.compile(compile_mcm=True), ins + outs):
        ctx.step(len(want))
        bad = prog.is_map(tab, want, 3, phases=lambda k: cmath.exp(1j * np.pi / 4) if k[0] == pat and active(wrap, k[2]) else 1)
        if bad:
            return f"measurement outcomes {cb}: {bad}"


RULE = "target flips (phase applied) exactly on the control pattern; nothing else changes"
