"""Every in-place adder against integer addition."""
import itertools
import numpy as np
import qrisp as q
from mc import prog, jsim

NOTE = "every adder x every pair of register sizes up to the bound x classical or quantum first operand x carry-in/carry-out x controlled (both polarities), inverted, controlled inverse; all basis inputs in superposition with a reference copy, result table and phases compared with integer addition; traced execution through the extracted circuit, every measurement branch followed"

ADD = {
    "fourier": lambda a, b, **k: q.fourier_adder(a, b, **k),
    "gidney": lambda a, b, **k: q.gidney_adder(a, b, **k),
    "cuccaro": lambda a, b, **k: q.cuccaro_adder(a, b, **k),
    "qcla": lambda a, b, **k: q.qcla(a, b, **k),
    "qcla-r4": lambda a, b, **k: q.qcla(a, b, radix_base=2, radix_exponent=2, **k),
    "qcla-r3": lambda a, b, **k: q.qcla(a, b, radix_base=3, radix_exponent=1, **k),
    "qcla-slow": lambda a, b, **k: q.qcla(a, b, t_depth_reduction=False, **k),
    "qcla-r1": lambda a, b, **k: q.qcla(a, b, radix_base=2, radix_exponent=0, **k),
}
CARRY = ("gidney", "cuccaro")
TRUNC = ("gidney", "cuccaro")      # a longer first operand is truncated; the others refuse it
MODES = ("plain", "ctl", "ctl0", "inv", "ctlinv", "ctl2")


def body(mode, c, act):
    if mode == "plain":
        act()
    elif mode == "ctl":
        with q.control(c[0]):
            act()
    elif mode == "ctl0":
        with q.control(c[0], ctrl_state=0):
            act()
    elif mode == "inv":
        with q.invert():
            act()
    elif mode == "ctlinv":
        with q.control(c[0]):
            with q.invert():
                act()
    elif mode == "ctl2":
        with q.control([c[0], c[1]]):
            act()


NCTL = {"plain": 0, "ctl": 1, "ctl0": 1, "inv": 0, "ctlinv": 1, "ctl2": 2}


def factor(mode, c):
    return {"plain": 1, "ctl": c, "ctl0": 1 - c, "inv": -1, "ctlinv": -c, "ctl2": int(c == 3)}[mode]


def expected(na, nb, kval, nctl, mode, carry):
    """{inputs: outputs}: inputs (a?, b, cin?, cout0?, ctrl?), outputs (b, cout?)."""
    rows = {}
    M = 1 << nb
    for a in (range(1 << na) if kval is None else [None]):
        for b in range(M):
            for cin in range(2 if "i" in carry else 1):
                for co in range(2 if "o" in carry else 1):
                    for c in range(1 << nctl):
                        f = factor(mode, c)
                        x = (a if a is not None else kval) % M
                        tot = b + x + cin
                        if f == 1:
                            nbv = tot % M
                            nco = co ^ (tot >> nb)
                        elif f == -1:
                            nbv = (b - x - cin) % M
                            nco = co ^ ((nbv + x + cin) >> nb)
                        else:
                            nbv, nco = b, co
                        key = (() if a is None else (a,)) + (b,) + ((cin,) if "i" in carry else ()) + ((co,) if "o" in carry else ()) + ((c,) if nctl else ())
                        rows[key] = (nbv,) + ((nco,) if "o" in carry else ())
    return rows


def setup(na, nb, kval, nctl, carry):
    """-> (groups of inputs, groups of outputs, a, b, kwargs, control)."""
    b, rb = q.QuantumFloat(nb), q.QuantumFloat(nb)
    q.h(b)
    q.cx(b, rb)
    ins = []
    a = kval
    if kval is None:
        a = q.QuantumFloat(na)
        q.h(a)
        ins.append(a)
    ins.append(rb)
    outs, kw = [b], {}
    if "i" in carry:
        ci = q.QuantumBool()
        q.h(ci)
        ins.append(ci)
        kw["c_in"] = ci
    if "o" in carry:
        co, rco = q.QuantumBool(), q.QuantumBool()
        if "O" in carry:
            q.h(co)
            q.cx(co, rco)
        ins.append(rco)
        outs.append(co)
        kw["c_out"] = co
    c = None
    if nctl:
        c = q.QuantumFloat(nctl)
        q.h(c)
        ins.append(c)
    return ins, outs, a, b, kw, c


def recorded(ctx, adder, na, nb, kval, mode, carry):
    nctl = NCTL[mode]
    ins, outs, a, b, kw, c = setup(na, nb, kval, nctl, carry)
    q.merge(ins + outs)
    live = len(b.qs.qv_list)
    body(mode, c, lambda: ADD[adder](a, b, **kw))
    want = expected(na, nb, kval, nctl, mode, carry)
    if "o" in carry and "O" not in carry:
        want = {k: v for k, v in want.items() if k[len(ins) - 1 - bool(nctl)] == 0}
    tab = prog.table(b.qs, ins + outs)
    ctx.state(f"{adder}/{na}/{nb}/{kval}/{mode}/{carry}")
    ctx.step(len(want))
    bad = prog.is_map(tab, want, len(ins))
    if bad:
        return bad
    if len(b.qs.qv_list) != live:
        return f"{len(b.qs.qv_list) - live} helper variables were left allocated"


def lists(ctx, adder, na, nb, mode):
    """Operands given as plain qubit lists (slices of a larger register, mixed order)."""
    reg = q.QuantumFloat(na + nb)
    q.h(reg)
    rb = q.QuantumFloat(nb)
    nctl = NCTL[mode]
    a = [reg[i] for i in range(na)]
    b = [reg[na + nb - 1 - i] for i in range(nb)]
    q.cx(b, rb)
    ins = [a, rb]
    c = None
    if nctl:
        c = q.QuantumFloat(nctl)
        q.h(c)
        ins.append(c)
    q.merge([reg, rb] + ([c] if nctl else []))
    body(mode, c, lambda: ADD[adder](a, b))
    ctx.state(f"list/{adder}/{na}/{nb}/{mode}")
    ctx.step(1 << (na + nb))
    q.merge([reg, rb])
    return prog.is_map(prog.table(None, [rb] + ins[:1] + ins[2:] + [b], compiled=reg.qs.compile()), {(k[1], k[0]) + k[2:]: v for k, v in expected(na, nb, None, nctl, mode, "").items()}, len(ins))


def traced(ctx, adder, na, nb, kval, mode, carry):
    nctl = NCTL[mode]

    def f(k):
        ins, outs, a, b, kw, c = setup(na, nb, k if kval is not None else None, nctl, carry)
        body(mode, c, lambda: TADD[adder](a, b, **kw))
        return tuple(ins) + tuple(outs)

    res, qc = jsim.circuit(f, kval if kval is not None else 0)
    groups = [list(r) for r in res if isinstance(r, (list, tuple))]
    want = expected(na, nb, kval, nctl, mode, carry)
    nin = len(groups) - (2 if "o" in carry else 1)
    if "o" in carry and "O" not in carry:
        want = {k: v for k, v in want.items() if k[nin - 1 - bool(nctl)] == 0}
    ctx.state(f"t/{adder}/{na}/{nb}/{kval}/{mode}/{carry}")
    for pr, cb, tab in prog.branch_tables(qc, groups):
        ctx.step()
        bad = prog.is_map(tab, want, nin)
        if bad:
            return f"traced, measurement outcomes {cb}: {bad}"


def jfourier(a, b, **k):
    from qrisp.alg_primitives.arithmetic.jasp_arithmetic import jasp_fourier_adder
    return jasp_fourier_adder(a, b, **k)


TADD = {"gidney": ADD["gidney"], "cuccaro": ADD["cuccaro"], "jfourier": jfourier}


def remaud(ctx, n):
    """Full-width addition with explicit carry-out register."""
    def f():
        a, b, rb, z = q.QuantumFloat(n), q.QuantumFloat(n), q.QuantumFloat(n), q.QuantumFloat(1)
        q.h(a)
        q.h(b)
        q.cx(b, rb)
        q.remaud_adder(a, b, z)
        return a, rb, b, z

    res, qc = jsim.circuit(f)
    groups = [list(r) for r in res if isinstance(r, (list, tuple))]
    want = {(a, b): ((a + b) % (1 << n), (a + b) >> n) for a in range(1 << n) for b in range(1 << n)}
    ctx.state(f"remaud{n}")
    for pr, cb, tab in prog.branch_tables(qc, groups):
        ctx.step(len(want))
        bad = prog.is_map(tab, want, 2)
        if bad:
            return bad


def venting(ctx, n, d, mode, sup):
    """Measurement-based constant adder: every outcome of its measurements must give the same addition."""
    from qrisp.jasp import jaspify

    def f(k):
        b, r = q.QuantumFloat(n), q.QuantumFloat(n)
        c = q.QuantumFloat(2)
        q.x(b[0])
        for i in sup:
            q.h(b[i])
        q.cx(b, r)
        q.h(c[0])
        body(mode, c, lambda: q.gidney_cq_venting_adder(k, b))
        body({"plain": "inv", "ctl": "ctlinv"}[mode], c, lambda: q.gidney_adder(k, b))
        q.cx(r, b)
        bb = q.measure(b)
        for i in sup:
            q.h(r[i])
        q.h(c[0])
        return bb, q.measure(r), q.measure(c)

    g = VENT.setdefault((n, mode, sup), jaspify(f))
    want = (0, 1 if 0 not in sup else None, 0)
    ctx.state(f"vent{n}/{d}/{mode}/{sup}")
    for p, r in jsim.outcomes(lambda: g(d)):
        ctx.step()
        bb, rr, cc = jsim.plain(r)
        if bb != 0:
            return f"adding {d} to {n} qubits differs from the reference by {bb}"
        if cc != 0 or (0 in sup and rr not in (0, 1)) or (0 not in sup and rr != 1):
            return f"adding {d} to {n} qubits leaves a relative phase (readback {rr}, {cc})"


VENT = {}


def increment(ctx, n, k, what):
    if what == "increment":
        b, rb = q.QuantumFloat(n, signed=False), q.QuantumFloat(n)
        q.h(b)
        q.cx(b, rb)
        from qrisp.alg_primitives.arithmetic.adders.incrementation import increment as inc
        inc(b, k)
        ctx.state(f"inc{n}/{k}")
        return prog.is_map(prog.table(b.qs, [rb, b]), {(x,): ((x + k) % (1 << n),) for x in range(1 << n)}, 1)
    from qrisp.alg_primitives.arithmetic.adders.incrementation import lin_incr
    b, rb, ci, co, rco = q.QuantumFloat(n), q.QuantumFloat(n), q.QuantumBool(), q.QuantumBool(), q.QuantumBool()
    q.h(b)
    q.cx(b, rb)
    q.h(ci)
    ins, outs = [rb, ci], [b]
    q.merge([rb, ci, b, co, rco])
    if "o" in what:
        lin_incr(b, c_in=ci[0], c_out=co[0])
        outs.append(co)
    else:
        lin_incr(b, c_in=ci[0])
    ctx.state(f"lin{n}/{what}")
    ctx.step(1 << n)
    want = {(x, c): ((x + c) % (1 << n),) + (((x + c) >> n,) if "o" in what else ()) for x in range(1 << n) for c in (0, 1)}
    return prog.is_map(prog.table(b.qs, ins + outs), want, 2)


def refuse(ctx, adder, na, nb):
    a, b = q.QuantumFloat(na), q.QuantumFloat(nb)
    try:
        ADD[adder](a, b)
    except Exception:
        ctx.state(f"refuse/{adder}/{na}/{nb}")
        return
    q.merge([a, b])
    return "a longer first operand is neither refused nor truncated" if adder not in TRUNC else None


def sizes(tier):
    return 3 if tier == "quick" else 5


def shards(tier):
    n = sizes(tier)
    out = []
    for ad in ADD:
        for nb in range(1, n + 2):
            out += [f"q/{ad}/{nb}", f"c/{ad}/{nb}"]
    for ad in TADD:
        out += [f"tq/{ad}", f"tc/{ad}"]
    if tier == "quick":
        vent = [("plain", 6, 21), ("plain", 6, 46), ("ctl", 6, 1), ("ctl", 6, 33), ("ctl", 6, 62), ("ctl", 5, 11)]
    else:
        vent = [(m, nn, d) for m in ("plain", "ctl") for nn in (2, 5, 6, 7) for d in range(1 << nn) if nn < 7 or d % 5 == 1]
    return [f"vent/{m}/{nn}/{d}" for m, nn, d in vent] + out + ["remaud", "inc", "list", "wide"]


def run(shard, ctx):
    quick = ctx.tier == "quick"
    n = sizes(ctx.tier)
    p = shard.split("/")
    if p[0] == "q":
        ad, nb = p[1], int(p[2])
        for na in range(1, n + 2):
            if na > nb and ad not in TRUNC:
                ctx.case(f"refuse/{ad}/{na}/{nb}", refuse, ctx, ad, na, nb)
                continue
            for mode in MODES:
                if quick and nb > n and mode not in ("plain", "ctl"):
                    continue
                ctx.case(f"q/{ad}/{na}/{nb}/{mode}/", recorded, ctx, ad, na, nb, None, mode, "")
                if ad in CARRY and na + nb <= (5 if quick else 7):
                    for carry in ("i", "o", "io", "oO", "ioO"):
                        if mode == "ctl2" or (quick and mode in ("ctl0", "ctlinv") and carry not in ("io",)):
                            continue
                        if ad == "gidney" and "O" in carry:
                            continue
                        ctx.case(f"q/{ad}/{na}/{nb}/{mode}/{carry}", recorded, ctx, ad, na, nb, None, mode, carry)
    elif p[0] == "c":
        ad, nb = p[1], int(p[2])
        M = 1 << nb
        for k in list(range(-1, M + 1)) + [M + 3, -M - 1]:
            if quick and nb > n and k % 3:
                continue
            for mode in MODES:
                if quick and mode in ("ctl0", "ctl2") and k not in (1, M - 1, 2):
                    continue
                ctx.case(f"c/{ad}/{nb}/{k}/{mode}/", recorded, ctx, ad, 0, nb, k, mode, "")
                if ad in CARRY and 0 <= k < M and nb <= (2 if quick else 4):
                    for carry in ("i", "o", "io"):
                        if mode == "ctl2":
                            continue
                        ctx.case(f"c/{ad}/{nb}/{k}/{mode}/{carry}", recorded, ctx, ad, 0, nb, k, mode, carry)
    elif p[0] == "tq":
        for na in range(1, n + 1):
            for nb in range(1, n + 1):
                if na > nb and p[1] == "jfourier":
                    continue
                for mode in MODES:
                    ctx.case(f"tq/{p[1]}/{na}/{nb}/{mode}/", traced, ctx, p[1], na, nb, None, mode, "", timeout=120)
                    if p[1] in CARRY and na + nb <= 4 and mode in ("plain", "ctl", "inv"):
                        for carry in ("i", "o", "io"):
                            ctx.case(f"tq/{p[1]}/{na}/{nb}/{mode}/{carry}", traced, ctx, p[1], na, nb, None, mode, carry, timeout=120)
    elif p[0] == "tc":
        for nb in range(1, n + 1):
            for k in range(0, 1 << nb):
                for mode in MODES:
                    if quick and mode in ("ctl0", "ctlinv", "ctl2") and k not in (1, 3, 5):
                        continue
                    ctx.case(f"tc/{p[1]}/{nb}/{k}/{mode}/", traced, ctx, p[1], 0, nb, k, mode, "", timeout=120)
    elif p[0] == "vent":
        nn, d = int(p[2]), int(p[3])
        for sup in ((0, 1),) if quick else ((0, 1), (nn - 1,)):
            ctx.case(f"vent/{nn}/{d}/{p[1]}/{sup}", venting, ctx, nn, d, p[1], sup, timeout=600)
    elif shard == "remaud":
        for nn in range(4, 5 if quick else 7):
            ctx.case(f"remaud/{nn}", remaud, ctx, nn, timeout=200)
    elif shard == "inc":
        for nn in range(1, 5 if quick else 7):
            for k in range(-(1 << nn) + 1, 1 << nn):
                ctx.case(f"inc/{nn}/{k}", increment, ctx, nn, k, "increment")
            for w in ("i", "io"):
                ctx.case(f"lin/{nn}/{w}", increment, ctx, nn, None, w)
    elif shard == "list":
        for ad in ADD:
            for na in range(1, n + 1):
                for nb in range(na, n + 1):
                    for mode in ("plain", "ctl", "inv"):
                        ctx.case(f"list/{ad}/{na}/{nb}/{mode}", lists, ctx, ad, na, nb, mode)
    elif shard == "wide":
        for ad in ("qcla", "qcla-r4", "qcla-r3", "qcla-slow", "gidney"):
            for na, nb in ((5, 5), (3, 6)) if quick else ((5, 5), (6, 6), (3, 6), (5, 7)):
                ctx.case(f"q/{ad}/{na}/{nb}/plain/", recorded, ctx, ad, na, nb, None, "plain", "")
                for k in (1, 11, 21, 31):
                    ctx.case(f"c/{ad}/{nb}/{k}/ctl/", recorded, ctx, ad, 0, nb, k, "ctl", "")


RULE = "b := a + b mod 2^n, nothing else changes"
