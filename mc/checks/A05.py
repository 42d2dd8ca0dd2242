"""Quantum switch, register permutations, demultiplexing and quantum-index access against their classical meaning."""
import cmath
import itertools
import warnings
import qrisp as q
from mc import prog, jsim

warnings.simplefilter("ignore")
NOTE = "switch: method x list/function cases x index size 1-3 x every case count x plain, inverted, controlled (either value, nested), applied and undone, applied twice with the same case list x one or two operands x index given as variable or qubit list, recorded and traced, every index and operand value with relative phases; cyclic shifts: container kind x length 1-6 x every shift incl. negative and quantum amounts; every permutation up to length 4; demultiplexing, quantum-index read and swap for every index value; hardware bit shifts"
ANG = 0.3


def case_fn(i, a, b=None):
    """Case i with a plain integer index."""
    if i & 1:
        q.x(a[0])
    q.cx(a[0], a[1])
    if i & 2:
        q.x(a[1])
    q.p(ANG * (i + 1), a[0])
    if b is not None:
        q.cx(a[1], b[0])
        if i & 4:
            q.x(b[0])


def case_traced(i, a, b=None):
    """Case i with a traced integer index."""
    with q.control((i & 1) == 1):
        q.x(a[0])
    q.cx(a[0], a[1])
    with q.control((i & 2) == 2):
        q.x(a[1])
    q.p(ANG * (i + 1), a[0])
    if b is not None:
        q.cx(a[1], b[0])
        with q.control((i & 4) == 4):
            q.x(b[0])


def model(i, a, b, inv=False):
    """-> (a, b, phase exponent) of case i (b is None for one operand)."""
    a0, a1, ph = a & 1, a >> 1, 0
    if not inv:
        a0 ^= i & 1
        a1 ^= a0
        a1 ^= (i >> 1) & 1
        ph = (i + 1) * a0
        if b is not None:
            b ^= a1 ^ ((i >> 2) & 1)
    else:
        if b is not None:
            b ^= a1 ^ ((i >> 2) & 1)
        ph = -(i + 1) * a0
        a1 ^= (i >> 1) & 1
        a1 ^= a0
        a0 ^= i & 1
    return a0 | a1 << 1, b, ph


def cases(amount, nop):
    def mk(i):
        return (lambda a: case_fn(i, a)) if nop == 1 else (lambda a, b: case_fn(i, a, b))
    return [mk(i) for i in range(amount)]


WRAPS = ("plain", "inv", "ctl", "ctl0", "twice", "again", "ctlinv", "nest")


def wrapped(wrap, e, act):
    if wrap == "plain":
        act()
    elif wrap == "inv":
        with q.invert():
            act()
    elif wrap == "ctl":
        with q.control(e[0]):
            act()
    elif wrap == "ctl0":
        with q.control(e[0], ctrl_state=0):
            act()
    elif wrap == "twice":
        act()
        with q.invert():
            act()
    elif wrap == "again":
        act()
        act()
    elif wrap == "ctlinv":
        with q.control(e[0]):
            with q.invert():
                act()
    elif wrap == "nest":
        with q.control([e[0], e[1]]):
            act()


def plan(wrap, e):
    """Sequence of inversion flags of the applications that take effect."""
    return {"plain": [0], "inv": [1], "ctl": [0] * (e & 1), "ctl0": [0] * (1 - (e & 1)), "twice": [], "again": [0, 0], "ctlinv": [1] * (e & 1), "nest": [0] * (e == 3)}[wrap]


def setup(n, nop):
    ix, a = q.QuantumFloat(n), q.QuantumVariable(2)
    vs = [ix, a] + ([q.QuantumVariable(1)] if nop == 2 else []) + [q.QuantumVariable(2)]
    cs = [q.QuantumFloat(n), q.QuantumVariable(2)] + ([q.QuantumVariable(1)] if nop == 2 else []) + [q.QuantumVariable(2)]
    for v, c in zip(vs, cs):
        q.h(v)
        q.cx(v, c)
    return cs, vs


def expected(n, nop, amount, wrap):
    rows, ph = {}, {}
    for i, a, b, e in itertools.product(range(1 << n), range(4), range(2) if nop == 2 else (None,), range(4)):
        ra, rb, f = a, b, 0
        for inv in plan(wrap, e):
            if i < amount:
                ra, rb, g = model(i, ra, rb, inv)
                f += g
        key = (i, a) + ((b,) if nop == 2 else ()) + (e,)
        rows[key] = (i, ra) + ((rb,) if nop == 2 else ()) + (e,)
        ph[key] = cmath.exp(1j * ANG * f)
    return rows, ph


def invoke(api, form, method, amount, nop, ix, ops, fn):
    kw = {"method": method}
    if form == "fun":
        br = fn if nop == 1 else fn
        kw["branch_amount" if api == "new" else "case_amount"] = amount
    elif form == "full":
        br = fn
    else:
        br = form
    if api == "new":
        q.q_switch(ix, br, *ops, **kw)
    else:
        q.qswitch(ops[0], ix, br, **kw)


def switch(ctx, mode, api, method, form, n, amount, wrap, nop, ixform):
    def build(traced):
        cs, vs = setup(n, nop)
        if not traced:
            q.merge(cs + vs)
        ix, ops, e = vs[0], vs[1:-1], vs[-1]
        fs = cases(amount, nop) if form == "list" else form
        target = ix if ixform == "var" else [ix[k] for k in range(n)]
        given = list(fs) if form == "list" else None
        wrapped(wrap, e, lambda: invoke(api, fs, method, amount, nop, target, ops, case_traced if traced else case_fn))
        if given is not None and fs != given:
            raise AssertionError(f"the switch changed the caller's list of {len(given)} cases to {len(fs)}")
        return cs, vs
    rows, ph = expected(n, nop, amount, wrap)
    k = len(next(iter(rows)))
    ctx.state(f"{mode}/{api}/{method}/{form}/{n}/{amount}/{wrap}/{nop}/{ixform}")
    if mode == "rec":
        cs, vs = build(False)
        ctx.step(len(rows))
        return prog.is_map(prog.table(vs[0].qs, cs + vs), rows, k, phases=lambda x: ph[x])

    def f():
        cs, vs = build(True)
        return tuple(cs) + tuple(vs)
    res, qc = jsim.circuit(f)
    groups = [list(r) for r in res if isinstance(r, (list, tuple))]
    for pr, cb, tab in prog.branch_tables(qc, groups):
        ctx.step(len(rows))
        bad = prog.is_map(tab, rows, k, phases=lambda x: ph[x])
        if bad:
            return f"traced, measurement outcomes {cb}: {bad}"


# ---- permutations of registers -------------------------------------------------------------------

def containers(kind, N):
    """-> (iterable given to the routine, list of its entries as qubit lists, keep-alive)."""
    if kind == "var":
        v = q.QuantumVariable(N)
        return v, [[v[i]] for i in range(N)], v.qs
    if kind == "qubits":
        v = q.QuantumVariable(N)
        return [v[i] for i in range(N)], [[v[i]] for i in range(N)], v.qs
    if kind == "vars":
        vs = [q.QuantumVariable(2) for _ in range(N)]
        q.merge(vs)
        return vs, [list(v.reg) for v in vs], vs[0].qs
    a = q.QuantumArray(q.QuantumFloat(2), shape=(N,))
    return a, [list(a[i].reg) for i in range(N)], a.qs


def moved(entries, qs, act, src, extra=None, phases_ok=False):
    """Copies every entry (and the extra register), acts, and checks entry i now holds old entry src(extra value)[i]."""
    w = len(entries[0])
    N = len(entries)
    regs = [qb for en in entries for qb in en]
    copy = q.QuantumVariable(len(regs))
    ex = list(extra.reg) if extra is not None else []
    ecopy = q.QuantumVariable(max(1, len(ex)))
    q.merge([copy, ecopy, qs] + ([extra] if extra is not None else []))
    for a, b in list(zip(regs, copy)) + list(zip(ex, ecopy)):
        q.h(a)
        q.cx(a, b)
    act()
    rows = {}
    for e in range(1 << len(ex)):
        s = src(e)
        for v in range(1 << len(regs)):
            vals = [(v >> (i * w)) & ((1 << w) - 1) for i in range(N)]
            new = sum(vals[s[i]] << (i * w) for i in range(N))
            rows[(v, e)] = (new, e)
    return rows, prog.is_map(prog.table(copy.qs, [copy, ecopy, regs] + [ex]), rows, 2, modulo_phases=phases_ok)


def shift(ctx, kind, N, k):
    it, entries, qs = containers(kind, N)
    ctx.state(f"shift/{kind}/{N}/{k}")
    rows, bad = moved(entries, qs, lambda: q.cyclic_shift(it, k), lambda e: [(i - k) % N for i in range(N)])
    ctx.step(len(rows))
    return bad


def qshift(ctx, kind, N, size, exponent, signed):
    it, entries, qs = containers(kind, N)
    s = q.QuantumFloat(size, exponent, signed=signed)
    ctx.state(f"qshift/{kind}/{N}/{size}/{exponent}/{signed}")

    def src(e):
        k = int(prog.value(e, s.size, exponent, signed))
        return [(i - k) % N for i in range(N)]
    rows, bad = moved(entries, qs, lambda: q.cyclic_shift(it, s), src, extra=s)
    ctx.step(len(rows))
    return bad


def cshift(ctx, kind, N, k, wrap):
    it, entries, qs = containers(kind, N)
    e = q.QuantumVariable(1)
    ctx.state(f"cshift/{kind}/{N}/{k}/{wrap}")

    def act():
        with q.control(e[0]):
            if wrap == "inv":
                with q.invert():
                    q.cyclic_shift(it, k)
            else:
                q.cyclic_shift(it, k)
    s = -k if wrap == "inv" else k
    rows, bad = moved(entries, qs, act, lambda ev: [(i - s * ev) % N for i in range(N)], extra=e)
    ctx.step(len(rows))
    return bad


def tshift(ctx, N, k, wrap):
    def f():
        c, v, ec, e = q.QuantumVariable(N), q.QuantumVariable(N), q.QuantumVariable(1), q.QuantumVariable(1)
        for a, b in ((v, c), (e, ec)):
            q.h(a)
            q.cx(a, b)
        if wrap == "ctl":
            with q.control(e[0]):
                q.cyclic_shift(v, k)
        elif wrap == "inv":
            with q.invert():
                q.cyclic_shift(v, k)
        else:
            q.cyclic_shift(v, k)
        return c, ec, v, e
    res, qc = jsim.circuit(f)
    groups = [list(r) for r in res if isinstance(r, (list, tuple))]
    ctx.state(f"tshift/{N}/{k}/{wrap}")
    rows = {}
    for v in range(1 << N):
        for e in (0, 1):
            s = {"plain": k, "inv": -k, "ctl": k * e}[wrap]
            rows[(v, e)] = (sum(((v >> ((i - s) % N)) & 1) << i for i in range(N)), e)
    ctx.step(len(rows))
    return prog.is_map(prog.table(None, groups, qc), rows, 2)


def permute(ctx, kind, perm):
    N = len(perm)
    it, entries, qs = containers(kind, N)
    ctx.state(f"perm/{kind}/{perm}")
    rows, bad = moved(entries, qs, lambda: q.permute_iterable(it, list(perm)), lambda e: list(perm))
    ctx.step(len(rows))
    return bad


# ---- demultiplexing ------------------------------------------------------------------------------

def demux(ctx, kind, n, N, par, place, method):
    """The input value ends at the addressed entry; with a fresh output every other entry stays zero."""
    ix, ic = q.QuantumFloat(n), q.QuantumFloat(n)
    w = 1 if kind == "qubit" else 2
    inp, cp = q.QuantumVariable(w) if kind == "qubit" else q.QuantumFloat(w), q.QuantumVariable(w)
    q.merge([ix, ic, inp, cp])
    for a, b in ((ix, ic),):
        q.h(a)
        q.cx(a, b)
    kw = {"parallelize_qc": par, "ctrl_method": method}
    if N != 1 << n:
        kw["permit_mismatching_size"] = True
    if place == "inplace":
        out = q.QuantumVariable(N) if kind == "qubit" else q.QuantumArray(q.QuantumFloat(w), shape=(N,))
        src = [out[0]] if kind == "qubit" else list(out[0].reg)
    else:
        src = list(inp.reg)
    q.merge([inp, cp, out if kind == "qubit" else out.qs] if place == "inplace" else [inp, cp])
    for a, b in zip(src, cp):
        q.h(a)
        q.cx(a, b)
    if place == "inplace":
        q.demux(out[0], ix, out, **kw)
    else:
        if place == "given":
            kw["output"] = q.QuantumVariable(N) if kind == "qubit" else q.QuantumArray(q.QuantumFloat(w), shape=(N,))
        out = q.demux(inp[0] if kind == "qubit" else inp, ix, **kw)
    ents = [qb for i in range(N) for qb in ([out[i]] if kind == "qubit" else out[i].reg)]
    ctx.state(f"demux/{kind}/{n}/{N}/{par}/{place}/{method}")
    rows = {}
    for i in range(min(1 << n, 1 << n)):
        for v in range(1 << w):
            if i < N:
                rows[(i, v)] = (i, v << (i * w), 0)
    tab = prog.table(ix.qs, [ic, cp, ix, ents, inp])
    ctx.step(len(rows))
    if N < 1 << n:      # out-of-range addresses have no specified result
        sub = {k: a for k, a in tab.items() if k[0] < N}
        z = sum(abs(a) ** 2 for a in sub.values()) ** .5
        tab = {k: a / z for k, a in sub.items()}
    return prog.is_map(tab, rows, 2, modulo_phases=method == "gray_pt")


def access(ctx, op, n, w, wrap):
    """Reading or swapping the entry a quantum index addresses leaves every other entry alone."""
    from qrisp.alg_primitives.iterable_processing import q_indexing, q_swap_into
    N = 1 << n
    arr = q.QuantumArray(q.QuantumFloat(w), shape=(N,))
    ix, qv = q.QuantumFloat(n), q.QuantumFloat(w)
    ents = [qb for i in range(N) for qb in arr[i].reg]
    ca, ci, cv = q.QuantumVariable(len(ents)), q.QuantumFloat(n), q.QuantumVariable(w)
    q.merge([arr.qs, ix, qv, ca, ci, cv])
    todo = list(zip(ents, ca)) + list(zip(ix, ci)) + (list(zip(qv, cv)) if op == "swap" else [])
    for a, b in todo:
        q.h(a)
        q.cx(a, b)
    if op == "swap":
        q_swap_into(arr, ix, qv)
        res = qv
    else:
        res = q_indexing(arr, ix)
    m = (1 << w) - 1
    rows = {}
    for av in range(1 << len(ents)):
        for i in range(N):
            old = (av >> (i * w)) & m
            for v in range(1 << w) if op == "swap" else (0,):
                new = av if op == "read" else (av & ~(m << (i * w))) | (v << (i * w))
                rows[(av, i, v)] = (new, i, old)
    ctx.state(f"access/{op}/{n}/{w}")
    ctx.step(len(rows))
    groups = [ca, ci, cv, ents, ix, res]
    return prog.is_map(prog.table(ix.qs, groups), rows, 3)


# ---- hardware bit shifts -------------------------------------------------------------------------

def bitshift(ctx, size, exponent, signed, k, wrap):
    f = q.QuantumFloat(size, exponent, signed=signed)
    n0 = f.size
    c, e, ec = q.QuantumVariable(n0), q.QuantumVariable(1), q.QuantumVariable(1)
    q.merge([f, c, e, ec])
    for a, b in list(zip(f, c)) + list(zip(e, ec)):
        q.h(a)
        q.cx(a, b)
    if wrap == "ctl":
        with q.control(e[0]):
            f.quantum_bit_shift(k)
    else:
        f.quantum_bit_shift(k)
    rows = {}
    for v in range(1 << n0):
        for ev in (0, 1):
            val = prog.value(v, n0, exponent, signed)
            s = k if wrap == "plain" or ev else 0
            r = prog.wrap(val * 2.0 ** s, f.size, f.exponent, signed)
            rows[(v, ev)] = (r, ev)
    ctx.state(f"bit/{size}/{exponent}/{signed}/{k}/{wrap}")
    ctx.step(len(rows))
    return prog.is_map(prog.table(f.qs, [c, ec, f, e]), rows, 2)


def qbitshift(ctx, size, ssize):
    f, s = q.QuantumFloat(size), q.QuantumFloat(ssize)
    c, sc = q.QuantumVariable(size), q.QuantumVariable(ssize)
    q.merge([f, s, c, sc])
    for a, b in list(zip(f, c)) + list(zip(s, sc)):
        q.h(a)
        q.cx(a, b)
    f.quantum_bit_shift(s)
    rows = {(v, k): (v << k, k) for v in range(1 << size) for k in range(1 << ssize)}
    ctx.state(f"qbit/{size}/{ssize}")
    ctx.step(len(rows))
    return prog.is_map(prog.table(f.qs, [c, sc, f, s]), rows, 2)


METH = {"rec": ("tree", "sequential", "parallel", "auto"), "tr": ("tree", "sequential")}
KINDS = ("var", "qubits", "vars", "array")


def shards(tier):
    out = [f"sw/rec/new/{m}/{f}/{n}" for m in METH["rec"] for f in ("list", "fun") for n in (1, 2, 3)]
    out += [f"sw/rec/old/{m}/{f}/{n}" for m in METH["rec"] for f in ("list", "fun") for n in (1, 2)]
    out += [f"sw/tr/{a}/{m}/{f}/{n}" for a in ("new", "old") for m in METH["tr"] for f in ("list", "fun") for n in (1, 2, 3)]
    out += [f"shift/{k}" for k in KINDS] + [f"perm/{k}" for k in KINDS] + ["qshift", "tshift", "demux", "access", "bit"]
    return out


def run(shard, ctx):
    quick = ctx.tier == "quick"
    p = shard.split("/")
    if p[0] == "sw":
        _, mode, api, method, form, n = p
        n = int(n)
        for amount in range(1, (1 << n) + 1):
            for wrap in WRAPS:
                for nop in (1, 2) if api == "new" else (1,):
                    if method == "parallel" and nop == 2:
                        continue
                    for ixf in ("var", "list"):
                        if ixf == "list" and (method == "parallel" or wrap not in ("plain", "ctl") or mode == "tr"):
                            continue
                        if n == 3 and (wrap not in ("plain", "inv", "ctl") or nop == 2 and amount != 5) and quick:
                            continue
                        if quick and n == 3 and method == "parallel" and amount not in (5, 8):
                            continue
                        if quick and mode == "tr" and ((api == "old" or n == 3) and amount not in (1, 3, 5, 8) or nop == 2 and amount != 3 or wrap in ("nest", "ctlinv") and (n == 1 or nop == 2)):
                            continue
                        if mode == "tr" and n == 3 and method == "sequential" and amount > (3 if quick else 5):
                            continue        # one mid-circuit measurement pair per case: 4^cases branches
                        ctx.case(f"sw/{mode}/{api}/{method}/{form}/{n}/{amount}/{wrap}/{nop}/{ixf}", switch, ctx, mode, api, method, form, n, amount, wrap, nop, ixf, timeout=120)
        if form == "fun" and mode == "rec":
            ctx.case(f"sw/{mode}/{api}/{method}/full/{n}", switch, ctx, mode, api, method, "full", n, 1 << n, "plain", 1, "var", timeout=120)
    elif p[0] == "shift":
        for N in range(1, (6 if p[1] in ("var", "qubits") else 4) + (0 if quick else 1)):
            for k in range(-N - 1, N + 2):
                ctx.case(f"shift/{p[1]}/{N}/{k}", shift, ctx, p[1], N, k, timeout=60)
            for k in (1, 2, -1, N - 1):
                for wrap in ("plain", "inv"):
                    ctx.case(f"cshift/{p[1]}/{N}/{k}/{wrap}", cshift, ctx, p[1], N, k, wrap, timeout=60)
    elif p[0] == "perm":
        for N in range(1, (5 if p[1] in ("var", "qubits") and not quick else 4) + 1):
            for perm in itertools.permutations(range(N)):
                if quick and N == 4 and p[1] in ("vars", "array") and perm[0] not in (1, 3):
                    continue
                ctx.case(f"perm/{p[1]}/{''.join(map(str, perm))}", permute, ctx, p[1], perm, timeout=60)
    elif p[0] == "qshift":
        for kind in KINDS:
            for N in (2, 3, 4, 5) if kind in ("var", "qubits") else (2, 3):
                for size, ex, sg in ((1, 0, False), (2, 0, False), (1, 0, True), (2, 0, True), (2, 1, False), (1, 1, True)):
                    ctx.case(f"qshift/{kind}/{N}/{size}/{ex}/{sg}", qshift, ctx, kind, N, size, ex, sg, timeout=60)
    elif p[0] == "tshift":
        for N in range(1, 7):
            for k in range(-3, 4):
                for wrap in ("plain", "inv", "ctl"):
                    if quick and wrap != "plain" and k not in (1, -2):
                        continue
                    ctx.case(f"tshift/{N}/{k}/{wrap}", tshift, ctx, N, k, wrap, timeout=60)
    elif p[0] == "demux":
        for kind in ("qubit", "float"):
            for n in (1, 2, 3) if kind == "qubit" or not quick else (1, 2):
                for place in ("fresh", "given", "inplace"):
                    for par in (False, True):
                        for method in (None, "gray_pt"):
                            ctx.case(f"demux/{kind}/{n}/{1 << n}/{par}/{place}/{method}", demux, ctx, kind, n, 1 << n, par, place, method, timeout=60)
                    if place != "fresh":
                        for N in range(2, 1 << n):
                            ctx.case(f"demux/{kind}/{n}/{N}/False/{place}", demux, ctx, kind, n, N, False, place, None, timeout=60)
    elif p[0] == "access":
        for op in ("read", "swap"):
            for n, w in ((1, 1), (1, 2), (2, 1), (2, 2)) if not quick else ((1, 1), (1, 2), (2, 1)):
                ctx.case(f"access/{op}/{n}/{w}", access, ctx, op, n, w, "plain", timeout=60)
    elif p[0] == "bit":
        for size, ex, sg in ((2, 0, False), (3, 0, False), (2, -1, False), (2, 1, False), (2, 0, True), (3, -1, True)):
            for k in (-3, -2, -1, 0, 1, 2, 3):
                for wrap in ("plain", "ctl"):
                    ctx.case(f"bit/{size}/{ex}/{sg}/{k}/{wrap}", bitshift, ctx, size, ex, sg, k, wrap, timeout=60)
        for size in (1, 2, 3):
            for ss in (1, 2):
                ctx.case(f"qbit/{size}/{ss}", qbitshift, ctx, size, ss, timeout=60)


RULE = "each basis value of the index selects exactly the specified case / position; every other register unchanged; relative phases as specified"
