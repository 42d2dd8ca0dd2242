"""Lookups: truth-table synthesis, quantum dictionaries, boolean operators, characters and strings."""
import itertools
import numpy as np
import sympy as sp
import qrisp as q
from qrisp.alg_primitives.logic_synthesis import TruthTable
from mc import prog, jsim

NOTE = "synthesis: all truth tables of up to three inputs with one output and two-output tables of two inputs, six methods, table given as strings, array or polynomial, plain, controlled, inverted and uncomputed, every input in superposition; dictionaries: all partial maps of four keys into three values, every key type incl. pairs, typed and untyped results, preset targets, controlled and uncomputed; boolean operators on all values recorded and traced; every character and all strings over a small alphabet through encoding, slicing, concatenation and readout"
METHODS = ("gray", "gray_pt", "gray_pt_inv", "pprm", "pprm_pt", "best")
EXACT = ("gray", "pprm")


def rows(tab, nin, bits, want, phases=True):
    """Every branch of the table: key[nin:-1] == want(inputs), uniform weight, clean helpers."""
    if len(tab) != 1 << bits:
        return f"{len(tab)} branches instead of {1 << bits}"
    for k, amp in tab.items():
        if k[-1]:
            return f"helper qubits end in {k[-1]:b} for input {k[:nin]}"
        if (abs(amp - 2 ** (-bits / 2)) if phases else abs(abs(amp) - 2 ** (-bits / 2))) > 1e-3:
            return f"amplitude {amp} for input {k[:nin]}"
        w = tuple(want(*k[:nin]))
        if k[nin:-1] != w:
            return f"input {k[:nin]} gives {k[nin:-1]}, expected {w}"


def copyof(v):
    c = q.QuantumVariable(len(v))
    q.h(c)
    for i in range(len(v)):
        q.cx(c[i], v[i])
    return c


def form(cols, n, how):
    if how == "str":
        return TruthTable(list(cols))
    if how == "arr":
        return TruthTable(np.array([[int(c[i]) for c in cols] for i in range(1 << n)]))
    # algebraic normal form in the symbols x0 (least significant) ...
    xs = [sp.Symbol(f"x{i}") for i in range(n)]
    e = sp.Integer(0)
    for i in range(1 << n):
        if cols[0][i] == "1":
            e += sp.prod([xs[j] if i >> j & 1 else 1 + xs[j] for j in range(n)])
    return TruthTable(sp.expand(e))


def synth(ctx, cols, n, method, how, wrap):
    m = len(cols)
    x, o, e = q.QuantumVariable(n), q.QuantumVariable(m), q.QuantumVariable(1)
    cx_, ce = copyof(x), copyof(e)
    tt = form(cols, n, how)
    f = lambda i: sum(int(c[i]) << j for j, c in enumerate(cols))
    ctx.step()
    ctx.state((cols, method, how, wrap))
    if wrap == "ctl":
        with q.control(e[0]):
            tt.q_synth(x, o, method=method)
    elif wrap == "inv":
        with q.invert():
            tt.q_synth(x, o, method=method)
    elif wrap == "gate":
        q.merge([x, o])
        x.qs.append(tt.gate_synth(method=method), list(x.reg) + list(o.reg))
    elif wrap == "undo":
        tt.q_synth(x, o, method=method)
        q.merge([x, o])
        x.qs.append(tt.gate_synth(method=method, inv=True), list(x.reg) + list(o.reg))
    else:
        tt.q_synth(x, o, method=method)
    if wrap == "unc":
        r = q.QuantumVariable(m)
        for i in range(m):
            q.cx(o[i], r[i])
        o.uncompute()
        q.merge([x, r, e, cx_, ce])
        return rows(prog.table(x.qs, [cx_, ce, x, e, r]), 2, n + 1, lambda a, b: (a, b, f(a)), True)
    q.merge([x, o, e, cx_, ce])
    pt = method not in EXACT
    want = (lambda a, b: (a, b, f(a) if b else 0)) if wrap == "ctl" else (lambda a, b: (a, b, 0)) if wrap == "undo" else (lambda a, b: (a, b, f(a)))
    return rows(prog.table(x.qs, [cx_, ce, x, e, o]), 2, n + 1, want, phases=not pt or wrap == "undo")


# ---- dictionaries ----------------------------------------------------------------------------------

def ftype(spec):
    n, e, s = spec
    return q.QuantumFloat(n, e, signed=s)


KEYS = {
    "u2": (lambda: q.QuantumFloat(2), lambda r: r, 2), "s1": (lambda: q.QuantumFloat(1, signed=True), lambda r: r - 4 * (r >= 2), 2), "e": (lambda: q.QuantumFloat(2, -1), lambda r: r / 2, 2), "u3": (lambda: q.QuantumFloat(3), lambda r: r, 3),
    "bool": (lambda: q.QuantumBool(), lambda r: bool(r), 1), "mod": (lambda: q.QuantumModulus(3), lambda r: r, 2), "label": (lambda: q.custom_qv(["p", "q", "r", "s"]), lambda r: "pqrs"[r], 2), "tuple": (lambda: q.custom_qv([(0, 0), (0, 1), (1, 0), (1, 1)]), lambda r: (r >> 1, r & 1), 2),
    "var": (lambda: q.QuantumVariable(2), lambda r: format(r, "02b")[::-1], 2), "char": (lambda: q.QuantumChar(), lambda r: "abcdefghijklmnopqrstuvwxyz .!?:,"[r], 5),
}


def dic(ctx, kinds, table, ret, method, wrap):
    """table: list of (raw key tuple, value)."""
    ks = [KEYS[k] for k in kinds]
    keys = [k[0]() for k in ks]
    dec = lambda raw: tuple(k[1](r) for k, r in zip(ks, raw)) if len(ks) > 1 else ks[0][1](raw[0])
    content = {dec(raw): v for raw, v in table}
    d = q.QuantumDictionary(content, return_type=ret() if ret else None)
    for k, v in content.items():
        if d[k] != v:
            return f"classical key {k}: {d[k]}"
    if dict(d) != content or len(d) != len(content):
        return "dictionary content changed"
    e = q.QuantumVariable(1)
    cs = [copyof(k) for k in keys]
    ce = copyof(e)
    ctx.step()
    ctx.state((kinds, tuple(sorted(content.items(), key=str)), bool(ret), method, wrap))
    arg = keys[0] if len(keys) == 1 else tuple(keys)
    if wrap == "into":
        o = ret()
        d.load(arg, o, synth_method="gray" if method == "item" else method)
    elif wrap == "ctl":
        with q.control(e[0]):
            o = d[arg]
    elif method == "item":
        o = d[arg]
    else:
        o = d.load(arg, synth_method=method)
    bits = sum(k[2] for k in ks) + 1
    look = {tuple(r): v for r, v in table}
    vals = [o.encoder(v) for v in look.values()]

    def f(*a):
        raw, ev = a[:-1], a[-1]
        r = o.encoder(look[raw]) if raw in look and (wrap != "ctl" or ev) else 0
        return tuple(raw) + (ev, int(r))
    if wrap == "unc":
        r = q.QuantumVariable(len(o))
        for i in range(len(o)):
            q.cx(o[i], r[i])
        o.uncompute()
        o2 = r
    else:
        o2 = o
    q.merge(keys + cs + [ce, e, o2])
    for v, w in zip(look.values(), vals):
        if o.decoder(w) != v:
            return f"result type decodes {w} as {o.decoder(w)}, not {v}"
    return rows(prog.table(o2.qs, cs + [ce] + keys + [e, o2]), len(ks) + 1, bits, f, True)


# ---- booleans --------------------------------------------------------------------------------------

EXPR = {
    "a&b": lambda a, b, c: a & b, "a|b": lambda a, b, c: a | b, "a^b": lambda a, b, c: a ^ b, "~a": lambda a, b, c: ~a, "(a&b)|c": lambda a, b, c: (a & b) | c, "~(a|b)&c": lambda a, b, c: ~(a | b) & c, "(a^b)^c": lambda a, b, c: (a ^ b) ^ c, "a|(b^c)": lambda a, b, c: a | (b ^ c), "(a&b)^(b|c)": lambda a, b, c: (a & b) ^ (b | c), "~~a": lambda a, b, c: ~~a, "~a&~b": lambda a, b, c: ~a & ~b,
}


class Bit(int):
    def __invert__(self):
        return Bit(1 - self)

    def __and__(self, o):
        return Bit(int(self) & int(o))

    def __or__(self, o):
        return Bit(int(self) | int(o))

    def __xor__(self, o):
        return Bit(int(self) ^ int(o))


def booleans(ctx, mode, name, wrap):
    f = EXPR[name]

    def build():
        a, b, c, e = q.QuantumBool(), q.QuantumBool(), q.QuantumBool(), q.QuantumVariable(1)
        r, o = q.QuantumVariable(4), q.QuantumBool()
        for i, v in enumerate((a, b, c, e)):
            q.h(r[i])
            q.cx(r[i], v[0])

        def act():
            res = f(a, b, c)
            q.cx(res[0], o[0])
            if mode == "rec" and name in ("a&b", "a|b", "a^b", "~a"):
                res.uncompute()
        if wrap == "ctl":
            with q.control(e[0]):
                act()
        else:
            act()
        return r, a, b, c, e, o
    want = lambda r: (r & 1, r >> 1 & 1, r >> 2 & 1, r >> 3, int(f(Bit(r & 1), Bit(r >> 1 & 1), Bit(r >> 2 & 1))) if wrap != "ctl" or r >> 3 else 0)
    ctx.step()
    ctx.state((mode, name, wrap))
    simple = mode == "rec" and name in ("a&b", "a|b", "a^b", "~a")
    if mode == "rec":
        vs = build()
        q.merge(list(vs))
        tabs = [prog.table(vs[0].qs, list(vs))]
    else:
        res, qc = jsim.circuit(build)
        tabs = [t for _, _, t in prog.branch_tables(qc, [list(r) for r in res if isinstance(r, (list, tuple))])]
    for tab in tabs:
        for k, amp in tab.items():
            if k[1:-1] != want(k[0]):
                return f"input {k[0]:04b} gives {k[1:-1]}, expected {want(k[0])}"
            if simple and k[-1]:
                return f"helper qubits end in {k[-1]:b}"
        if {k[0] for k in tab} != set(range(16)):
            return "an input is missing"


def flip(ctx):
    for v in (False, True):
        b = q.QuantumBool()
        b[:] = v
        ctx.step()
        if b.get_measurement() != {v: 1.0} or b.flip().get_measurement() != {not v: 1.0}:
            return f"flip of {v}"
        r = q.QuantumBool()
        with b:
            q.x(r)
        if r.get_measurement() != {not v: 1.0}:
            return "used as a condition"
    ctx.state(("flip",))


# ---- characters and strings ------------------------------------------------------------------------

ALPHA = "abcdefghijklmnopqrstuvwxyz .!?:,"


def chars(ctx, nisq):
    for i in range(32 if nisq else 256):
        c = q.QuantumChar(nisq_char=nisq)
        ch = ALPHA[i] if nisq else chr(i)
        c[:] = ch
        ctx.step()
        ctx.state((nisq, i))
        if c.get_measurement() != {ch: 1.0} or c.decoder(i) != ch or c.encoder(ch) != i:
            return f"character {ch!r}: reads {c.get_measurement()}"
    c = q.QuantumChar(nisq_char=nisq)
    q.h(c)
    got = c.get_measurement()
    n = 32 if nisq else 256
    if set(got) != {ALPHA[i] if nisq else chr(i) for i in range(n)} or any(abs(p - 1 / n) > 1e-4 for p in got.values()):
        return f"uniform superposition reads {got}"


def strings(ctx, s, t, nisq):
    """Encode, read, index, slice, concatenate with a quantum and a classical string."""
    a = q.QuantumString(len(s), nisq_char=nisq)
    a[:] = s
    ctx.step(6)
    ctx.state((s, t, nisq))
    if a.get_measurement() != {s: 1.0}:
        return f"{s!r} reads {a.get_measurement()}"
    if len(a) != len(s) or a[0].get_measurement() != {s[0]: 1.0} or a[-1].get_measurement() != {s[-1]: 1.0}:
        return "single characters differ"
    for sl in (slice(1, None), slice(None, None, -1), slice(0, 1)):
        if len(s[sl]) and a[sl].get_measurement() != {s[sl]: 1.0}:
            return f"slice {sl} reads {a[sl].get_measurement()}, expected {s[sl]!r}"
    b = q.QuantumString(len(t), nisq_char=nisq)
    b[:] = t
    c = a + b
    if c.get_measurement() != {s + t: 1.0} or len(c) != len(s) + len(t):
        return f"concatenation reads {c.get_measurement()}"
    if nisq:
        a += t
        if a.get_measurement() != {s + t: 1.0}:
            return f"appending reads {a.get_measurement()}"
    d = a.duplicate(init=True)
    if d.get_measurement() != a.get_measurement():
        return "copy differs"
    # superposed characters read jointly
    e = q.QuantumString(2, nisq_char=nisq)
    e[:] = s[0] + t[0]
    q.h(e[0][0])
    q.cx(e[0][0], e[1][0])
    q.x(e[1][0])
    al = (lambda ch: ALPHA.index(ch)) if nisq else ord
    ch = (lambda i: ALPHA[i]) if nisq else chr
    x, y = al(s[0]), al(t[0])
    want = {}
    for v in (0, 1):
        # amplitude sign is irrelevant; first bit becomes v, second character's bit is flipped by v and inverted
        want[ch(x & ~1 | v) + ch(y ^ v ^ 1)] = 0.5
    if {k: round(p, 3) for k, p in e.get_measurement().items()} != want:
        return f"superposed string reads {e.get_measurement()}, expected {want}"


def partial_maps(nk, nv):
    return itertools.product([None] + list(range(nv)), repeat=nk)


def shards(tier):
    out = [f"tt/{m}/{i}" for m in METHODS for i in range(2 if tier == "quick" else 4)]
    out += [f"tt2/{m}" for m in METHODS] + ["form"]
    out += [f"dic/{i}" for i in range(6)] + ["dkeys", "dtypes", "bool/rec", "bool/tr", "flip", "char", "str"]
    if tier != "quick":
        out += [f"tt4/{m}/{i}" for m in METHODS for i in range(4)]
    return out


def bits_of(i, n):
    return format(i, f"0{1 << n}b")


def run(shard, ctx):
    quick = ctx.tier == "quick"
    p = shard.split("/")
    if p[0] == "tt":
        step = 2 if quick else 4
        for n in (1, 2, 3):
            for i in range(1 << (1 << n)):
                if i % step != int(p[2]):
                    continue
                wraps = ("plain", "ctl", "inv", "gate", "undo", "unc") if (n < 3 or not quick) else ("plain",) + (("ctl", "inv", "gate", "undo", "unc")[i // step % 5],)
                for w in wraps:
                    if n == 1 and p[1].startswith("gray") and w == "gate" and False:
                        continue
                    ctx.case(f"tt/{p[1]}/{n}/{bits_of(i, n)}/{w}", synth, ctx, (bits_of(i, n),), n, p[1], "str", w)
    elif p[0] == "tt4":
        for i in range(int(p[2]), 1 << 16, 4):
            if (i // 4) % 37 == 0:
                ctx.case(f"tt4/{p[1]}/{i}", synth, ctx, (bits_of(i, 4),), 4, p[1], "arr", "plain")
    elif p[0] == "tt2":
        for i in range(16):
            for j in range(16):
                if quick and (i + j) % 2:
                    continue
                ctx.case(f"tt2/{p[1]}/{i}/{j}", synth, ctx, (bits_of(i, 2), bits_of(j, 2)), 2, p[1], "arr", ("plain", "ctl", "inv", "unc")[(i + 3 * j) // 2 % 4] if quick else "plain")
        for i in range(0, 256, 16 if quick else 1):
            cols = (bits_of(i, 3), bits_of((i * 37 + 11) % 256, 3), bits_of((i * 91 + 5) % 256, 3))
            ctx.case(f"tt2/{p[1]}/3/{i}", synth, ctx, cols, 3, p[1], "str", "plain")
    elif p[0] == "form":
        for how in ("arr", "expr"):
            for n in (1, 2, 3):
                for i in range(0, 1 << (1 << n), 1 if n < 3 else 5):
                    if how == "expr" and len(form_symbols(bits_of(i, n), n)) != n:
                        continue
                    for m in ("gray", "pprm"):
                        ctx.case(f"form/{how}/{m}/{bits_of(i, n)}", synth, ctx, (bits_of(i, n),), n, m, how, "plain")
    elif p[0] == "dic":
        for i, mp in enumerate(partial_maps(4, 3)):
            if i % 6 != int(p[1]) or all(v is None for v in mp):
                continue
            tab = [((k,), v) for k, v in enumerate(mp) if v is not None]
            w = ("plain", "ctl", "unc", "into")[i // 6 % 4]
            me = ("item", "gray", "pprm")[i // 6 % 3]
            ctx.case(f"dic/{''.join('-' if v is None else str(v) for v in mp)}/{w}", dic, ctx, ("u2",), tab, lambda: q.QuantumFloat(2), me, w)
    elif p[0] == "dkeys":
        for kinds in [(k,) for k in KEYS] + [("bool", "u2"), ("u2", "bool"), ("label", "bool"), ("s1", "u2"), ("bool", "bool", "bool"), ("e", "mod"), ("u2", "s1"), ("tuple", "bool")]:
            sizes = [KEYS[k][2] for k in kinds]
            raws = list(itertools.product(*[range(3 if k == "mod" else 1 << s) for k, s in zip(kinds, sizes)]))
            for ti, tab in enumerate(([(r, i % 4) for i, r in enumerate(raws)], [(r, 3 - i % 3) for i, r in enumerate(raws) if i % 2], [(raws[-1], 2)], [(r, (i * i + 1) % 4) for i, r in enumerate(raws[1:])])):
                for w in ("plain", "ctl", "unc"):
                    for ret in ("float", "none"):
                        if ret == "none" and (w != "plain" or not tab):
                            continue
                        ctx.case(f"dkeys/{'+'.join(kinds)}/{ti}/{w}/{ret}", dic, ctx, kinds, tab, (lambda: q.QuantumFloat(2)) if ret == "float" else None, "item", w)
    elif p[0] == "dtypes":
        rets = {"s": (lambda: q.QuantumFloat(2, signed=True), (-4, -1, 3)), "e": (lambda: q.QuantumFloat(3, -2), (0.25, 1.5, 1.75)), "bool": (lambda: q.QuantumBool(), (True, False, True)), "mod": (lambda: q.QuantumModulus(5), (4, 2, 3)), "label": (lambda: q.custom_qv(["x", "y", "z"]), ("z", "x", "y")), "char": (lambda: q.QuantumChar(), ("h", "?", "a")), "none": (None, ("u", "v", "w")), "nonedup": (None, ("u", "u", "w")), "nonenum": (None, (7, 3, 1))}
        for r, (mk, vs) in rets.items():
            for perm in itertools.permutations(vs):
                for w in ("plain", "ctl", "unc"):
                    ctx.case(f"dtypes/{r}/{perm}/{w}", dic, ctx, ("u2",), [((i,), v) for i, v in enumerate(perm)], mk, "item", w)
    elif p[0] == "bool":
        for n in EXPR:
            for w in ("plain", "ctl"):
                ctx.case(f"bool/{p[1]}/{n}/{w}", booleans, ctx, p[1], n, w)
    elif p[0] == "flip":
        ctx.case("flip", flip, ctx)
    elif p[0] == "char":
        for nisq in (True, False):
            ctx.case(f"char/{nisq}", chars, ctx, nisq)
    elif p[0] == "str":
        for s in ["".join(x) for x in itertools.product("ab?", repeat=2)] + ["a", "hello", "q"]:
            for t in ("b", "no", "?a"):
                if quick and len(s) == 2 and s[0] == "b":
                    continue
                if len(s + t) < 5:
                    ctx.case(f"str/8/{s}/{t}", strings, ctx, s, t, False)
                ctx.case(f"str/5/{s}/{t}", strings, ctx, s, t, True)


def form_symbols(col, n):
    xs = [sp.Symbol(f"x{i}") for i in range(n)]
    e = sp.Integer(0)
    for i in range(1 << n):
        if col[i] == "1":
            e += sp.prod([xs[j] if i >> j & 1 else 1 + xs[j] for j in range(n)])
    return sp.expand(e).free_symbols


RULE = "lookups write the tabulated value for every key, keys unchanged; boolean, character and string operations agree with classical ones"
