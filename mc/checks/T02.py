"""Comparisons of quantum numbers against comparisons of numbers."""
import itertools, operator
from fractions import Fraction as F
import numpy as np
import qrisp as q
from mc import prog
from mc.checks.T01 import sz, mk, val, vals, sup, sname, shape_of

NOTE = "the six comparisons x every pair of operand shapes up to the bound x all operand values at once, and every shape x every classical threshold on a grid four times finer than the encoding and reaching outside the range, on both sides, as a value and as a block condition; unsigned integer comparators with every adder; the exact final state must be the graph of the classical comparison"

OPS = {"<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}
FUN = {"<": "uint_lt", ">": "uint_gt", "<=": "uint_le", ">=": "uint_ge"}
ADD = ["gidney_adder", "fourier_adder"]
EX = (-1, 0, 1)
S = [(m, e, s) for m in (1, 2) for e in EX for s in (False, True)]
W = [(m, e, s) for m, e in ((1, 3), (1, -2), (3, 0), (3, -1)) for s in (False, True)]


def shards(tier):
    base = S + W
    out = [["qq", op, i] for op in OPS for i in range(len(base))]
    out += [["qc", op, i] for op in OPS for i in range(len(base))]
    out += [["cond", op, i] for op in OPS for i in range(3)]
    out += [["uint", op, a] for op in FUN for a in ADD]
    out += [["unc"]]
    return out


def cmp_case(shapes, op, f):
    vs = sup(shapes)
    r = op(*vs)
    for v, s in zip(vs, shapes):
        if shape_of(v) != s:
            return f"operand changed its shape from {s} to {shape_of(v)}"
    exp = {tuple(i for i, _ in c): (int(f(*[x for _, x in c])),) for c in itertools.product(*[vals(s) for s in shapes])}
    m = prog.is_map(prog.table(r.qs, list(vs) + [r]), exp, len(vs))
    if m:
        return m
    if not isinstance(r, q.QuantumBool):
        return f"result is a {type(r).__name__}"


def cond_case(shapes, cond, f, body):
    """with <cond>: body(target)   -> target changed exactly where the comparison holds."""
    vs = sup(shapes)
    t = q.QuantumVariable(2)
    with cond(*vs):
        body(t)
    exp = {tuple(i for i, _ in c): (3 if f(*[x for _, x in c]) else 0,) for c in itertools.product(*[vals(s) for s in shapes])}
    return prog.is_map(prog.table(t.qs, list(vs) + [t]), exp, len(vs))


def flip(t):
    q.x(t[0])
    q.cx(t[0], t[1])


def phase_case(shapes, cond, f):
    """A phase applied under the condition appears exactly on the rows where it holds."""
    vs = sup(shapes)
    with cond(*vs):
        q.gphase(0.7, vs[0][0])
    tab = prog.table(vs[0].qs, vs)
    n = sum(map(sz, shapes))
    for c in itertools.product(*[vals(s) for s in shapes]):
        k = tuple(i for i, _ in c) + (0,)
        w = np.exp(0.7j) if f(*[x for _, x in c]) else 1
        if k not in tab or abs(tab[k] * 2 ** (n / 2) - w * tab_ref(tab, shapes, f)) > 1e-3:
            return f"row {k[:-1]} has amplitude {tab.get(k)}"


def tab_ref(tab, shapes, f):
    """Global phase: amplitude of the first row divided by what it should be."""
    c = next(itertools.product(*[vals(s) for s in shapes]))
    k = tuple(i for i, _ in c) + (0,)
    w = np.exp(0.7j) if f(*[x for _, x in c]) else 1
    return tab.get(k, 0) * 2 ** (sum(map(sz, shapes)) / 2) / w


def grid(a):
    st = F(2) ** a[1]
    vs = [v for _, v in vals(a)]
    z, out = min(vs) - 2 * st, []
    while z <= max(vs) + 2 * st:
        out.append(int(z) if z.denominator == 1 else float(z))
        z += st / 4 if a[0] < 3 else st / 2
    return out


def run(shard, ctx):
    kind = shard[0]

    def case(key, fn, *a, n=1):
        ctx.case("/".join([str(s) for s in shard] + [key]), fn, *a, timeout=60)
        ctx.state(str(shard), key)
        ctx.step(n)
    base = S + W
    if kind == "qq":
        o = OPS[shard[1]]
        a = base[shard[2]]
        for b in (base if ctx.tier != "quick" else S + (W if shard[1] in ("<", "==") else [])):
            if ctx.tier == "quick" and ((a in W and b in W) or max(a[1] + a[0], b[1] + b[0]) - min(a[1], b[1]) > 4):
                continue
            if ctx.tier == "quick" and shard[1] not in ("<", "==") and (a[0] != b[0] and a[1] != b[1]):
                continue
            case(f"{sname(a)},{sname(b)}", cmp_case, [a, b], o, o, n=1 << (sz(a) + sz(b)))
    elif kind == "qc":
        o = OPS[shard[1]]
        a = base[shard[2]]
        for c in grid(a):
            case(f"{sname(a)},{c}", cmp_case, [a], lambda u: o(u, c), lambda x: o(x, F(c)), n=1 << sz(a))
            if float(c) == int(c) or shard[1] in ("<", "=="):
                case(f"{c},{sname(a)}", cmp_case, [a], lambda u: o(c, u), lambda x: o(F(c), x), n=1 << sz(a))
    elif kind == "cond":
        o = OPS[shard[1]]
        for a in S:
            if a[1] == EX[shard[2]]:
                for b in [(2, 0, False), (2, 0, True), (1, a[1], False)]:
                    case(f"{sname(a)},{sname(b)}", cond_case, [a, b], o, o, flip, n=1 << (sz(a) + sz(b)))
                for c in (0, 1, 2, -1, 1.5):
                    case(f"{sname(a)},{c}", cond_case, [a], lambda u: o(u, c), lambda x: o(x, F(c)), flip, n=1 << sz(a))
                    case(f"phase {sname(a)},{c}", phase_case, [a], lambda u: o(u, c), lambda x: o(x, F(c)), n=1 << sz(a))
    elif kind == "uint":
        o, name = OPS[shard[1]], FUN[shard[1]]
        ad = getattr(q, shard[2])
        cm = getattr(q, name)
        for m in (1, 2, 3):
            a = (m, 0, False)
            for k in (1, 2, 3):
                b = (k, 0, False)
                case(f"{m},{k}", cmp_case, [a, b], lambda u, v: cm(u, v, ad), o, n=1 << (m + k))
            for c in range(-2, (1 << m) + 3):
                case(f"{m},c{c}", cmp_case, [a], lambda u: cm(u, c, ad), lambda x: o(x, c), n=1 << m)
                case(f"c{c},{m}", cmp_case, [a], lambda u: cm(c, u, ad), lambda x: o(c, x), n=1 << m)
    elif kind == "unc":
        for a in [(2, 0, False), (2, 0, True), (2, -1, True)]:
            for b in [(2, 0, False), (1, 1, True)]:
                for o in OPS:
                    case(f"{sname(a)},{sname(b)} {o}", unc_case, [a, b], OPS[o], n=1 << (sz(a) + sz(b)))


def unc_case(shapes, o):
    """Use the result, then uncompute it: the operands' superposition must be intact."""
    vs = sup(shapes)
    r = o(*vs)
    t = q.QuantumVariable(1)
    q.cx(r[0], t[0])
    r.uncompute()
    exp = {tuple(i for i, _ in c): (int(o(*[x for _, x in c])),) for c in itertools.product(*[vals(s) for s in shapes])}
    return prog.is_map(prog.table(t.qs, list(vs) + [t]), exp, len(vs))
