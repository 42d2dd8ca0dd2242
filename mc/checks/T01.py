"""QuantumFloat arithmetic against ordinary arithmetic, every operand value of every shape."""
import itertools, math
from fractions import Fraction as F
import numpy as np
import sympy as sp
import qrisp as q
from mc import prog

NOTE = "every operation x every operand shape (size, exponent, sign) up to the bound x every operand value at once: the operands are put in uniform superposition, the compiled program's exact final state is read as a table, and must be exactly the graph of the arithmetic function (operands kept, helpers clean, no relative phase)"
ASSUMPTIONS = ["in-place addition is explored with operands not finer than the target (coarser targets have no documented rounding)", "division by zero is excluded"]

S1 = [(m, e, s) for m in (1, 2) for e in (-1, 0, 1) for s in (False, True)]
S3 = S1 + [(3, e, s) for e in (-1, 0, 1) for s in (False, True)]


def sz(sh):
    return sh[0] + sh[2]


def mk(sh):
    v = q.QuantumFloat(sh[0], sh[1], signed=sh[2])
    return v


def val(i, sh):
    k = i - (1 << sz(sh)) if sh[2] and i >> (sz(sh) - 1) else i
    return F(k) * F(2) ** sh[1]


def vals(sh):
    return [(i, val(i, sh)) for i in range(1 << sz(sh))]


def shape_of(v):
    return (int(v.size) - bool(v.signed), int(v.exponent), bool(v.signed))


def pattern(x, sh):
    """Register content of value x; None when x is not a multiple of the precision."""
    k = F(x) / F(2) ** sh[1]
    return int(k) % (1 << sz(sh)) if k.denominator == 1 else None


def fits(x, sh):
    k = F(x) / F(2) ** sh[1]
    lo, hi = (-(1 << sh[0]) if sh[2] else 0), (1 << sh[0]) - 1
    return k.denominator == 1 and lo <= k <= hi


def sup(shapes):
    vs = [mk(s) for s in shapes]
    for v in vs:
        q.h(v)
    return vs


def decoded_ok(v):
    sh = shape_of(v)
    for i, x in vals(sh):
        d = v.decoder(i)
        if F(float(d)) != x:
            return f"pattern {i} of shape {sh} reads as {d}, not {x}"


def oop(shapes, op, f, exact, keep=None):
    """Out-of-place: result = f(values). exact: the result range must hold the value itself."""
    vs = sup(shapes)
    r = op(*vs)
    sh = shape_of(r)
    for v, s in zip(vs, shapes):
        if shape_of(v) != s:
            return f"operand changed its shape from {s} to {shape_of(v)}"
    exp = {}
    for c in itertools.product(*[vals(s) for s in shapes]):
        y = f(*[x for _, x in c])
        if exact and not fits(y, sh):
            return f"result range {sh} cannot hold {y} for operands {[str(x) for _, x in c]}"
        p = pattern(y, sh)
        if p is None:
            return f"result precision {sh} cannot hold {y} for operands {[str(x) for _, x in c]}"
        exp[tuple(i for i, _ in c)] = (p,)
    return prog.is_map(prog.table(r.qs, list(vs) + [r]), exp, len(vs)) or decoded_ok(r)


def inpl(shapes, op, f, exact=False):
    """In-place on the first operand; may change its shape. Others are kept.
    The start value is kept readable through an entangled copy of the first operand."""
    vs = sup(shapes)
    ref = q.QuantumVariable(vs[0].size)
    q.cx(list(vs[0]), list(ref))
    x = op(*vs)
    t = vs[0] if x is None else x
    if t is not vs[0]:
        return "in-place operation returned another object"
    sh = shape_of(t)
    exp = {}
    for c in itertools.product(*[vals(s) for s in shapes]):
        y = f(*[x for _, x in c])
        if exact and not fits(y, sh):
            return f"result range {sh} cannot hold {y} for operands {[str(x) for _, x in c]}"
        p = pattern(y, sh)
        if p is None:
            return f"result precision {sh} cannot hold {y}"
        exp[tuple(i for i, _ in c)] = (p,)
    return prog.is_map(prog.table(t.qs, [ref] + vs[1:] + [t]), exp, len(vs)) or decoded_ok(t)


# ------------------------------------------------------------- environments around an in-place op
def mode_ctrl(op, state):
    def g(a, *rest):
        c = q.QuantumVariable(1)
        if state == "1":
            q.x(c)
        with q.control(c[0]):
            op(a, *rest)
        if state == "1":
            q.x(c)
        c.delete()
        return a
    return g


def mode_inv(op):
    def g(a, *rest):
        with q.invert():
            op(a, *rest)
        return a
    return g


def isub(a, b):
    a -= b
    return a


def iadd(a, b):
    a += b
    return a


def imul(a, c):
    a *= c
    return a


def binary_shards():
    for op in ("add", "sub", "mul", "sbpm", "hyb", "rip"):
        for e in (-1, 0, 1):
            yield ["bin", op, e]


BIN = {
    "add": (lambda a, b: a + b, lambda x, y: x + y), "sub": (lambda a, b: a - b, lambda x, y: x - y), "mul": (lambda a, b: a * b, lambda x, y: x * y),
    "sbpm": (lambda a, b: q.q_mult(a, b, method="sbp"), lambda x, y: x * y), "hyb": (lambda a, b: q.hybrid_mult(a, b), lambda x, y: x * y),
}


def pairs(e, tier):
    """Operand shape pairs whose first exponent is e."""
    base = S1 if tier == "quick" else S3
    out = [(a, b) for a in base if a[1] == e for b in base]
    if tier == "quick" and e == 0:
        out += [((3, 0, s), (m, 0, t)) for m in (1, 2, 3) for s in (False, True) for t in (False, True) if m + s + t < 5] + [((1, 0, s), (3, 0, t)) for s in (False, True) for t in (False, True)]
    return out


def shards(tier):
    out = []
    for op in BIN:
        for e in (-1, 0, 1):
            for s in (False, True):
                out.append(["bin", op, e, s])
    out += [["ripm"]]
    out += [["self", k] for k in ("add", "sub", "mul")]
    out += [["inpl", e, k] for e in (-1, 0, 1) for k in ("plain", "c1", "c0", "inv")]
    out += [["const", e, s] for e in (-1, 0, 1) for s in (False, True)]
    out += [["cmul", s] for s in (False, True)] + [["cimul", s] for s in (False, True)]
    out += [["incr"], ["shift"], ["copy"], ["codec"]]
    out += [["poly", i] for i in range(len(POLYS))] + [["phase", i] for i in range(len(POLYS))]
    out += [["pow", k] for k in (0, 1, 2, 3)]
    out += [["div", s, t] for s in (False, True) for t in (False, True)] + [["fdiv"], ["isqrt"], ["inv"]]
    return out


x, y = sp.symbols("x y")
POLYS = [x, 2 * x, -x, x ** 2, x ** 2 - 2 * x + 1, x ** 3, x + y, x - y, x * y, x * y - 3 * y + 2, 2 * x ** 2 * y - x * y ** 2 + 1, x / 2 + y]


def sname(sh):
    return f"{'s' if sh[2] else 'u'}{sh[0]}e{sh[1]}"


def run(shard, ctx):
    kind = shard[0]
    tier = ctx.tier

    def case(key, fn, *a, n=0):
        ctx.case("/".join([str(s) for s in shard] + [key]), fn, *a, timeout=40)
        for _ in range(1):
            ctx.state(str(shard), key)
        ctx.step(n or 1)
    if kind == "bin":
        op, f = BIN[shard[1]]
        for a, b in pairs(shard[2], tier):
            if a[2] != shard[3]:
                continue
            if shard[1] in ("sbpm", "hyb") and tier == "quick" and (a[1], b[1]) not in ((0, 0), (-1, 1)):
                continue
            case(f"{sname(a)},{sname(b)}", oop, [a, b], op, f, True, n=1 << (sz(a) + sz(b)))
    elif kind == "ripm":
        for a in (1, 2, 3):
            for b in (1, 2, 3):
                for e in (0, 1):
                    A, B = (a, e, False), (b, -e, False)
                    for ad in ("fourier_adder", "gidney_adder"):
                        case(f"{ad}/{sname(A)},{sname(B)}", oop, [A, B], lambda u, v: q.q_int_mult(u, v, inpl_adder=getattr(q, ad)), lambda s, t: s * t, True, n=1 << (a + b))
            for c in (1, 3, 5, 7, -1, -3, 9):
                for ad in ("fourier_adder", "gidney_adder"):
                    case(f"in/{ad}/{a}*{c}", inpl, [(a, 0, False)], lambda u: q.inpl_q_int_mult(u, c, inpl_adder=getattr(q, ad)), lambda s: s * c, n=1 << a)
    elif kind == "self":
        op, f = BIN[shard[1]]
        for a in S3:
            case(sname(a), oop, [a], lambda u: op(u, u), lambda s: f(s, s), True, n=1 << sz(a))
    elif kind == "inpl":
        for a in S3:
            if a[1] != shard[1]:
                continue
            for b in (S1 if shard[2] != "plain" else S3):
                if b[1] < a[1] or (b[2] and not a[2]):
                    continue
                for nm, op, sg in (("+=", iadd, 1), ("-=", isub, -1)):
                    m = shard[2]
                    g = {"plain": op, "c1": mode_ctrl(op, "1"), "c0": mode_ctrl(op, "0"), "inv": mode_inv(op)}[m]
                    s = {"plain": sg, "c1": sg, "c0": 0, "inv": -sg}[m]
                    case(f"{sname(a)}{nm}{sname(b)}", inpl, [a, b], g, lambda u, v: u + s * v, n=1 << (sz(a) + sz(b)))
    elif kind == "const":
        for a in S3:
            if a[1] != shard[1] or a[2] != shard[2]:
                continue
            st = F(2) ** a[1]
            for k in range(-9, 10):
                c = k * st
                c = int(c) if c.denominator == 1 else float(c)
                case(f"{sname(a)}+={c}", inpl, [a], lambda u: iadd(u, c), lambda s: s + F(c), n=1 << sz(a))
                case(f"{sname(a)}-={c}", inpl, [a], lambda u: isub(u, c), lambda s: s - F(c), n=1 << sz(a))
                if abs(k) < 6 or tier != "quick":
                    case(f"{sname(a)}+{c}", oop, [a], lambda u: u + c, lambda s: s + F(c), False, n=1 << sz(a))
                    case(f"{c}+{sname(a)}", oop, [a], lambda u: c + u, lambda s: s + F(c), False, n=1 << sz(a))
                    case(f"{sname(a)}-{c}", oop, [a], lambda u: u - c, lambda s: s - F(c), False, n=1 << sz(a))
                    case(f"{c}-{sname(a)}", oop, [a], lambda u: c - u, lambda s: F(c) - s, False, n=1 << sz(a))
    elif kind == "cmul":
        for a in S3:
            if a[2] != shard[1]:
                continue
            for c in list(range(-8, 10)):
                case(f"{sname(a)}*{c}", oop, [a], lambda u: u * c, lambda s: s * c, True, n=1 << sz(a))
                if abs(c) < 4:
                    case(f"{c}*{sname(a)}", oop, [a], lambda u: c * u, lambda s: s * c, True, n=1 << sz(a))
    elif kind == "cimul":
        for a in S3:
            if a[2] != shard[1]:
                continue
            for c in [1, 2, 3, 4, 5, 6, 7, 8, 12, -1, -2, -3, -5, -6, 0.5, 1.5, 0.25, 0.75, -0.5, -1.5, 2.5, 2.0, 3.0, 0, 0.0]:
                if c == 0 or (c < 0 and not a[2]):
                    case(f"{sname(a)}*={c}", refused, a, lambda u: imul(u, c))
                    continue
                case(f"{sname(a)}*={c}", inpl, [a], lambda u: imul(u, c), lambda s: s * F(c), True, n=1 << sz(a))
    elif kind == "incr":
        for a in S3:
            st = F(2) ** a[1]
            case(f"{sname(a)} default", inpl, [a], lambda u: u.incr(), lambda s: s + st, n=1 << sz(a))
            for k in range(-(1 << sz(a)), 1 << sz(a)):
                c = k * st
                c = int(c) if c.denominator == 1 else float(c)
                if not fits(abs(F(c)), a):
                    continue
                case(f"{sname(a)} {c}", inpl, [a], lambda u: u.incr(c), lambda s: s + F(c), n=1 << sz(a))
    elif kind == "shift":
        for a in S3:
            for k in range(-3, 4):
                def sh_l(u):
                    u <<= k
                    return u

                def sh_r(u):
                    u >>= k
                    return u
                case(f"{sname(a)}<<={k}", inpl, [a], sh_l, lambda s: s * F(2) ** k, True, n=1 << sz(a))
                case(f"{sname(a)}>>={k}", inpl, [a], sh_r, lambda s: s * F(2) ** -k, True, n=1 << sz(a))
                case(f"{sname(a)} exp_shift {k}", inpl, [a], lambda u: u.exp_shift(k), lambda s: s * F(2) ** k, True, n=1 << sz(a))
            for k in range(-2, 3):
                if not a[2]:
                    case(f"{sname(a)} bit_shift {k}", inpl, [a], lambda u: u.quantum_bit_shift(k), lambda s: s * F(2) ** k, True, n=1 << sz(a))
    elif kind == "copy":
        for a in S3:
            case(f"dup {sname(a)}", oop, [a], lambda u: u.duplicate(init=True), lambda s: s, True, n=1 << sz(a))
            case(f"dup0 {sname(a)}", oop, [a], lambda u: u.duplicate(), lambda s: F(0), True, n=1 << sz(a))
            if not a[2]:
                case(f"sign {sname(a)}", inpl, [a], lambda u: u.add_sign(), lambda s: s, True, n=1 << sz(a))
            for b in S3:
                fine = b[1] <= a[1] and b[1] + b[0] >= a[1] + a[0] and (b[2] or not a[2])

                def into(u):
                    v = mk(b)
                    v.init_from(u)
                    return v
                if fine:
                    case(f"init {sname(b)}<-{sname(a)}", oop, [a], into, lambda s: s, True, n=1 << sz(a))
                else:
                    case(f"init? {sname(b)}<-{sname(a)}", lossy, a, b, into, n=1 << sz(a))
                    if b[2] or not a[2]:
                        case(f"initf {sname(b)}<-{sname(a)}", forced, a, b, n=1 << sz(a))
    elif kind == "codec":
        for a in S3:
            case(sname(a), codec, a, n=1 << sz(a))
    elif kind == "poly":
        p = POLYS[shard[1]]
        nv = len(p.free_symbols)
        outs = [(3, 0, True), (2, 0, True), (4, -1, True), (3, 0, False), (4, -2, True), (3, -2, False)]
        for ins in itertools.product(S1, repeat=nv):
            if nv == 2 and tier == "quick" and (ins[0][0] != ins[1][0] or ins[0][1] == 1 or ins[1][1] == 1):
                continue
            for o in outs:
                if (any(i[2] for i in ins) and not o[2]) or (nv == 2 and tier == "quick" and o not in outs[1:3]):
                    continue
                case(f"{p} {[sname(i) for i in ins]} -> {sname(o)}", polyenc, p, ins, o, n=1 << sum(map(sz, ins)))
    elif kind == "phase":
        p = POLYS[shard[1]]
        nv = len(p.free_symbols)
        for ins in itertools.product(S3 if nv == 1 else S1, repeat=nv):
            if nv == 2 and tier == "quick" and abs(ins[0][1] + ins[1][1]) > 1:
                continue
            for t in (1, 0.3) if nv == 1 else (0.3,):
                case(f"{p} {[sname(i) for i in ins]} t={t}", phasepoly, p, ins, t, n=1 << sum(map(sz, ins)))
    elif kind == "pow":
        k = shard[1]
        for a in S3:
            if sz(a) * k > 9 or (k == 3 and a == (3, 0, False)):
                continue
            case(f"{sname(a)}**{k}", oop, [a], lambda u: u ** k, lambda s: s ** k, True, n=1 << sz(a))
    elif kind == "div":
        for a in S1:
            for b in S1:
                if a[2] != shard[1] or b[2] != shard[2] or a[1] == 1 or b[1] == 1:
                    continue
                for pr in (0, 1):
                    case(f"{sname(a)}/{sname(b)} prec {pr}", divmod_case, a, b, pr, n=1 << (sz(a) + sz(b)))
    elif kind == "fdiv":
        for a in S3:
            for b in S1:
                if a[2] or b[2] or a[1] or b[1]:
                    continue
                case(f"{sname(a)}//{sname(b)}", fdiv_case, a, b, n=1 << (sz(a) + sz(b)))
    elif kind == "isqrt":
        for n in (1, 2, 3, 4) + ((5,) if tier != "quick" else ()):
            case(str(n), isqrt_case, n, n=1 << n)
    elif kind == "inv":
        for a in [(1, 0, False), (2, 0, False), (2, -1, False), (1, 0, True)]:
            case(sname(a), inv_case, a)


def lossy(a, b, into):
    """A copy that cannot hold every value must be refused."""
    u, = sup([a])
    n = len(u.qs.data)
    try:
        into(u)
    except Exception:
        return None
    return "copy into a register that cannot hold every value was not refused"


def refused(a, op):
    u, = sup([a])
    try:
        op(u)
    except Exception:
        return None
    return "an operation without a reversible result was not refused"


def forced(a, b):
    """With errors ignored, the shared digits are copied, everything else is dropped."""
    u, = sup([a])
    v = mk(b)
    v.init_from(u, ignore_rounding_errors=True, ignore_overflow_errors=True)
    exp = {}
    for i, _ in vals(a):
        r = 0
        for j in range(b[0]):
            d = b[1] + j - a[1]
            if a[2]:
                bit = (i >> d) & 1 if 0 <= d < a[0] else (i >> a[0] if d >= a[0] else 0)
            else:
                bit = (i >> d) & 1 if 0 <= d < a[0] else 0
            r |= bit << j
        if a[2]:
            r |= (i >> a[0]) << b[0]
        exp[(i,)] = (r,)
    return prog.is_map(prog.table(v.qs, [u, v]), exp, 1)


def codec(a):
    for i, x in vals(a):
        v = mk(a)
        xx = int(x) if x.denominator == 1 else float(x)
        d = v.decoder(i)
        if F(float(d)) != x:
            return f"pattern {i} decodes to {d} instead of {x}"
        if v.encoder(xx) != i:
            return f"value {xx} encodes to {v.encoder(xx)} instead of {i}"
        v[:] = xx
        t = prog.table(v.qs, [v])
        if len(t) != 1 or list(t)[0] != (i, 0):
            return f"encoded {xx}, register holds {t}"
        m = v.get_measurement()
        if list(m) != [xx]:
            return f"encoded {xx}, measured {m}"
        if F(float(v.get_ev())) != x:
            return f"expectation of {xx} is {v.get_ev()}"
        if F(float(v.truncate(xx))) != x:
            return f"truncate({xx}) = {v.truncate(xx)}"
    grid = [val(i, a) for i in range(1 << sz(a))]
    step = F(2) ** a[1]
    lo, hi = min(grid), max(grid)
    v0 = mk(a)
    z = lo - 2 * step
    while z <= hi + 2 * step:
        zz = float(z)
        best = min(abs(g - z) for g in grid)
        near = {g for g in grid if abs(g - z) == best}
        t = F(float(v0.truncate(zz)))
        if t not in near:
            return f"truncate({zz}) = {float(t)}, nearest are {[float(g) for g in near]}"
        v = mk(a)
        v.encode(zz, rounding=True)
        m = list(v.get_measurement())
        if len(m) != 1 or F(float(m[0])) not in near:
            return f"encode({zz}, rounding) holds {m}"
        if z < lo or z > hi:
            w = mk(a)
            try:
                w[:] = zz
            except Exception:
                if prog.table(w.qs, [w]).keys() != {(0, 0)}:
                    return f"refused encode({zz}) changed the register"
            else:
                return f"encode({zz}) was accepted outside the range [{lo},{hi}]"
        z += step / 4
    if a[2]:
        if v0.sign() is not v0.reg[-1]:
            return "sign qubit is not the top qubit"
    for k in range(a[1] - 1, a[1] + a[0] + 2):
        try:
            s = v0.significant(k)
        except Exception:
            if a[1] <= k < a[1] + a[0]:
                return f"significant({k}) refused"
        else:
            if not a[1] <= k < a[1] + a[0] or s is not v0.reg[k - a[1]]:
                return f"significant({k}) is the wrong qubit"
    if tuple(int(i) for i in v0.mshape) != (a[1], a[1] + a[0]):
        return f"mshape {v0.mshape}"


def polyval(p, vs):
    syms = sorted(p.free_symbols, key=lambda s: s.name)
    return F(sp.Rational(p.subs({s: sp.Rational(v.numerator, v.denominator) for s, v in zip(syms, vs)})).p, sp.Rational(p.subs({s: sp.Rational(v.numerator, v.denominator) for s, v in zip(syms, vs)})).q)


def polyenc(p, ins, o):
    tabl = {}
    for c in itertools.product(*[vals(s) for s in ins]):
        k = pattern(polyval(p, [x for _, x in c]), o)
        if k is None:
            return None                     # the target cannot represent this polynomial exactly
        tabl[tuple(i for i, _ in c)] = (k,)
    # every monomial of bits must be representable too
    e = min(i[1] for i in ins)
    vs = sup(ins)
    r = mk(o)
    q.polynomial_encoder(vs, r, p)
    m = prog.is_map(prog.table(r.qs, list(vs) + [r]), tabl, len(vs))
    if m:
        return m
    syms = sorted(p.free_symbols, key=lambda s: s.name)
    vs = sup(ins)
    r = mk(o)
    r[:] = 1 if o[1] == 0 else 2.0 ** o[1]
    q.polynomial_encoder(vs[::-1], r, p, encoding_dic={v: s for v, s in zip(vs, syms)}, inplace_mult=3)
    t2 = {i: ((3 + k) % (1 << sz(o)),) for i, (k,) in tabl.items()}
    return prog.is_map(prog.table(r.qs, list(vs) + [r]), t2, len(vs))


def phasepoly(p, ins, t):
    vs = sup(ins)
    pp = p + 0
    q.app_phase_polynomial(vs, pp, t=t)
    tab = prog.table(vs[0].qs, vs)
    n = sum(map(sz, ins))
    if len(tab) != 1 << n:
        return f"{len(tab)} basis states with weight"
    ph0 = None
    for c in itertools.product(*[vals(s) for s in ins]):
        k = tuple(i for i, _ in c) + (0,)
        if k not in tab:
            return f"state {k} missing"
        w = np.exp(1j * t * float(polyval(p, [x for _, x in c])))
        g = tab[k] * 2 ** (n / 2) / w
        if ph0 is None:
            ph0 = g
        elif abs(g - ph0) > 1e-3:
            return f"phase of {k[:-1]} is off by {np.angle(g / ph0):.4f}"


def divmod_case(a, b, pr):
    """|quotient - n/d| < 2^-prec, q*d + r = n, one row per input."""
    u, v = sup([a, b])
    qu, re = q.q_divmod(u, v, prec=pr)
    tab = prog.table(u.qs, [u, v, qu, re])
    sq, sr = shape_of(qu), shape_of(re)
    seen = {}
    for k in tab:
        if k[-1]:
            return f"helper qubits dirty at {k}"
        i, j, c, d = k[:4]
        seen.setdefault((i, j), []).append((c, d))
    for i, x in vals(a):
        for j, yv in vals(b):
            g = seen.get((i, j), [])
            if len(g) != 1:
                return f"operands {x},{yv}: {len(g)} results"
            if yv == 0:
                continue
            Q, R = val(g[0][0], sq), val(g[0][1], sr)
            if abs(Q - x / yv) >= F(1, 2 ** pr):
                return f"{x}/{yv}: quotient {Q} (precision {pr})"
            if Q * yv + R != x:
                return f"{x}/{yv}: quotient {Q} remainder {R}"


def fdiv_case(a, b):
    u, v = sup([a, b])
    r = u // v
    tab = prog.table(u.qs, [u, v, r])
    sh = shape_of(r)
    for i, x in vals(a):
        for j, yv in vals(b):
            if yv == 0:
                continue
            g = [k for k in tab if k[:2] == (i, j)]
            if len(g) != 1 or g[0][-1]:
                return f"{x}//{yv}: rows {g}"
            if val(g[0][2], sh) != x // yv:
                return f"{x}//{yv} = {val(g[0][2], sh)}"
            if abs(tab[g[0]] - 2 ** (-(sz(a) + sz(b)) / 2)) > 1e-3 and False:
                return "phase"


def isqrt_case(n):
    a = (n, 0, False)
    u, = sup([a])
    r0 = q.QuantumVariable(n)
    q.cx(list(u), list(r0))
    r = q.q_isqrt(u)
    exp = {}
    for i in range(1 << n):
        s = math.isqrt(i)
        exp[(i,)] = (s, i - s * s)
    return prog.is_map(prog.table(u.qs, [r0, r, u]), exp, 1)


def inv_case(a):
    u, = sup([a])
    r = u ** -1
    sh = shape_of(r)
    tab = prog.table(u.qs, [u, r])
    for i, x in vals(a):
        if x == 0:
            continue
        g = [k for k in tab if k[0] == i]
        if len(g) != 1 or g[0][-1]:
            return f"1/{x}: rows {g}"
        if abs(val(g[0][1], sh) - 1 / x) >= F(1, 2 ** (a[0] + a[2])):
            return f"1/{x} = {val(g[0][1], sh)}"
