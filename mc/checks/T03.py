"""Modular arithmetic against integer residues."""
import itertools
import numpy as np
import qrisp as q
from mc import prog

NOTE = "every modulus up to the bound x every operation x every classical operand in a range beyond the modulus on both sides x every adder, all residues of all quantum operands at once in superposition with a reference copy; output rows must be exactly the integer residues, operands kept, helpers clean, no relative phase; controlled and inverted forms and chains of operations as well"

ADD = {"fourier": q.fourier_adder, "gidney": q.gidney_adder, "cuccaro": q.cuccaro_adder, "qcla": q.qcla}


def val(raw, v):
    N = int(v.modulus)
    if raw >= N:
        return f"invalid{raw}"
    m = getattr(v, "m", 0)
    return raw if m == 0 else raw * pow(2, -m, N) % N


class Z:
    """Residue register(s) in uniform superposition, each with a reference copy."""

    def __init__(self, N, adder, nops=1):
        self.N = N
        self.ops, self.refs = [], []
        for k in range(nops):
            a = q.QuantumModulus(N, inpl_adder=ADD[adder])
            a.init_state({i: 1.0 for i in range(N)})
            r = q.QuantumFloat(a.size)
            q.cx(a, r)
            self.ops.append(a)
            self.refs.append(r)
        self.extra = []

    def rows(self, outs):
        """-> {reference values + extras: decoded outputs} or a message."""
        groups = self.refs + self.extra + outs
        q.merge([g for g in groups])
        tab = prog.table(groups[0].qs, groups)
        n = len(self.refs) + len(self.extra)
        res, amps = {}, []
        for k, a in tab.items():
            if k[-1]:
                return f"helper qubits end in {k[-1]:b} next to {k[:-1]}"
            key = k[:n]
            o = tuple(val(x, v) if isinstance(v, q.QuantumModulus) else x for x, v in zip(k[n:-1], outs))
            if key in res:
                return f"inputs {key} give both {res[key]} and {o}"
            res[key] = o
            amps.append(a)
        amps = np.array(amps)
        if np.abs(amps - amps[0]).max() > 3e-4:
            return f"relative phase or weight between rows: {np.round(amps, 3)}"
        return res

    def judge(self, outs, want):
        rows = self.rows(outs)
        if isinstance(rows, str):
            return rows
        dims = [range(self.N)] * len(self.refs) + [range(2)] * len(self.extra)
        for key in itertools.product(*dims):
            w = want(*key)
            w = tuple(w) if isinstance(w, (tuple, list)) else (w,)
            if rows.get(key) != w:
                return f"inputs {key} give {rows.get(key)}, expected {w} (mod {self.N})"
        if len(rows) != np.prod([len(d) for d in dims]):
            return "additional rows"


def control_qubit(z):
    c = q.QuantumBool()
    q.h(c)
    z.extra.append(c)
    return c


INPL = {
    "+=": (lambda a, k: a.__iadd__(k), lambda x, k, N: (x + k) % N),
    "-=": (lambda a, k: a.__isub__(k), lambda x, k, N: (x - k) % N),
    "*=": (lambda a, k: a.__imul__(k), lambda x, k, N: (x * k) % N),
}
OUTP = {
    "+": (lambda a, k: a + k, lambda x, k, N: (x + k) % N),
    "r+": (lambda a, k: k + a, lambda x, k, N: (x + k) % N),
    "-": (lambda a, k: a - k, lambda x, k, N: (x - k) % N),
    "r-": (lambda a, k: k - a, lambda x, k, N: (k - x) % N),
    "*": (lambda a, k: a * k, lambda x, k, N: (x * k) % N),
    "r*": (lambda a, k: k * a, lambda x, k, N: (x * k) % N),
}
CMP = {
    "==": (lambda a, b: a == b, lambda x, y: x == y), "!=": (lambda a, b: a != b, lambda x, y: x != y),
    "<": (lambda a, b: a < b, lambda x, y: x < y), ">": (lambda a, b: a > b, lambda x, y: x > y),
    "<=": (lambda a, b: a <= b, lambda x, y: x <= y), ">=": (lambda a, b: a >= b, lambda x, y: x >= y),
}


def classical(ctx, N, adder, op, k, mode):
    z = Z(N, adder)
    a = z.ops[0]
    ctx.state(f"{N}/{adder}/{op}/{k}/{mode}")
    ctx.step(N)
    if op in INPL:
        f, g = INPL[op]
        if mode == "ctl":
            c = control_qubit(z)
            with q.control(c):
                f(a, k)
            return z.judge([a], lambda x, b: g(x, k, N) if b else x)
        if mode == "inv":
            with q.invert():
                f(a, k)
            y = {g(x, k, N): x for x in range(N)}
            return z.judge([a], lambda x: y[x])
        if mode == "loop":
            with q.control(control_qubit(z), ctrl_state=0):
                with q.invert():
                    f(a, k)
            y = {g(x, k, N): x for x in range(N)}
            return z.judge([a], lambda x, b: x if b else y[x])
        f(a, k)
        return z.judge([a], lambda x: g(x, k, N))
    f, g = OUTP[op]
    c = f(a, k)
    if not isinstance(c, q.QuantumModulus) or int(c.modulus) != N:
        return f"result is a {type(c).__name__}"
    if mode == "unc":
        r = q.QuantumModulus(N)
        q.cx(c, r)
        if c.m != 0:
            r.m = c.m
        c.uncompute()
        c = r
    return z.judge([a, c], lambda x: (x, g(x, k, N)))


def quantum(ctx, N, adder, op, mode):
    z = Z(N, adder, 2)
    a, b = z.ops
    ctx.state(f"{N}/{adder}/{op}/q/{mode}")
    ctx.step(N * N)
    if op in INPL:
        f, g = INPL[op]
        if mode == "ctl":
            c = control_qubit(z)
            with q.control(c):
                f(a, b)
            return z.judge([a, b], lambda x, y, t: (g(x, y, N) if t else x, y))
        if mode == "inv":
            with q.invert():
                f(a, b)
            h = {"+=": "-=", "-=": "+="}[op]
            return z.judge([a, b], lambda x, y: (INPL[h][1](x, y, N), y))
        f(a, b)
        return z.judge([a, b], lambda x, y: (g(x, y, N), y))
    f, g = OUTP[op]
    c = f(a, b)
    return z.judge([a, b, c], lambda x, y: (x, y, g(x, y, N)))


def refusal(ctx, N, adder, op, k):
    """A product without an exact circuit must be refused, not computed wrongly."""
    z = Z(N, adder)
    a = z.ops[0]
    ctx.state(f"refuse{N}/{adder}/{op}/{k}")
    try:
        res = INPL[op][0](a, k) if op in INPL else OUTP[op][0](a, k)
    except Exception:
        return
    ctx.step(N)
    if op in INPL:
        return z.judge([a], lambda x: x * k % N)
    return z.judge([a, res], lambda x: (x, x * k % N))


def floatop(ctx, N, adder, op, size):
    """An ordinary unsigned float as second operand."""
    z = Z(N, adder)
    a = z.ops[0]
    b = q.QuantumFloat(size)
    q.h(b)
    f, g = (INPL if op in INPL else OUTP)[op]
    ctx.state(f"{N}/{adder}/{op}/f{size}")
    res = f(a, b)
    outs = [a, b] + ([] if op in INPL else [res])
    q.merge(z.refs + outs)
    tab = prog.table(a.qs, z.refs + outs)
    seen = 0
    for k, amp in tab.items():
        x, y = k[0], k[2]
        if y >= N:
            continue
        seen += 1
        if k[-1]:
            return f"helper qubits end in {k[-1]:b} for {x} and {y}"
        got = val(k[1], a) if op in INPL else (val(k[1], a), val(k[3], res))
        want = g(x, y, N) if op in INPL else (x, g(x, y, N))
        if got != want:
            return f"{x} {op} {y} gives {got}, expected {want} (mod {N})"
        ctx.step()
    if seen != N * min(N, 1 << size):
        return f"{seen} rows instead of {N * min(N, 1 << size)}"


def compare(ctx, N, adder, op, k):
    f, g = CMP[op]
    ctx.state(f"{N}/{adder}/{op}/{k}")
    ctx.step(N)
    if k == "q":
        z = Z(N, adder, 2)
        a, b = z.ops
        return z.judge([a, b, f(a, b)], lambda x, y: (x, y, int(g(x, y))))
    z = Z(N, adder)
    a = z.ops[0]
    return z.judge([a, f(a, k)], lambda x: (x, int(g(x, k))))


def codec(ctx, N, m):
    v = q.QuantumModulus(N)
    v.m = m
    seen = set()
    for i in range(N):
        e = int(v.encoder(i))
        if not 0 <= e < N:
            return f"{i} encodes to {e}"
        if int(v.decoder(e)) != i:
            return f"{i} encodes to {e}, which decodes to {v.decoder(e)} (shift {m}, mod {N})"
        if e != i * pow(2, m, N) % N:
            return f"{i} encodes to {e} with shift {m}"
        seen.add(e)
        w = q.QuantumModulus(N)
        w.m = m
        w[:] = i
        if dict(w.get_measurement()) != {i: 1.0}:
            return f"assigned {i}, read {w.get_measurement()} (shift {m}, mod {N})"
        ctx.step()
    if len(seen) != N:
        return "encoding is not injective"
    for i in list(range(N, N + 4)) + [-1, -N, -N - 1]:
        w = q.QuantumModulus(N)
        w.m = m
        try:
            w[:] = i
        except Exception:
            continue
        return f"value {i} accepted for modulus {N}"
    for i in range(N, 1 << v.size):
        if not np.isnan(v.decoder(i)):
            return f"pattern {i} decodes to {v.decoder(i)} for modulus {N}"
    if N > 1 and v.size != (N - 1).bit_length():
        return f"register for modulus {N} has {v.size} qubits"
    ctx.state(f"codec{N}/{m}")


CHAIN = {
    "+=k": (lambda a, b: a.__iadd__(3), lambda x, y, N: (x + 3) % N),
    "-=k": (lambda a, b: a.__isub__(2), lambda x, y, N: (x - 2) % N),
    "*=2": (lambda a, b: a.__imul__(2), lambda x, y, N: (x * 2) % N),
    "+=b": (lambda a, b: a.__iadd__(b), lambda x, y, N: (x + y) % N),
    "-=b": (lambda a, b: a.__isub__(b), lambda x, y, N: (x - y) % N),
}


def chain(ctx, N, adder, ops):
    z = Z(N, adder, 2)
    a, b = z.ops
    for o in ops:
        CHAIN[o][0](a, b)
    ctx.state(f"{N}/{adder}/{ops}")
    ctx.step(len(ops))

    def want(x, y):
        v = x
        for o in ops:
            v = CHAIN[o][1](v, y, N)
        return v, y

    return z.judge([a, b], want)


def mont(ctx, N, adder, what):
    """A product carries a representation shift: everything afterwards must respect it."""
    z = Z(N, adder, 2)
    a, b = z.ops
    c = a * b
    ctx.state(f"mont{N}/{adder}/{what}")
    P = lambda x, y: x * y % N
    if what.startswith("+="):
        c += int(what[2:])
        return z.judge([a, b, c], lambda x, y: (x, y, (x * y + int(what[2:])) % N))
    if what.startswith("-="):
        c -= int(what[2:])
        return z.judge([a, b, c], lambda x, y: (x, y, (x * y - int(what[2:])) % N))
    if what.startswith("*="):
        c *= int(what[2:])
        return z.judge([a, b, c], lambda x, y: (x, y, (x * y * int(what[2:])) % N))
    if what == "acc":
        a += c
        return z.judge([a, b, c], lambda x, y: ((x + x * y) % N, y, P(x, y)))
    if what == "acc2":
        c += a
        return z.judge([a, b, c], lambda x, y: (x, y, (x + x * y) % N))
    if what == "sum":
        d = b * a
        e = c + d
        return z.judge([a, b, c, d, e], lambda x, y: (x, y, P(x, y), P(x, y), 2 * x * y % N))
    if what in CMP:
        d = b * a
        d += 1
        return z.judge([a, b, c, d, CMP[what][0](c, d)], lambda x, y: (x, y, P(x, y), (P(x, y) + 1) % N, None))
    raise KeyError(what)


def primitive(ctx, N, adder, what, k):
    """The exported modular routines themselves."""
    from qrisp.alg_primitives.arithmetic import modular_arithmetic as M
    ctx.state(f"prim{N}/{adder}/{what}/{k}")
    ctx.step(N)
    z = Z(N, adder)
    a = z.ops[0]
    if what == "beauregard":
        M.beauregard_adder(a, k, N)
        return z.judge([a], lambda x: (x + k) % N)
    if what == "beauregard-ctl":
        c = control_qubit(z)
        with q.control(c):
            M.beauregard_adder(a, k, N)
        return z.judge([a], lambda x, t: (x + k * t) % N)
    if what == "semi":
        M.semi_cl_inpl_mult(a, k)
        return z.judge([a], lambda x: x * k % N)
    if what == "semi-ctl":
        c = control_qubit(z)
        with q.control(c):
            M.semi_cl_inpl_mult(a, k)
        return z.judge([a], lambda x, t: x * k % N if t else x)
    if what == "qft":
        M.qft_semi_cl_inpl_mult(a, k)
        return z.judge([a], lambda x: x * k % N)
    if what == "qft-ctl":
        c = control_qubit(z)
        with q.control(c):
            M.qft_semi_cl_inpl_mult(a, k)
        return z.judge([a], lambda x, t: x * k % N if t else x)
    raise KeyError(what)


def tools(ctx, N):
    """Classical helpers."""
    from math import gcd
    from qrisp.alg_primitives.arithmetic.modular_arithmetic import modinv
    from qrisp.alg_primitives.arithmetic.jasp_arithmetic import jasp_mod_tools as J
    for a in range(1, 2 * N + 2):
        if gcd(a, N) != 1 or N == 1:
            continue
        w = pow(a, -1, N)
        for n, f in (("static", modinv), ("jasp", J.modinv)):
            if int(f(a, N)) % N != w:
                return f"{n} inverse of {a} mod {N} is {f(a, N)}"
        ctx.step()
    for e in range(0, 12):
        if int(J.pow2mod(e, N)) != pow(2, e, N):
            return f"2^{e} mod {N} is {J.pow2mod(e, N)}"
    if int(J.smallest_power_of_two(N)) != (N - 1).bit_length():
        return f"register size for {N} is {J.smallest_power_of_two(N)}"
    ctx.state(f"tools{N}")


TR = {}


def traced(ctx, N, op):
    """Traced execution, operand values as run-time inputs."""
    from qrisp.jasp import jaspify, boolean_simulation
    ctx.state(f"traced{N}/{op}")
    if op in ("+=", "-=", "*="):
        def f(i, k):
            a = q.QuantumModulus(N)
            a[:] = i
            if op == "+=":
                a += k
            elif op == "-=":
                a -= k
            else:
                a *= k
            return q.measure(a)
        want = lambda i, k: INPL[op][1](i, k, N)
        ks = [k for k in range(0 if op != "*=" else 1, N)]
        if op == "*=":
            from math import gcd
            ks = [k for k in ks if gcd(k, N) == 1]
    elif op in ("q+=", "q-=", "q*", "q+", "q<", "q=="):
        def f(i, k):
            a = q.QuantumModulus(N)
            a[:] = i
            b = q.QuantumModulus(N)
            b[:] = k
            if op == "q+=":
                a += b
            elif op == "q-=":
                a -= b
            elif op == "q*":
                a = a * b
            elif op == "q<":
                return q.measure(a < b)
            elif op == "q==":
                return q.measure(a == b)
            else:
                a = a + b
            return q.measure(a)
        want = lambda i, k: {"q+=": (i + k) % N, "q+": (i + k) % N, "q-=": (i - k) % N, "q*": i * k % N, "q<": i < k, "q==": i == k}[op]
        ks = range(N)
    else:
        def f(i, k):
            a = q.QuantumModulus(N)
            a[:] = i
            b = a * k
            return q.measure(b)
        want = lambda i, k: i * k % N
        ks = range(1, N)
    g = jaspify(f, terminal_sampling=False)
    for i in range(N):
        for k in ks:
            r = g(i, k)
            if int(r) != int(want(i, k)):
                return f"traced {i} {op} {k} mod {N} gives {r}, expected {int(want(i, k))}"
            ctx.step()


def bounds(tier):
    return (6 if tier == "quick" else 11)


def shards(tier):
    B = bounds(tier)
    out = ["codec", "tools"]
    for N in range(2, B + 1):
        for ad in ADD:
            out.append(f"cl/{N}/{ad}")
            if N <= (3 if tier == "quick" and ad != "fourier" else 5 if tier == "quick" else 7):
                out.append(f"qq/{N}/{ad}")
        out.append(f"prim/{N}")
    for N in (3, 5):
        out += [f"chain/{N}", f"mont/{N}"]
    out.append("qq/5/gidney")
    for op in ["+=", "-=", "*=", "q+=", "q*", "*k"] + (["q-=", "q+", "q<", "q=="] if tier != "quick" else []):
        for N in (5,) if tier == "quick" else (3, 5, 6, 7):
            out.append(f"tr/{N}/{op}")
    return out


def run(shard, ctx):
    from math import gcd
    quick = ctx.tier == "quick"
    p = shard.split("/")
    if shard == "codec":
        for N in range(2, 18):
            for m in (range(-3, 6) if N % 2 else (0,)):
                if m >= 0:
                    ctx.case(f"codec/{N}/{m}", codec, ctx, N, m)
    elif shard == "tools":
        for N in range(2, 60):
            ctx.case(f"tools/{N}", tools, ctx, N)
    elif p[0] == "cl":
        N, ad = int(p[1]), p[2]
        ks = range(-N - 2, 2 * N + 3) if not quick else [-N - 1, -1] + list(range(N)) + [N, 2 * N + 1]
        few = (-1, 1, N - 1, 2 * N + 1)
        for op in ("+=", "-=", "+", "r+", "-", "r-"):
            for k in ks:
                if quick and (ad != "fourier" or N > 5) and k not in few:
                    continue
                ctx.case(f"cl/{N}/{ad}/{op}/{k}/", classical, ctx, N, ad, op, k, "")
        for op in ("+=", "-="):
            for k in range(0, N):
                if quick and k not in (1, N - 1):
                    continue
                for mode in ("ctl", "inv", "loop"):
                    ctx.case(f"cl/{N}/{ad}/{op}/{k}/{mode}", classical, ctx, N, ad, op, k, mode)
        if N % 2:
            for op in ("*", "r*"):
                for k in ks:
                    if (quick or ad != "fourier") and k not in (-1, 0, 2, 2 * N + 1):
                        continue
                    ctx.case(f"cl/{N}/{ad}/{op}/{k}/", classical, ctx, N, ad, op, k, "")
            for k in ks:
                if gcd(k, N) != 1:
                    ctx.case(f"refuse/{N}/{ad}/*=/{k}", refusal, ctx, N, ad, "*=", k)
                    continue
                if quick and (ad != "fourier" or N > 5) and k not in (-1, 2, N - 1, 2 * N + 1):
                    continue
                for mode in ("", "ctl", "inv", "loop"):
                    if mode and quick and k not in (2, N - 1):
                        continue
                    ctx.case(f"cl/{N}/{ad}/*=/{k}/{mode}", classical, ctx, N, ad, "*=", k, mode)
        else:
            for op in ("*", "*="):
                for k in ks:
                    ctx.case(f"refuse/{N}/{ad}/{op}/{k}", refusal, ctx, N, ad, op, k)
        for op in CMP:
            for k in range(0, N):
                if quick and k not in (1, N - 1):
                    continue
                ctx.case(f"cmp/{N}/{ad}/{op}/{k}", compare, ctx, N, ad, op, k)
    elif p[0] == "qq":
        N, ad = int(p[1]), p[2]
        for op in ("+=", "-="):
            for mode in ("", "ctl", "inv"):
                ctx.case(f"qq/{N}/{ad}/{op}/{mode}", quantum, ctx, N, ad, op, mode)
        for op in ("+", "-") + (("*",) if N % 2 else ()):
            ctx.case(f"qq/{N}/{ad}/{op}", quantum, ctx, N, ad, op, "")
        for op in CMP:
            ctx.case(f"cmp/{N}/{ad}/{op}/q", compare, ctx, N, ad, op, "q")
        for op in ("+=", "-=", "+", "-"):
            for size in (1, 2) + ((3,) if N > 4 else ()):
                ctx.case(f"fl/{N}/{ad}/{op}/{size}", floatop, ctx, N, ad, op, size)
    elif p[0] == "prim":
        N = int(p[1])
        for k in range(0, N + 2):
            ctx.case(f"prim/{N}/beauregard/{k}", primitive, ctx, N, "fourier", "beauregard", k)
            ctx.case(f"prim/{N}/beauregard-ctl/{k}", primitive, ctx, N, "fourier", "beauregard-ctl", k)
            if N % 2 and gcd(k, N) == 1:
                for w in ("semi", "semi-ctl", "qft", "qft-ctl"):
                    for ad in ("fourier",) if "qft" in w or quick else ADD:
                        ctx.case(f"prim/{N}/{ad}/{w}/{k}", primitive, ctx, N, ad, w, k)
    elif p[0] == "chain":
        N = int(p[1])
        for ops in itertools.product(CHAIN, repeat=2):
            for ad in ("fourier",) if quick else ADD:
                ctx.case(f"chain/{N}/{ad}/{','.join(ops)}", chain, ctx, N, ad, ops)
    elif p[0] == "mont":
        N = int(p[1])
        for w in [f"+={k}" for k in range(-1, N + 1)] + [f"-={k}" for k in range(N)] + ["*=2", "acc", "acc2", "sum"]:
            for ad in ("fourier",) if quick else ADD:
                ctx.case(f"mont/{N}/{ad}/{w}", mont, ctx, N, ad, w)
    elif p[0] == "tr":
        ctx.case(shard, traced, ctx, int(p[1]), p[2], timeout=200)


RULE = "integer residues for all operands"
