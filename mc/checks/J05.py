"""Multi-word integers and number-theoretic helpers against Python integers."""
import functools
import itertools
import math
import numpy as np
import jax
import jax.numpy as jnp
import qrisp as q
from qrisp.alg_primitives.arithmetic.jasp_arithmetic import jasp_bigintiger as jb
from qrisp.alg_primitives.arithmetic.jasp_arithmetic import jasp_mod_tools as jm
from qrisp.alg_primitives.arithmetic.modular_arithmetic import mod_tools as mt

NOTE = "all operand pairs of one word in 0..63 and of one, two and three words whose words come from a boundary alphabet (0, 1, 2, 3, around half the base, top values), for every operator, method and comparison, compiled and called directly, with integer and traced right operands; all shift amounts and bit positions; complete tables of modular inverse, extended gcd, powers of two modulo N, Montgomery encoding and decoding, continued fractions, order finding, in plain and compiled form"
B = 1 << 32
BI = jb.BigInteger
LIMB = [0, 1, 2, 3, 5, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, B - 3, B - 2, B - 1, 0x80000001 ^ 2, 1 << 16, (1 << 16) - 1]
SHORT = [0, 1, 2, 1 << 31, (1 << 31) - 1, B - 2, B - 1]


def value(ds):
    return sum(int(d) << (32 * i) for i, d in enumerate(ds))


def digits(v, n):
    return [(v >> (32 * i)) % B for i in range(n)]


def vals(n, deep):
    if n == 1:
        return sorted(set(list(range(64)) + LIMB))
    if n == 2:
        return [value(t) for t in itertools.product(LIMB, repeat=2)]
    if n == 3:
        return [value(t) for t in itertools.product(SHORT if deep else [0, 1, 1 << 31, B - 2, B - 1], repeat=3)]
    return [value(t) for t in itertools.product([0, 1, B - 1], repeat=n)]


def batches(n, deep):
    vs = vals(n, deep)
    for i in range(0, len(vs), 8):
        yield vs[i:i + 8], vs


OPS = {"add": (lambda x, y: x + y, lambda x, y, M: (x + y) % M), "sub": (lambda x, y: x - y, lambda x, y, M: (x - y) % M),
       "subalt": (lambda x, y: x.__sub_alt__(y), lambda x, y, M: (x - y) % M),
       "mul": (lambda x, y: x * y, lambda x, y, M: x * y % M), "and": (lambda x, y: x & y, lambda x, y, M: x & y), "or": (lambda x, y: x | y, lambda x, y, M: x | y),
       "xor": (lambda x, y: x ^ y, lambda x, y, M: x ^ y), "div": (lambda x, y: x // y, lambda x, y, M: x // y if y else 0), "mod": (lambda x, y: x % y, lambda x, y, M: x % y if y else 0),
       "rem": (lambda x, y: x.remainder_division(y)[0], lambda x, y, M: x % y if y else 0), "quo": (lambda x, y: x.remainder_division(y)[1], lambda x, y, M: x // y if y else 0),
       "gcd": (lambda x, y: jb.bi_extended_euclidean(x, y)[0], lambda x, y, M: math.gcd(x, y))}
CMP = {"lt": lambda x, y: x < y, "le": lambda x, y: x <= y, "gt": lambda x, y: x > y, "ge": lambda x, y: x >= y, "eq": lambda x, y: x == y, "ne": lambda x, y: x != y}


@functools.lru_cache(None)
def compiled(n, name):
    cmp = name in CMP
    f = CMP[name] if cmp else OPS[name][0]
    return jax.jit(jax.vmap(lambda a, b: f(BI(a), BI(b)) if cmp else f(BI(a), BI(b)).digits))


def table(ctx, n, name, xs, ys):
    M = 1 << (32 * n)
    cmp = name in CMP
    run = compiled(n, name)
    ps = [(x, y) for x in xs for y in ys]
    a = jnp.array([digits(x, n) for x, _ in ps], dtype=jnp.uint32)
    b = jnp.array([digits(y, n) for _, y in ps], dtype=jnp.uint32)
    out = np.asarray(run(a, b))
    ctx.step(len(ps))
    for (x, y), o in zip(ps, out):
        ctx.state((n, name, x, y))
        got = bool(o) if cmp else value(o)
        want = CMP[name](x, y) if cmp else OPS[name][1](x, y, M)
        if got != want:
            return f"{n} words: {name}({x:#x}, {y:#x}) = {got:#x}, expected {want:#x}"


def direct(ctx, n, name, x, y, form):
    """The operator called directly, with a BigInteger, plain or traced right operand."""
    M = 1 << (32 * n)
    cmp = name in CMP
    f = CMP[name] if cmp else OPS[name][0]
    a = BI.create_static(x, n)
    b = BI.create_static(y, n) if form == "bi" else y if form == "int" else jnp.int64(y)
    got = f(a, b)
    ctx.step()
    ctx.state((n, name, x, y, form))
    got = bool(got) if cmp else got()
    want = CMP[name](x, y) if cmp else OPS[name][1](x, y, M)
    if got != want:
        return f"{n} words: {name}({x:#x}, {form} {y:#x}) = {got:#x}, expected {want:#x}"


def unary(ctx, n, x):
    M = 1 << (32 * n)
    v = BI.create_static(x, n)
    ctx.state((n, "u", x))
    out = [("value", v(), x), ("invert", (~v)(), M - 1 - x), ("bit_size", int(v.bit_size()), x.bit_length()), ("larger", v.get_larger()(), x),
           ("coerce", BI.coerce(v, n + 1)(), x), ("coerce int", BI.coerce(x, n)(), x)]
    if x < 1 << 63:
        out += [("create", BI.create(x, n)(), x), ("create traced", jax.jit(lambda k: BI.create(k, n))(jnp.int64(x))(), x), ("create_dynamic", BI.create_dynamic(x, n)(), x), ("coerce traced", BI.coerce(jnp.int64(x), n)(), x)]
    out.append(("float", float(jax.jit(lambda k: k())(v)), float(x)))
    for nm, g, w in out:
        ctx.step()
        if abs(g - w) > (abs(w) * 1e-12 if nm == "float" else 0):
            return f"{nm} of {x:#x}: {g}, expected {w}"


def bits(ctx, n, x):
    """All shift amounts, bit reads and bit flips, and powers."""
    M = 1 << (32 * n)
    T = 32 * n
    d = jnp.array(digits(x, n), dtype=jnp.uint32)
    ks = jnp.arange(T + 40)
    run = lambda f, k: [value(r) for r in np.asarray(jax.vmap(lambda i: f(BI(d), i))(k))]
    tabs = [("<<", run(lambda v, i: (v << i).digits, ks), [(x << i) % M for i in range(T + 40)]), (">>", run(lambda v, i: (v >> i).digits, ks), [x >> i for i in range(T + 40)]),
            ("flip", run(lambda v, i: v.flip_bit(i).digits, ks[:T]), [x ^ (1 << i) for i in range(T)]), ("bit", [int(k) for k in np.asarray(jax.vmap(lambda i: BI(d).get_bit(i))(ks[:T]))], [x >> i & 1 for i in range(T)]),
            ("**", run(lambda v, i: (v ** i).digits, ks[:40]), [pow(x, i, M) for i in range(40)])]
    for nm, g, w in tabs:
        ctx.step(len(g))
        for i, (a, b) in enumerate(zip(g, w)):
            ctx.state((n, nm, x, i))
            if a != b:
                return f"{x:#x} {nm} {i} = {a:#x}, expected {b:#x}"
    v = BI.create_static(x, n)
    for i in (0, 1, 31, 32, 33, T - 1, T, T + 1):
        if (v << i)() != (x << i) % M or (v >> i)() != x >> i:
            return f"direct shift of {x:#x} by {i}"


EUC = jax.jit(jax.vmap(lambda u, v: tuple(k.digits for k in jb.bi_extended_euclidean(BI(u), BI(v)))))
INV = jax.jit(jax.vmap(lambda u, v: jb.bi_modinv(BI(u), BI(v)).digits))
ENC = jax.jit(jax.vmap(lambda x, R, N: jm.montgomery_encoder(BI(x), BI(R), BI(N)).digits, (0, None, None)))
DEC = jax.jit(jax.vmap(lambda x, R, N: jm.montgomery_decoder(BI(x), BI(R), BI(N)).digits, (0, None, None)))
P2 = jax.jit(jm.pow2mod)
MD = jax.jit(jm.new_montgomery_decoder)


def euclid(ctx, n, xs, ys):
    M = 1 << (32 * n)
    ps = [(x, y) for x in xs for y in ys]
    a = jnp.array([digits(x, n) for x, _ in ps], dtype=jnp.uint32)
    b = jnp.array([digits(y, n) for _, y in ps], dtype=jnp.uint32)
    g, s, t = EUC(a, b)
    inv = np.asarray(INV(a, b))
    ctx.step(2 * len(ps))
    for (x, y), gg, ss, tt, iv in zip(ps, np.asarray(g), np.asarray(s), np.asarray(t), inv):
        ctx.state((n, "egcd", x, y))
        if value(gg) != math.gcd(x, y) or (value(ss) * x + value(tt) * y - value(gg)) % M:
            return f"extended gcd of {x:#x}, {y:#x}: {value(gg):#x}, {value(ss):#x}, {value(tt):#x}"
        if y > 1 and math.gcd(x, y) == 1 and value(iv) != pow(x, -1, y):
            return f"inverse of {x:#x} modulo {y:#x}: {value(iv):#x}, expected {pow(x, -1, y):#x}"


def mont(ctx, n, N, R, xs):
    dR, dN = jnp.array(digits(R, n), dtype=jnp.uint32), jnp.array(digits(N, n), dtype=jnp.uint32)
    e = lambda x: ENC(x, dR, dN)
    d = lambda x: DEC(x, dR, dN)
    a = jnp.array([digits(x, n) for x in xs], dtype=jnp.uint32)
    for x, u, v in zip(xs, np.asarray(e(a)), np.asarray(d(a))):
        ctx.step(2)
        ctx.state((n, "mont", N, R, x))
        if value(u) != x * R % N:
            return f"encoding {x:#x} with {R:#x} modulo {N:#x}: {value(u):#x}"
        if math.gcd(R, N) == 1 and value(v) != x * pow(R, -1, N) % N:
            return f"decoding {x:#x} with {R:#x} modulo {N:#x}: {value(v):#x}"


def shiftdec(ctx, n, N):
    """Powers of two modulo N and decoding by exponent, multi-word."""
    f = lambda m: P2(m, BI.create_static(N, n))
    g = lambda y, m: MD(y, m, BI.create_static(N, n))
    for m in list(range(0, 20)) + [31, 32, 33, 63, 64, 65]:
        ctx.step()
        ctx.state(("p2", n, N, m))
        if f(m)() != pow(2, m, N):
            return f"2**{m} mod {N:#x} = {f(m)():#x}"
        if m in (5, 33) and jm.pow2mod(m, BI.create_static(N, n))() != pow(2, m, N):
            return f"direct 2**{m} mod {N:#x}"
    for m in (-33, -2, -1, 0, 1, 2, 5, 32, 33):
        for y in (0, 1, N // 3, N - 1):
            ctx.step()
            ctx.state(("dec", n, N, m, y))
            want = y * (pow(pow(2, m, N), -1, N) if m > 0 else pow(2, -m, N)) % N
            if g(BI.create_static(y, n), m)() != want or y > 1 and m in (-2, 5) and jm.new_montgomery_decoder(BI.create_static(y, n), m, BI.create_static(N, n))() != want:
                return f"decoding {y} by 2**{m} modulo {N:#x}"


def small(ctx, N):
    """Plain integers, untraced and inside a traced program."""
    @q.jaspify
    def traced(a, N, m):
        return jm.modinv(a, N), mt.modinv(a, N), jm.pow2mod(jnp.abs(m), N), jm.montgomery_encoder(a, 4, N), jm.montgomery_decoder(a, 4, N), jm.new_montgomery_decoder(a, m, N), jm.best_montgomery_shift(a, N), jm.smallest_power_of_two(a)
    for a in range(1, N):
        if math.gcd(a, N) != 1:
            continue
        inv = pow(a, -1, N)
        ctx.state(("small", N, a))
        for m in (-3, -1, 0, 1, 4):
            ctx.step()
            dec = a * (pow(pow(2, m, N), -1, N) if m > 0 else pow(2, -m, N)) % N if N % 2 else None
            enc = a * 4 % N
            mdc = a * pow(4, -1, N) % N if N % 2 else None
            cd = -(-a * (N - 1) // N)
            sh = (cd - 1).bit_length() if cd > 1 else 0
            want = (inv, inv, pow(2, abs(m), N), enc, mdc, dec, sh, (a - 1).bit_length() if a > 1 else 0)
            got = (jm.modinv(a, N), mt.modinv(a, N), jm.pow2mod(abs(m), N), jm.montgomery_encoder(a, 4, N), jm.montgomery_decoder(a, 4, N) if N % 2 else None,
                   jm.new_montgomery_decoder(a, m, N) if N % 2 else None, jm.best_montgomery_shift(a, N), jm.smallest_power_of_two(a))
            for i, (g, w) in enumerate(zip(got, want)):
                if w is not None and int(g) != w:
                    return f"a={a} N={N} m={m}: value {i} is {g}, expected {w}"
        if N % 2:
            for m in (-2, 0, 3):
                got = traced(a, N, m)
                want = (inv, inv, pow(2, abs(m), N), a * 4 % N, a * pow(4, -1, N) % N, a * (pow(pow(2, m, N), -1, N) if m > 0 else pow(2, -m, N)) % N)
                for i, (g, w) in enumerate(zip(got, want)):
                    if int(g) != w:
                        return f"traced a={a} N={N} m={m}: value {i} is {g}, expected {w}"
        for R in (1, 2, 4, 8) if N % 2 else ():
            if mt.montgomery_encoder(a, R, N) != a * R % N or mt.montgomery_decoder(a, R, N) != a * pow(R, -1, N) % N:
                return f"recorded-mode Montgomery a={a} R={R} N={N}"


EGCD = jax.jit(jm.egcd)


def gcds(ctx, a):
    for b in range(0, 40):
        ctx.step()
        ctx.state(("gcd", a, b))
        for nm, f in (("plain", mt.egcd), ("traceable", jm.egcd), ("compiled", EGCD)):
            if nm == "plain" and a == 0 and b == 0 or nm == "traceable" and (b > 3 or a > 7):
                continue
            g, x, y = (int(k) for k in f(a, b))
            if abs(g) != math.gcd(a, b) or a * x + b * y != g:
                return f"{nm} gcd({a}, {b}) = {g}, {x}, {y}"


def convergents(a, b):
    p0, p1, q0, q1 = 0, 1, 1, 0
    out = []
    while True:
        k, r = divmod(a, b)
        p0, p1, q0, q1 = p1, k * p1 + p0, q1, k * q1 + q0
        out.append((p1, q1))
        if not r:
            return out
        a, b = b, r


def best(a, b, D):
    p0, p1, q0, q1 = 0, 1, 1, 0
    while True:
        k, r = divmod(a, b)
        pn, qn = k * p1 + p0, k * q1 + q0
        if qn > D:
            t = (D - q0) // q1
            return t * p1 + p0, t * q1 + q0
        if not r:
            return pn, qn
        p0, p1, q0, q1, a, b = p1, pn, q1, qn, b, r


def contfrac(ctx, n, b, scale, full):
    bb = b * scale
    for a in range(0, b + 2):
        x, y = BI.create_static(a * scale, n), BI.create_static(bb, n)
        ctx.step()
        ctx.state(("cf/0", "cf/1", "cf/2", n, a, b, scale))
        got = [(p(), r()) for p, r in jb.bi_contfrac_convergents(x, y)]
        if got != convergents(a * scale, bb):
            return f"convergents of {a}/{b}: {got}"
        for D in (1, 2, 3, 5, b):
            if not full and (a + D) % 4 != 3:
                continue
            p, r = jb.bi_contfrac_best_approx(x, y, BI.create_static(D, n))
            if (p(), r()) != best(a * scale, bb, D):
                return f"approximation of {a}/{b} with denominators up to {D}: {p()}/{r()}, expected {best(a * scale, bb, D)}"
            if (full or D == 3) and jb.bi_shor_recover_denominator(x, y, D)() != best(a * scale, bb, D)[1]:
                return f"denominator of {a}/{b} up to {D}"


def order(ctx, a, N):
    from qrisp.algorithms.shor.shors_algorithm import find_order
    r = int(find_order(a, N))
    want = next(k for k in range(1, N) if pow(a, k, N) == 1)
    ctx.step()
    ctx.state(("order", a, N))
    if r != want:
        return f"order of {a} modulo {N}: {r}, expected {want}"


def factor(ctx, N):
    from qrisp import shor
    g = int(shor.shors_alg(N))
    ctx.step()
    ctx.state(("factor", N))
    if g in (1, N) or N % g:
        return f"{g} reported as factor of {N}"


def recover(ctx, N):
    """Order extraction from the ideal outcome distribution of every base."""
    from qrisp.algorithms.shor.shors_algorithm import extract_order
    n = 2 * N.bit_length() + 1
    for a in range(2, N):
        if math.gcd(a, N) != 1:
            continue
        r = next(k for k in range(1, N) if pow(a, k, N) == 1)
        for rot in range(min(r, 4)):
            res = {}
            for k in [(j + rot) % r for j in range(r)]:
                res[round(k * 2 ** n / r) / 2 ** n] = 1 / r
            ctx.step()
            ctx.state(("recover", a, N, rot))
            got = int(extract_order(res, a, N))
            if got != r:
                return f"order of {a} modulo {N} from outcomes {list(res)[:5]}: {got}, expected {r}"


def shards(tier):
    return ["t1", "t2/a", "t2/b", "t2/c", "t2/d", "t3/a", "t3/b", "t3/c", "t3/d", "direct", "bits", "euclid", "mont", "small", "gcd", "cf/0", "cf/1", "cf/2", "order"] + (["t4/a", "t4/b", "t4/c", "t4/d"] if tier == "deep" else [])


GRP = {"a": ["add", "sub", "subalt", "mul", "and"], "b": ["or", "xor", "div"], "c": ["mod", "rem", "quo"], "d": ["gcd"] + list(CMP)}


def run(shard, ctx):
    s = shard.split("/")
    deep = ctx.tier == "deep"
    if s[0] in ("t1", "t2", "t3", "t4"):
        n = int(s[0][1])
        for name in (GRP[s[1]] if len(s) > 1 else list(OPS) + list(CMP)):
            vs = vals(n, deep)
            blk = 28 if n < 3 else 25
            for i in range(0, len(vs), blk):
                ctx.case(f"{name}/{i}", table, ctx, n, name, vs[-blk:] if i + blk > len(vs) else vs[i:i + blk], vs)
    elif s[0] == "direct":
        for n in (1, 2, 3):
            for x in [0, 7, B - 1] + ([] if n == 1 else [B, (B * B - 1) % (1 << 32 * n), B + 5]):
                ctx.case(f"unary/{n}/{x:#x}", unary, ctx, n, x)
                for y in [0, 1, 3, B - 1] + ([] if n == 1 else [B, B * (1 << 30) + 7]):
                    for name in list(OPS) + list(CMP):
                        for form in ["bi"] + (["int", "traced"] if name not in ("rem", "quo") else []):
                            if n == 3 and not deep and (form == "traced" or y > B):
                                continue
                            ctx.case(f"{n}/{name}/{x:#x}/{y:#x}/{form}", direct, ctx, n, name, x, y, form)
    elif s[0] == "bits":
        for n in (1, 2, 3):
            for x in (LIMB if n == 1 else [value(t) for t in itertools.product([0, 1, (1 << 31) + 3, B - 1], repeat=n)]):
                if n == 3 and not deep and x.bit_count() % 3:
                    continue
                ctx.case(f"{n}/{x:#x}", bits, ctx, n, x)
    elif s[0] == "euclid":
        for n in (1, 2) + ((3,) if deep else ()):
            vs = vals(n, deep)
            ys = vs if n == 1 or deep else [value(t) for t in itertools.product([0, 1, 3, (1 << 31) - 1, B - 1, B - 2], repeat=2)]
            for i in range(0, len(vs), 28):
                ctx.case(f"{n}/{i}", euclid, ctx, n, vs[i:i + 28], ys)
    elif s[0] == "mont":
        for n in (1, 2):
            xs = [0, 1, 2, 3, B - 1] if n == 1 else [0, 1, B, B - 1, B * B - 1, 7 * B + 11]
            for N in [3, 15, (1 << 31) - 1, B - 1] + ([] if n == 1 else [B + 1, B * B - 1, (B // 2) * B + 1]):
                for R in [1, 2, 16, 1 << 31] + ([] if n == 1 else [B, 1 << 60]):
                    ctx.case(f"{n}/{N:#x}/{R:#x}", mont, ctx, n, N, R, xs)
                ctx.case(f"{n}/{N:#x}/shift", shiftdec, ctx, n, N)
    elif s[0] == "small":
        for N in range(2, 64 if deep else 32):
            ctx.case(f"{N}", small, ctx, N)
    elif s[0] == "gcd":
        for a in range(0, 24):
            ctx.case(f"{a}", gcds, ctx, a)
    elif s[0] == "cf":
        n, sc = ((1, 1), (2, 1), (2, 1 << 30))[int(s[1])]
        for b in range(1, 16) if deep else (1, 3, 7) if s[1] == "2" else (2, 5, 8) if s[1] == "1" else (4, 6):
            ctx.case(f"{n}/{b}/{sc}", contfrac, ctx, n, b, sc, deep)
            jax.clear_caches()
    else:
        for a, N in [(2, 3), (2, 7), (3, 7), (4, 7), (6, 7), (2, 5), (3, 5)] + ([(2, 9), (7, 15), (4, 15), (2, 15)] if True else []):
            ctx.case(f"{a}/{N}", order, ctx, a, N)
        ctx.case("factor/15", factor, ctx, 15)
        ctx.case("factor/14", factor, ctx, 14)
        for N in range(3, 64 if deep else 40):
            ctx.case(f"recover/{N}", recover, ctx, N)
