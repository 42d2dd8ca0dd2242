"""Inverting and controlling traced programs is exact."""
import itertools
import numpy as np
import qrisp as q
from qrisp import jasp
from mc import uni, tprog

NOTE = "every word of up to 2 (deep: 3) wrappers out of inversion, control (one qubit, open control, two qubits with a pattern), conjugation, dynamic loop, cached call, classical branch, classical control on and off, helper-mediated control, custom-control function, custom-inversion function around every body of an alphabet (phases, rotations, entanglers, loops with index arithmetic, helpers allocated and freed, arithmetic, conjugations, branches); the complete unitary on 4 qubits plus outer control compared entry by entry, recorded and traced"

N = 4
K = 2


def kk():
    return jasp.make_tracer(K) if jasp.check_for_tracing_mode() else K


def mat(steps):
    u = np.eye(1 << N, dtype=complex).reshape((2,) * (2 * N))
    for m, qs in steps:
        u = tprog.apply(u, m, qs)
    return u.reshape(1 << N, 1 << N)


G = tprog.matrix


@q.qache
def cached(v, a):
    q.ry(a, v[0])
    q.cx(v[0], v[1])


def b_ph(v):
    q.t(v[0])
    q.gphase(0.7, v[1])


def b_rot(v):
    q.ry(0.5, v[0])
    q.rz(0.3 * kk(), v[1])
    q.cx(v[0], v[1])


def b_loop(v):
    for i in jasp.jrange(kk()):
        q.h(v[i])
        q.p(0.4 + 0.3 * i, v[i])
        q.cx(v[i], v[1 - i])


def b_rev(v):
    k = kk()
    for i in jasp.jrange(1, k + 1):
        q.ry(0.3 * i, v[k - i])
        q.cp(0.5 * i, v[0], v[1])


def b_help(v):
    t = q.QuantumBool()
    q.cx(v[0], t[0])
    q.cp(0.6, t[0], v[1])
    q.cx(v[0], t[0])
    t.delete()
    q.h(v[0])


def b_call(v):
    cached(v, 0.4)
    q.s(v[1])
    cached(v, 0.9)


def b_conj(v):
    def pre(w):
        q.h(w[0])
        q.cx(w[0], w[1])
    with q.conjugate(pre)(v):
        q.p(0.8, v[1])
        q.x(v[0])


def b_if(v):
    k = kk()
    with q.control(k > 1):
        q.sx(v[0])
    with q.control(k > 2):
        q.x(v[1])

    def t(v):
        q.h(v[1])

    def f(v):
        q.y(v[0])
    q.q_cond(k == 2, t, f, v)
    q.s(v[0])


def b_swap(v):
    q.swap(v[0], v[1])
    q.x(v[0])
    q.cz(v[0], v[1])


def b_add(v):
    q.QFT(v[0:2]) if False else None
    q.h(v[0])
    q.gidney_adder(1, v[0:2])


def b_mcx(v):
    t = q.QuantumVariable(1)
    q.mcx([v[0], v[1]], t[0])
    q.rz(0.9, t[0])
    q.mcx([v[0], v[1]], t[0])
    t.delete()
    q.ry(0.4, v[1])


def pvt(a):
    return np.diag([np.exp(-0.5j * a)] * 3 + [np.exp(0.5j * a)])


INC = np.zeros((4, 4))
for _x in range(4):  # increment of the little endian value of qubits (0, 1)
    _b = lambda z: int(format(z, "02b")[::-1], 2)
    INC[_b((_x + 1) % 4), _b(_x)] = 1

BODY = {
    "ph": (b_ph, [(G("t"), [0]), (G("gphase", 0.7), [1])]),
    "rot": (b_rot, [(G("ry", 0.5), [0]), (G("rz", 0.6), [1]), (G("cx"), [0, 1])]),
    "loop": (b_loop, [(G("h"), [0]), (G("p", 0.4), [0]), (G("cx"), [0, 1]), (G("h"), [1]), (G("p", 0.7), [1]), (G("cx"), [1, 0])]),
    "rev": (b_rev, [(G("ry", 0.3), [1]), (G("cp", 0.5), [0, 1]), (G("ry", 0.6), [0]), (G("cp", 1.0), [0, 1])]),
    "help": (b_help, [(G("cp", 0.6), [0, 1]), (G("h"), [0])]),
    "call": (b_call, [(G("ry", 0.4), [0]), (G("cx"), [0, 1]), (G("s"), [1]), (G("ry", 0.9), [0]), (G("cx"), [0, 1])]),
    "conj": (b_conj, [(G("h"), [0]), (G("cx"), [0, 1]), (G("p", 0.8), [1]), (G("x"), [0]), (G("cx"), [0, 1]), (G("h"), [0])]),
    "if": (b_if, [(G("rx", np.pi / 2), [0]), (G("h"), [1]), (G("s"), [0])]),
    "swap": (b_swap, [(G("swap"), [0, 1]), (G("x"), [0]), (G("cz"), [0, 1])]),
    "add": (b_add, [(G("h"), [0]), (INC, [0, 1])]),
    "mcx": (b_mcx, [(pvt(0.9), [0, 1]), (G("ry", 0.4), [1])]),
}


def ctl(u, bits):
    """u controlled on register qubits {index: value}"""
    d = 1 << N
    out = np.eye(d, dtype=complex)
    sel = [i for i in range(d) if all((i >> (N - 1 - b)) & 1 == x for b, x in bits.items())]
    out[np.ix_(sel, sel)] = u[np.ix_(sel, sel)]
    return out


PRE = mat([(G("h"), [1]), (G("cx"), [1, 0]), (G("s"), [0])])


def w_inv(f):
    def g(v):
        with q.invert():
            f(v)
    return g


def w_c(idx, **kw):
    def w(f):
        def g(v):
            with q.control([v[i] for i in idx] if len(idx) > 1 else v[idx[0]], **kw):
                f(v)
        return g
    return w


def w_conj(f):
    def pre(v):
        q.h(v[1])
        q.cx(v[1], v[0])
        q.s(v[0])

    def g(v):
        with q.conjugate(pre)(v):
            f(v)
    return g


def w_for(f):
    def g(v):
        for _ in jasp.jrange(kk()):
            f(v)
    return g


def w_call(f):
    h = q.qache(f)

    def g(v):
        h(v)
    return g


def w_if(f):
    def no(v):
        q.y(v[0])

    def g(v):
        q.q_cond(kk() > 1, f, no, v)
    return g


def w_cl(on):
    def w(f):
        def g(v):
            with q.control(kk() > (1 if on else 5)):
                f(v)
        return g
    return w


def w_tmp(f):
    def g(v):
        t = q.QuantumBool()
        q.cx(v[2], t[0])
        with q.control(t[0]):
            f(v)
        q.cx(v[2], t[0])
        t.delete()
    return g


def w_cc(f):
    @q.custom_control
    def h(v, ctrl=None):
        if ctrl is None:
            f(v)
        else:
            with q.control(ctrl):
                f(v)
    return lambda v: h(v)


def w_ci(f):
    @q.custom_inversion
    def h(v, inv=False):
        if inv:
            with q.invert():
                f(v)
        else:
            f(v)
    return lambda v: h(v)


WRAP = {
    "inv": (w_inv, lambda u: u.conj().T, ()),
    "c2": (w_c([2]), lambda u: ctl(u, {2: 1}), (2,)),
    "o3": (w_c([3], ctrl_state=0), lambda u: ctl(u, {3: 0}), (3,)),
    "c23": (w_c([2, 3], ctrl_state="01"), lambda u: ctl(u, {2: 0, 3: 1}), (2, 3)),
    "i23": (w_c([2, 3], ctrl_state=1), lambda u: ctl(u, {2: 1, 3: 0}), (2, 3)),
    "conj": (w_conj, lambda u: PRE.conj().T @ u @ PRE, ()),
    "for": (w_for, lambda u: u @ u, ()),
    "call": (w_call, lambda u: u, ()),
    "if": (w_if, lambda u: u, ()),
    "cl1": (w_cl(True), lambda u: u, ()),
    "cl0": (w_cl(False), lambda u: np.eye(1 << N), ()),
    "tmp": (w_tmp, lambda u: ctl(u, {2: 1}), (2,)),
    "cc": (w_cc, lambda u: u, ()),
    "ci": (w_ci, lambda u: u, ()),
}


def nest(ctx, word, body, mode, outer):
    f, st = BODY[body]
    u = mat(st)
    for w in reversed(word):
        f, u = WRAP[w][0](f), WRAP[w][1](u)
    ctx.step()
    ctx.state((word, body, mode, outer))

    def act(v, e):
        if outer:
            with q.control(e[0]):
                f(v)
        else:
            f(v)
    return uni.compare(mode, N, act, u, outer, tol=2e-3)


def words(L):
    for w in itertools.product(WRAP, repeat=L):
        used = [b for x in w for b in WRAP[x][2]]
        if len(used) == len(set(used)):
            yield w


def shards(tier):
    return [f"rec/{i}" for i in range(4)] + [f"tr/{i}" for i in range(20)]


def run(shard, ctx):
    s = shard.split("/")
    deep = ctx.tier == "deep"
    cases = []
    for L in (0, 1, 2):
        for w in words(L):
            for b in BODY:
                cases.append((w, b))
    if s[0] == "rec":
        for i, (w, b) in enumerate(cases):
            if i % 4 == int(s[1]):
                ctx.case(f"{'.'.join(w)}/{b}", nest, ctx, w, b, "rec", (i // 4 + len(b)) % 2 == 0)
        return
    for i, (w, b) in enumerate(cases):
        if i % 20 != int(s[1]) or not deep and len(w) == 2 and (i // 20) % 2:
            continue
        ctx.case(f"{'.'.join(w)}/{b}", nest, ctx, w, b, "tr", (i // 20 + i // 60) % 2 == 0)
    for i, w in enumerate(words(3)):
        if i % 20 != int(s[1]) or not deep and (i // 20) % 5:
            continue
        for j, b in enumerate(BODY):
            if deep or j == (i // 7) % len(BODY):
                ctx.case(f"{'.'.join(w)}/{b}", nest, ctx, w, b, "tr", (i + j) % 2 == 0)
