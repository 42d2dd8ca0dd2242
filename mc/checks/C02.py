"""Parameter binding commutes with every circuit transform."""
import itertools, math
import numpy as np
import sympy as sp
import qrisp as q
from mc import ref, circ

NOTE = "every sequence of parametrized gates up to the depth bound, every chain of transforms (inverse, control, wrap, compose, extend, copy, transpile, caching queries) and every position of the binding step in that chain, bound to two different value sets from the same template, compared with dense matrices"

a, b = sp.symbols("a b")
VALS = [{a: 0.7, b: -1.3}, {a: -0.4, b: 2.2}]


def num(e, v):
    return float(e.subs(v)) if isinstance(e, sp.Expr) else float(e)


def cr(M):
    return ref.ctrl(M)


# name -> (qubits, constructor(params), params, reference(params))
G = {
    "p": ("0", q.PGate, [a], ref.p), "rx": ("0", q.RXGate, [a + b], ref.rx), "ry": ("1", q.RYGate, [b], ref.ry), "rz": ("0", q.RZGate, [2 * a - b], ref.rz),
    "gp": ("0", q.GPhaseGate, [a], ref.gphase), "u3": ("1", q.u3Gate, [a, b, a * b], ref.u3), "u3m": ("0", q.u3Gate, [0.3, a, 0.5], ref.u3),
    "cp": ("01", q.CPGate, [b], lambda t: cr(ref.p(t))), "cpr": ("10", q.CPGate, [-a], lambda t: cr(ref.p(t))),
    "rxx": ("01", q.RXXGate, [a], ref.rxx), "rzz": ("10", q.RZZGate, [a * b], ref.rzz), "xxyy": ("01", q.XXYYGate, [a, b], circ.xxyy_ref),
    "crx": ("10", lambda t: q.MCRXGate(t, 1), [b / 2], lambda t: cr(ref.rx(t))),
    "cry0": ("01", lambda t: q.RYGate(t).control(1, ctrl_state="0"), [a + 1], lambda t: ref.ctrl(ref.ry(t), 1, "0")),
    "r": ("0", q.RGate, [a, b], lambda t, f: np.array([[math.cos(t / 2), np.exp(-1j * f) * math.sin(t / 2)], [-np.exp(1j * f) * math.sin(t / 2), math.cos(t / 2)]])),
    "u1": ("1", q.U1Gate, [a], ref.rz),
    "h": ("0", q.HGate, [], lambda: ref.H), "cx": ("10", q.CXGate, [], lambda: cr(ref.X)), "pn": ("1", lambda: q.PGate(0.9), [], lambda: ref.p(0.9)),
}


def build(word):
    qc = q.QuantumCircuit(2)
    for w in word:
        qs, mk, ps, _ = G[w]
        qc.append(mk(*ps), [qc.qubits[int(c)] for c in qs])
    return qc


def ref_of(word, v):
    return ref.unitary(2, [(G[w][3](*[num(e, v) for e in G[w][2]]), [int(c) for c in G[w][0]]) for w in word])


def syms(word):
    s = set()
    for w in word:
        for e in G[w][2]:
            s |= getattr(e, "free_symbols", set())
    return s


# transforms: (circuit -> circuit, matrix -> matrix)
def t_inv(qc):
    return qc.inverse()


def t_ctl(pat, method=None):
    def f(qc):
        n = len(qc.qubits)
        res = q.QuantumCircuit(n + 1)
        res.append(qc.to_op().control(1, ctrl_state=pat, method=method), res.qubits)
        return res
    return f


def t_cc(qc):
    n = len(qc.qubits)
    res = q.QuantumCircuit(n + 2)
    res.append(qc.to_gate().control(2, ctrl_state="01"), res.qubits)
    return res


def t_wrap(qc):
    res = q.QuantumCircuit(len(qc.qubits))
    res.append(qc.to_gate("sub"), res.qubits)
    return res


def t_wrapinv(qc):
    res = q.QuantumCircuit(len(qc.qubits))
    res.append(qc.to_gate("sub").inverse(), res.qubits)
    return res


def t_comp(qc):
    n = len(qc.qubits)
    res = q.QuantumCircuit(n)
    res.h(0)
    return res.compose(qc, res.qubits[::-1], inplace=False)


def m_comp(U):
    n = int(math.log2(U.shape[0]))
    return ref.unitary(n, [(ref.H, [0]), (U, list(range(n))[::-1])])


def t_ext(qc):
    n = len(qc.qubits)
    res = q.QuantumCircuit(n)
    res.x(n - 1)
    res.extend(qc, {qc.qubits[i]: res.qubits[i] for i in range(n)})
    return res


def m_ext(U):
    n = int(math.log2(U.shape[0]))
    return ref.unitary(n, [(ref.X, [n - 1]), (U, list(range(n)))])


def t_peek(qc):
    for i in qc.data:
        try:
            i.op.get_unitary()
        except Exception:
            pass
    qc.depth(), qc.count_ops()
    return qc


def t_transpile(qc):
    return qc.transpile()


def perop_inv(qc):
    """invert gate by gate"""
    res = q.QuantumCircuit(len(qc.qubits))
    for i in qc.data[::-1]:
        res.append(i.op.inverse(), [res.qubits[qc.qubits.index(x)] for x in i.qubits])
    return res


dag = lambda U: U.conj().T
ident = lambda U: U
TR = {
    "inv": (t_inv, dag), "ginv": (perop_inv, dag), "ctl": (t_ctl("1"), lambda U: ref.ctrl(U)), "ctl0": (t_ctl("0"), lambda U: ref.ctrl(U, 1, "0")),
    "cc": (t_cc, lambda U: ref.ctrl(U, 2, "01")), "wrap": (t_wrap, ident), "wrapinv": (t_wrapinv, dag), "comp": (t_comp, m_comp), "ext": (t_ext, m_ext),
    "dec": (lambda qc: q.decompose()(qc), ident), "comb": (lambda qc: q.combine_single_qubit_gates(qc), ident), "fuse": (lambda qc: q.fuse_adjacents(qc), ident),
    "tocx": (lambda qc: q.convert_to_cx()(qc), ident), "rev": (lambda qc: q.reverse_parallelize(qc), ident), "nobar": (lambda qc: q.remove_barriers(qc), ident),
    "copy": (lambda qc: qc.copy(), ident), "peek": (t_peek, ident), "transp": (t_transpile, ident),
}


def chain(word, trs, pos):
    """Template -> bind at position pos (both value sets, from the same object) -> rest of the chain."""
    qc = build(word)
    S = syms(word)
    for t in trs[:pos]:
        if set(qc.abstract_params) != S:
            return "reports free symbols %s, has %s" % (qc.abstract_params, S)
        qc = TR[t][0](qc)
    if set(qc.abstract_params) != S:
        return "reports free symbols %s, has %s" % (qc.abstract_params, S)
    before = circ.snapshot(qc)
    for n, v in enumerate(VALS):
        bd = qc.bind_parameters(v)
        if circ.snapshot(qc) != before or set(qc.abstract_params) != S:
            return "binding changed the template"
        for t in trs[pos:]:
            if bd.abstract_params:
                return "bound circuit reports free symbols %s" % bd.abstract_params
            bd = TR[t][0](bd)
        if bd.abstract_params:
            return "bound circuit reports free symbols %s" % bd.abstract_params
        U = ref_of(word, v)
        for t in trs:
            U = TR[t][1](U)
        got = np.asarray(bd.get_unitary(), dtype=complex)
        if not ref.close(got, U):
            return "value set %d: wrong unitary after binding (distance %.3f)" % (n, np.abs(got - U).max())
        if not ref.close(circ.unitary_of(bd), U):
            return "value set %d: gates of the bound circuit do not give the unitary" % n
        got = np.asarray(bd.to_op().get_unitary(), dtype=complex)
        if not ref.close(got, U):
            return "value set %d: wrong unitary as one gate" % n
        if n and bd.qubits:
            sv = np.asarray(bd.statevector_array()).reshape(-1)
            if not ref.close(sv, U[:, 0]):
                return "value set %d: wrong simulated state" % n


def bind_op(word, trs):
    """Bind single operations instead of circuits, also after re-appending."""
    qc = build(word)
    for t in trs:
        qc = TR[t][0](qc)
    op = qc.to_op("whole")
    for v in VALS:
        bop = op.bind_parameters(v)
        U = ref_of(word, v)
        for t in trs:
            U = TR[t][1](U)
        n = bop.num_qubits
        res = q.QuantumCircuit(n)
        res.append(bop, res.qubits)
        if res.abstract_params:
            return "bound operation still reports %s" % res.abstract_params
        if not ref.close(np.asarray(res.get_unitary(), dtype=complex), U):
            return "bound operation has the wrong unitary"
        for pat in ("1", "0"):
            c = bop.control(1, ctrl_state=pat)
            if not ref.close(np.asarray(c.get_unitary(), dtype=complex), ref.ctrl(U, 1, pat)):
                return "controlled bound operation has the wrong unitary"
        if not ref.close(np.asarray(bop.inverse().get_unitary(), dtype=complex), dag(U)):
            return "inverse of the bound operation has the wrong unitary"


def cond(word, outcome, neg, wrap):
    """Parametrized gates under a classical condition."""
    qc = q.QuantumCircuit(3, 1)
    if outcome:
        qc.x(2)
    qc.measure(qc.qubits[2], qc.clbits[0])
    qc.h(0), qc.h(1)
    if wrap:
        op = build(word).to_gate("sub")
        qc.append(op.c_if(1, "0" if neg else "1"), qc.qubits[:2], [qc.clbits[0]])
    else:
        for w in word:
            qs, mk, ps, _ = G[w]
            qc.append(mk(*ps).c_if(1, "0" if neg else "1"), [qc.qubits[int(c)] for c in qs], [qc.clbits[0]])
    qc.h(0), qc.h(1)
    qc.add_clbit(), qc.add_clbit()
    qc.measure(qc.qubits[:2], qc.clbits[1:])
    if set(qc.abstract_params) != syms(word):
        return "reports free symbols %s" % qc.abstract_params
    for v in VALS:
        bd = qc.bind_parameters(v)
        if bd.abstract_params:
            return "bound circuit reports free symbols"
        U = ref_of(word, v) if (outcome ^ neg) else np.eye(4)
        HH = np.kron(ref.H, ref.H)
        pr = np.abs((HH @ U @ HH)[:, 0]) ** 2
        want = {}
        for i in range(4):
            want[(outcome, i >> 1, i & 1)] = pr[i]
        got = circ.run_dist(bd, 3, [0, 1, 2])
        if isinstance(got, str):
            return got
        if not ref.dist_close(got, want):
            return "outcome distribution %r, expected %r" % (got, want)


def variable(word, compile):
    """Program with symbols, values given when measuring."""
    qv = q.QuantumVariable(2)
    for w in word:
        qs, mk, ps, _ = G[w]
        qv.qs.append(mk(*ps), [qv[int(c)] for c in qs])
    q.h(qv[0])
    pre = qv.qs.compile()
    for n in (0, 1, 0):
        v = VALS[n]
        U = ref.unitary(2, [(ref_of(word, v), [0, 1]), (ref.H, [0])])
        want = {format(i, "02b"): abs(U[i, 0]) ** 2 for i in range(4)}
        for kw in (dict(compile=compile), dict(precompiled_qc=pre)):
            got = dict(qv.get_measurement(subs_dic=v, **kw))
            if any(abs(got.get(k, 0) - want[k]) > 2e-4 for k in want):
                return "values %d %s: measured %r, expected %r" % (n, list(kw), got, want)


SINGLE = ["ginv", "inv", "ctl", "ctl0", "cc", "wrap", "wrapinv", "comp", "ext", "copy", "peek", "transp"]
PASS = ["dec", "comb", "fuse", "tocx", "rev", "nobar"]


def words(tier):
    ks = list(G)
    w = [(x,) for x in ks if G[x][2]]
    w += [p for p in itertools.product(ks, repeat=2) if syms(p)]
    return w


def chains(tier, L):
    out = [()]
    for n in range(1, L + 1):
        out += list(itertools.product(SINGLE, repeat=n))
    return out


def too_big(trs):
    return sum({"ctl": 1, "ctl0": 1, "cc": 2}.get(t, 0) for t in trs) > 2


def shards(tier):
    deep = tier != "quick"
    out = [["single", w] for w in G if G[w][2]]
    out += [["pair", w] for w in G]
    out += [["cond", w] for w in G]
    out += [["var", w] for w in G]
    if deep:
        out += [["deep", w] for w in G]
    return out


def run(shard, ctx):
    kind, first = shard
    if kind in ("single", "pair", "deep"):
        ks = list(G)
        if kind == "single":
            plan = [((first,), c) for c in chains(ctx.tier, 2)]
            plan += [((first,), (t, p)) for t in SINGLE for p in PASS] + [((first,), (p, t)) for t in SINGLE for p in PASS]
        elif kind == "pair":
            plan = [((first, y), c) for y in ks for c in chains(ctx.tier, 1) + [(p,) for p in PASS]]
        else:
            plan = [((first, y), c) for y in ks for c in itertools.product(SINGLE, repeat=2)]
            if G[first][2]:
                plan += [((first,), c) for c in itertools.product(SINGLE, repeat=3)]
        for word, trs in plan:
            if not syms(word) or too_big(trs):
                continue
            for pos in range(len(trs) + 1):
                key = "%s | %s^ %s" % (" ".join(word), " ".join(trs[:pos]), " ".join(trs[pos:]))
                ctx.step(len(word) + len(trs) + 1)
                ctx.state(word, trs, pos)
                ctx.case(key, chain, word, trs, pos)
            ctx.case("op %s | %s" % (" ".join(word), " ".join(trs)), bind_op, word, trs)
    elif kind == "cond":
        for rest in [()] + [(y,) for y in G]:
            word = (first,) + rest
            if not syms(word):
                continue
            for outcome in (0, 1):
                for neg in (0, 1):
                    for wrap in (0, 1):
                        ctx.state(word, outcome, neg, wrap)
                        ctx.step(len(word) + 4)
                        ctx.case("cond %s outcome=%d neg=%d wrap=%d" % (" ".join(word), outcome, neg, wrap), cond, word, outcome, neg, wrap)
    else:
        for rest in [()] + [(y,) for y in G]:
            word = (first,) + rest
            if not syms(word):
                continue
            for comp in (True, False):
                ctx.state("var", word, comp)
                ctx.step(len(word) + 6)
                ctx.case("variable %s compile=%s" % (" ".join(word), comp), variable, word, comp)
