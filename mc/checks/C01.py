"""Circuit algebra: unitary, inverse, control, compose, wrap, copy."""
import itertools, math
import numpy as np
import qrisp as q
from mc import ref, circ

NOTE = "all gates x control counts/patterns x nesting of inverse and control, and all short circuits x transformations, compared with matrices built by an independent routine"
RULE = "gates: every gate, every control pattern up to 3 controls, every word over {inverse, control} up to length 3; circuits: every token sequence up to the depth bound x every transformation"

SINGLE = [g for g, v in circ.GATES.items()]
ANG = [math.pi / 4, math.pi / 2, math.pi, -math.pi, 3 * math.pi / 2, 2 * math.pi, -0.4, 0.0]

SMALL2 = ["h0", "h1", "t0", "sx1", "rz0", "gp0", "y1", "cx01", "cx10", "cp01", "swap01", "rzz01", "xxyy10", "u30", "x/0:01", "h/0:10"]
SMALL3 = ["h0", "ry1", "t2", "cx02", "cx21", "ccx012", "swap01", "p/01:201", "gp/10:012", "u31"]


def param_ops(name, a):
    """Parametrised gates at special angles: (operation, matrix)."""
    return {
        "p": lambda: (q.PGate(a), ref.p(a)), "rx": lambda: (q.RXGate(a), ref.rx(a)), "ry": lambda: (q.RYGate(a), ref.ry(a)),
        "rz": lambda: (q.RZGate(a), ref.rz(a)), "gp": lambda: (q.GPhaseGate(a), ref.gphase(a)), "cp": lambda: (q.CPGate(a), ref.ctrl(ref.p(a))),
        "rxx": lambda: (q.RXXGate(a), ref.rxx(a)), "rzz": lambda: (q.RZZGate(a), ref.rzz(a)), "xxyy": lambda: (q.XXYYGate(a, 0.3), circ.xxyy_ref(a, 0.3)),
        "xxyyb": lambda: (q.XXYYGate(0.3, a), circ.xxyy_ref(0.3, a)),
        "u3a": lambda: (q.u3Gate(a, 0.3, 0.2), ref.u3(a, 0.3, 0.2)), "u3b": lambda: (q.u3Gate(0.3, a, 0.2), ref.u3(0.3, a, 0.2)), "u3c": lambda: (q.u3Gate(0.3, 0.2, a), ref.u3(0.3, 0.2, a)),
        "u3z": lambda: (q.u3Gate(0, a, 0), ref.u3(0, a, 0)), "u3d": lambda: (q.u3Gate(0, 0, a), ref.u3(0, 0, a)), "u3p": lambda: (q.u3Gate(a, 0, 0), ref.u3(a, 0, 0)),
        "crx": lambda: (q.MCRXGate(a, 1), ref.ctrl(ref.rx(a))), "ccrx": lambda: (q.MCRXGate(a, 2), ref.ctrl(ref.rx(a), 2)), "u1": lambda: (q.U1Gate(a), ref.rz(a)),
        "r": lambda: (q.RGate(a, 0.4), np.array([[math.cos(a / 2), np.exp(-0.4j) * math.sin(a / 2)], [-np.exp(0.4j) * math.sin(a / 2), math.cos(a / 2)]])),
        "r2": lambda: (q.RGate(0.4, a), np.array([[math.cos(.2), np.exp(-1j * a) * math.sin(.2)], [-np.exp(1j * a) * math.sin(.2), math.cos(.2)]])),
    }[name]()


PARAM = ["p", "rx", "ry", "rz", "gp", "cp", "rxx", "rzz", "xxyy", "xxyyb", "u3a", "u3b", "u3c", "u3z", "u3d", "u3p", "crx", "ccrx", "u1", "r", "r2"]


def shards(tier):
    out = [["gate", g] for g in SINGLE] + [["param", p] for p in PARAM] + [["mcx", k] for k in range(0, 6)]
    out += [["wrapped", i] for i in range(8)]
    depth2 = 3 if tier == "quick" else 4
    out += [["circ2", depth2, a] for a in SMALL2]
    out += [["circ3", 2 if tier == "quick" else 3, a] for a in SMALL3]
    out += [["compose"], ["unitary"], ["broadcast"], ["append"]]
    return out


def words(maxlen, maxctrl, n0, maxq):
    """All words over inverse / control(k, pattern) with at most maxctrl controls."""
    letters = [("inv",)] + [("ctl", pat) for k in range(1, maxctrl + 1) for pat in map("".join, itertools.product("01", repeat=k))]
    for L in range(0, maxlen + 1):
        for w in itertools.product(letters, repeat=L):
            c = sum(len(x[1]) for x in w if x[0] == "ctl")
            if c <= maxctrl and c + n0 <= maxq and not any(w[i][0] == "inv" and w[i + 1][0] == "inv" for i in range(L - 1)):
                yield w


def expand(op):
    """Matrix obtained by executing the operation's definition."""
    if op.definition is None:
        return np.asarray(op.get_unitary(), dtype=complex)
    return circ.unitary_of(op.definition)


def check_op(op, U, what):
    n = int(round(math.log2(U.shape[0])))
    if op.num_qubits != n:
        return "%s: acts on %d qubits, expected %d" % (what, op.num_qubits, n)
    got = np.asarray(op.get_unitary(), dtype=complex)
    if not ref.close(got, U):
        return "%s: reported unitary differs from linear algebra by %.3g" % (what, np.max(np.abs(got - U)) if got.shape == U.shape else -1)
    got = expand(op)
    if not ref.close(got, U):
        return "%s: unpacked definition differs from linear algebra by %.3g" % (what, np.max(np.abs(got - U)))


def run_word(op, U, w, as_int=False):
    base_before = np.array(op.get_unitary())
    name_before = op.name
    cur, V = op, U
    for x in w:
        if x[0] == "inv":
            cur, V = cur.inverse(), V.conj().T
        else:
            pat = x[1]
            st = int(pat[::-1], 2) if as_int else pat
            if pat == "1" * len(pat) and not as_int:
                cur = cur.control(len(pat))
            else:
                cur = cur.control(len(pat), ctrl_state=st)
            V = ref.ctrl(V, len(pat), pat)
    m = check_op(cur, V, "word %r" % (w,))
    if m:
        return m
    # inside a circuit
    n = cur.num_qubits
    qc = q.QuantumCircuit(n)
    order = list(range(n))[::-1]
    qc.append(cur, [qc.qubits[i] for i in order])
    got = np.asarray(qc.get_unitary(), dtype=complex)
    exp = ref.embed(n, V, order)
    if not ref.close(got, exp):
        return "circuit unitary of word %r on reversed qubits is wrong" % (w,)
    if n <= 3:
        sv = np.asarray(qc.statevector_array())
        if not ref.close(sv, exp[:, 0]):
            return "statevector of word %r is wrong" % (w,)
    if not ref.close(np.asarray(op.get_unitary()), base_before) or op.name != name_before:
        return "original operation was modified by word %r" % (w,)


def run(shard, ctx):
    k = shard[0]
    if k == "gate":
        g = shard[1]
        nq, mk, U = circ.GATES[g]
        for as_int in (False, True):
            for w in words(3, 3 if nq < 3 else 2, nq, 5):
                if as_int and not any(x[0] == "ctl" for x in w):
                    continue
                key = "gate %s %s%s" % (g, w, " int" if as_int else "")
                ctx.state("g", g, w)
                ctx.step(len(w) + 1)
                ctx.case(key, lambda: run_word(mk(), U, w, as_int))
    elif k == "param":
        for a in ANG:
            op, U = param_ops(shard[1], a)
            nq = int(math.log2(U.shape[0]))
            for w in words(2, 2, nq, 4):
                key = "param %s %.4f %s" % (shard[1], a, w)
                ctx.state("p", shard[1], a, w)
                ctx.step(len(w) + 1)
                ctx.case(key, lambda: run_word(param_ops(shard[1], a)[0], U, w))
    elif k == "mcx":
        n = shard[1]
        for pat in map("".join, itertools.product("01", repeat=n)):
            if n == 0:
                continue
            for base in ("x", "y", "z", "h", "t", "ry", "u3", "gp", "sx"):
                if n == 5 and base not in ("x", "z", "gp"):
                    continue
                key = "mc %s %s" % (base, pat)
                ctx.state("mc", base, pat)
                ctx.step(2)
                for wd in ((("ctl", pat),), (("ctl", pat), ("inv",))):
                    ctx.case(key + str(len(wd)), lambda: run_word(circ.GATES[base][1](), circ.GATES[base][2], wd))
    elif k == "wrapped":
        # circuits packed to a gate, then any word of inverse/control
        bodies = [["h0", "t1", "cx01"], ["cp01", "rx0", "gp1"], ["swap01", "u30"], ["x/0:01", "y1", "rzz01"], ["gp0"], ["gp0", "gp1"], [], ["sx0", "xxyy01", "s1"]]
        body = bodies[shard[1]]
        U = ref.unitary(2, [(s[1], s[2]) for s in circ.ref_steps(body)])
        for w in words(3, 2, 2, 4):
            for nest in (1, 2):
                key = "wrapped %s nest%d %s" % (body, nest, w)
                ctx.state("w", shard[1], nest, w)
                ctx.step(len(body) + len(w))

                def f():
                    qc = circ.build(2, 0, body)
                    op = qc.to_gate()
                    if nest == 2:
                        qc2 = q.QuantumCircuit(2)
                        qc2.append(op, [qc2.qubits[1], qc2.qubits[0]])
                        op = qc2.to_gate("outer")
                        V = ref.permute(U, [1, 0])
                    else:
                        V = U
                    return run_word(op, V, w)
                ctx.case(key, f)
    elif k in ("circ2", "circ3"):
        n = 2 if k == "circ2" else 3
        alpha = SMALL2 if n == 2 else SMALL3
        for L in range(shard[1]):
            for s in itertools.product(alpha, repeat=L):
                toks = (shard[2],) + s
                key = k + " " + " ".join(toks)
                if not ctx.wants(key):
                    continue
                ctx.step(len(toks))
                U = ref.unitary(n, [(t[1], t[2]) for t in circ.ref_steps(toks)])
                ctx.state(ref.fingerprint(U))
                ctx.case(key, check_circuit, n, toks, U)
    elif k == "compose":
        compose(ctx)
    elif k == "unitary":
        unitary(ctx)
    elif k == "broadcast":
        broadcast(ctx)
    elif k == "append":
        append_forms(ctx)


def check_circuit(n, toks, U):
    qc = circ.build(n, 0, toks)
    snap = circ.snapshot(qc)
    if not ref.close(np.asarray(qc.get_unitary(), dtype=complex), U):
        return "unitary is not the product of the gates"
    inv = qc.inverse()
    if not ref.close(np.asarray(inv.get_unitary(), dtype=complex), U.conj().T):
        return "inverse circuit has wrong unitary"
    if not ref.close(circ.unitary_of(inv), U.conj().T):
        return "inverse circuit (unpacked) has wrong unitary"
    cp = qc.copy()
    cp.h(cp.qubits[0])
    cc = qc.clearcopy()
    if len(cc.data) or len(cc.qubits) != n:
        return "clearcopy is not an empty circuit on the same qubits"
    if circ.snapshot(qc) != snap:
        return "appending to a copy changed the original"
    if not ref.close(np.asarray(cp.get_unitary(), dtype=complex), ref.embed(n, ref.H, [0]) @ U):
        return "copy has wrong unitary"
    m = check_op(qc.to_gate(), U, "to_gate") or check_op(qc.to_gate().inverse(), U.conj().T, "to_gate().inverse()")
    if m:
        return m
    for c in (1, 2):
        if c == 2 and len(toks) > 2:
            continue
        m = check_op(qc.control(c), ref.ctrl(U, c), "control(%d)" % c)
        if m:
            return m
    m = check_op(qc.to_gate().control(1, ctrl_state="0"), ref.ctrl(U, 1, "0"), "control on 0")
    if m:
        return m
    tr = qc.transpile()
    if not ref.close(circ.unitary_of(tr, expand=False), U):
        return "fully unpacked circuit has wrong unitary"
    if not ref.close(circ.unitary_of(qc.transpile(1), expand=True), U):
        return "partially unpacked circuit has wrong unitary"
    other = circ.build(n, 0, toks)
    if not qc.compare_unitary(other):
        return "compare_unitary rejects an identical circuit"
    other.append(q.GPhaseGate(0.5), [other.qubits[0]])
    if qc.compare_unitary(other) or not qc.compare_unitary(other, ignore_gphase=True):
        return "compare_unitary mishandles a global phase"
    other.append(q.RYGate(0.5), [other.qubits[-1]])
    if qc.compare_unitary(other) or qc.compare_unitary(other, ignore_gphase=True):
        return "compare_unitary accepts a different circuit"
    if circ.snapshot(qc) != snap:
        return "a transformation changed the original circuit"


def compose(ctx):
    bodies = [["h0"], ["ry0"], ["cx01"], ["h0", "cx01", "t1"], ["cp01", "ry1"], ["ccx012", "h0", "t2"], ["swap02", "ry1", "cx12"]]
    outer = [[], ["h0", "cx02"], ["ry1", "cz12", "swap01"]]
    for bi, body in enumerate(bodies):
        nb = 1 + max(max(circ.parse(t)[2]) for t in body)
        UB = ref.unitary(nb, [(s[1], s[2]) for s in circ.ref_steps(body)])
        for oi, out in enumerate(outer):
            UO = ref.unitary(3, [(s[1], s[2]) for s in circ.ref_steps(out)])
            for qs in itertools.permutations(range(3), nb):
                exp = ref.embed(3, UB, qs) @ UO
                ctx.state(ref.fingerprint(exp))
                for mode in ("compose", "compose_int", "compose_copy", "extend", "append_gate", "append_inv"):
                    key = "compose b%d o%d %s %s" % (bi, oi, qs, mode)
                    ctx.step(len(body) + len(out))

                    def f():
                        o = circ.build(3, 0, out)
                        b = circ.build(nb, 0, body)
                        sb, so = circ.snapshot(b), circ.snapshot(o)
                        e = exp
                        tgt = [o.qubits[i] for i in qs]
                        if mode == "compose":
                            o.compose(b, tgt)
                        elif mode == "compose_int":
                            o.compose(b, list(qs))
                        elif mode == "compose_copy":
                            r = o.compose(b, tgt, inplace=False)
                            if circ.snapshot(o) != so:
                                return "non-inplace compose changed the circuit"
                            o = r
                        elif mode == "extend":
                            o.extend(b, {b.qubits[i]: tgt[i] for i in range(nb)})
                        elif mode == "append_gate":
                            o.append(b.to_gate(), tgt)
                        else:
                            o.append(b.to_gate().inverse(), tgt)
                            e = ref.embed(3, UB.conj().T, qs) @ UO
                        if circ.snapshot(b) != sb:
                            return "composed circuit was modified"
                        if not ref.close(np.asarray(o.get_unitary(), dtype=complex), e):
                            return "wrong unitary after " + mode
                        if not ref.close(circ.unitary_of(o), e):
                            return "wrong unpacked unitary after " + mode
                    ctx.case(key, f)


def unitary(ctx):
    base = {"1": ref.I2, "h": ref.H, "t": ref.T, "x": ref.X, "y": ref.Y, "a": ref.u3(0.3, 1.1, -2.0), "g": ref.gphase(0.9), "s": ref.S}
    for w in itertools.product(base, repeat=3):
        U = base[w[0]] @ base[w[1]] @ base[w[2]]
        ctx.state(ref.fingerprint(U))
        ctx.step(3)

        def f():
            qc = q.QuantumCircuit(2)
            qc.h(0)
            qc.unitary(U, qc.qubits[1])
            e = np.kron(ref.H, U)
            if not ref.close(np.asarray(qc.get_unitary(), dtype=complex), e):
                return "explicit unitary is not reproduced"
            if not ref.close(np.asarray(qc.inverse().get_unitary(), dtype=complex), e.conj().T):
                return "inverse of explicit unitary is wrong"
        ctx.case("unitary " + "".join(w), f)


def broadcast(ctx):
    one = ["x", "y", "z", "h", "s", "s_dg", "t", "t_dg", "sx", "sx_dg", "id"]
    rot = {"rx": ref.rx, "ry": ref.ry, "rz": ref.rz, "p": ref.p, "gphase": ref.gphase}
    two = {"cx": ref.ctrl(ref.X), "cy": ref.ctrl(ref.Y), "cz": ref.ctrl(ref.Z), "swap": ref.SWAP}
    rot2 = {"cp": lambda a: ref.ctrl(ref.p(a)), "rxx": ref.rxx, "rzz": ref.rzz, "crx": lambda a: ref.ctrl(ref.rx(a))}
    m1 = {"x": ref.X, "y": ref.Y, "z": ref.Z, "h": ref.H, "s": ref.S, "s_dg": ref.S.conj(), "t": ref.T, "t_dg": ref.T.conj(), "sx": ref.rx(math.pi / 2), "sx_dg": ref.rx(-math.pi / 2), "id": ref.I2}
    pre = ["ry0", "h1", "rx2"]
    U0 = ref.unitary(3, [(s[1], s[2]) for s in circ.ref_steps(pre)])

    def chk(key, call, ops):
        e = ref.unitary(3, ops) @ U0
        ctx.state(ref.fingerprint(e))
        ctx.step(len(ops))

        def f():
            qc = circ.build(3, 0, pre)
            call(qc)
            if not ref.close(circ.unitary_of(qc), e):
                return "gate call builds the wrong circuit"
        ctx.case("broadcast " + key, f)
    for r in range(1, 4):
        for qs in itertools.permutations(range(3), r):
            for g in one:
                chk("%s %s" % (g, qs), lambda qc: getattr(qc, g)([qc.qubits[i] for i in qs]), [(m1[g], [i]) for i in qs])
                chk("%s int %s" % (g, qs), lambda qc: getattr(qc, g)(list(qs) if r > 1 else qs[0]), [(m1[g], [i]) for i in qs])
            for g, fn in rot.items():
                for a in (0, 0.3, math.pi, -2 * math.pi):
                    chk("%s %s %.2f" % (g, qs, a), lambda qc: getattr(qc, g)(a, [qc.qubits[i] for i in qs]), [(fn(a), [i]) for i in qs])
    for a, b in itertools.permutations(range(3), 2):
        for g, U in two.items():
            chk("%s %d%d" % (g, a, b), lambda qc: getattr(qc, g)(qc.qubits[a], qc.qubits[b]), [(U, [a, b])])
            chk("%s int %d%d" % (g, a, b), lambda qc: getattr(qc, g)(a, b), [(U, [a, b])])
            c = 3 - a - b
            chk("%s l %d%d" % (g, a, b), lambda qc: getattr(qc, g)([qc.qubits[a], qc.qubits[b]], qc.qubits[c]), [(U, [a, c]), (U, [b, c])])
            chk("%s r %d%d" % (g, a, b), lambda qc: getattr(qc, g)(qc.qubits[c], [qc.qubits[a], qc.qubits[b]]), [(U, [c, a]), (U, [c, b])])
            chk("%s lr %d%d" % (g, a, b), lambda qc: getattr(qc, g)([qc.qubits[a], qc.qubits[b]], [qc.qubits[c], qc.qubits[a]]), [(U, [a, c]), (U, [b, a])])
        for g, fn in rot2.items():
            for ang in (0, 0.3, math.pi, 2 * math.pi, -0.7):
                chk("%s %d%d %.2f" % (g, a, b, ang), lambda qc: getattr(qc, g)(ang, qc.qubits[a], qc.qubits[b]), [(fn(ang), [a, b])])
        for ang, be in itertools.product((0, 0.3, math.pi), repeat=2):
            chk("xxyy %d%d %.2f %.2f" % (a, b, ang, be), lambda qc: qc.xxyy(ang, be, qc.qubits[a], qc.qubits[b]), [(circ.xxyy_ref(ang, be), [a, b])])
    for perm in itertools.permutations(range(3)):
        for pat in map("".join, itertools.product("01", repeat=2)):
            chk("mcx %s %s" % (perm, pat), lambda qc: qc.mcx([qc.qubits[perm[0]], qc.qubits[perm[1]]], qc.qubits[perm[2]], ctrl_state=pat), [(ref.ctrl(ref.X, 2, pat), list(perm))])
        chk("ccx %s" % (perm,), lambda qc: qc.ccx(*[qc.qubits[i] for i in perm]), [(ref.ctrl(ref.X, 2), list(perm))])
    for i in range(3):
        for ang in itertools.product((0, 0.4, math.pi), repeat=3):
            chk("u3 %d %s" % (i, ang), lambda qc: qc.u3(*ang, qc.qubits[i]), [(ref.u3(*ang), [i])])


def append_forms(ctx):
    """Malformed appends raise and leave the circuit unchanged."""
    bad = {
        "too few": lambda qc: qc.append(q.CXGate(), [qc.qubits[0]]),
        "too many": lambda qc: qc.append(q.XGate(), [qc.qubits[0], qc.qubits[1]]),
        "duplicate": lambda qc: qc.append(q.CXGate(), [qc.qubits[0], qc.qubits[0]]),
        "foreign": lambda qc: qc.append(q.XGate(), [q.QuantumCircuit(1).qubits[0]]),
        "out of range": lambda qc: qc.append(q.XGate(), [3]),
        "no op": lambda qc: qc.append("x", [qc.qubits[0]]),
        "clbits missing": lambda qc: qc.append(q.circuit.standard_operations.Measurement(), [qc.qubits[0]]),
        "bad ctrl_state": lambda qc: qc.append(q.XGate().control(2, ctrl_state="1"), [qc.qubits[0], qc.qubits[1]]),
        "bad lists": lambda qc: qc.cx([qc.qubits[0], qc.qubits[1]], [qc.qubits[2]]),
        "duplicate qubit": lambda qc: qc.add_qubit(qc.qubits[0]),
        "measure to gate": lambda qc: (lambda c: c.to_gate())(q.QuantumCircuit(1, 1)),
        "control measure": lambda qc: q.circuit.standard_operations.Measurement().control(),
        "invert measure": lambda qc: q.circuit.standard_operations.Measurement().inverse(),
    }
    for name, fn in bad.items():
        ctx.state("bad", name)
        ctx.step()

        def f():
            qc = circ.build(3, 0, ["h0", "cx01"])
            s = circ.snapshot(qc)
            try:
                fn(qc)
            except Exception:
                if circ.snapshot(qc) != s:
                    return "rejected append changed the circuit"
                return
            return "malformed append accepted"
        ctx.case("append " + name, f)
