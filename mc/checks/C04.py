"""Simulator: outcome distributions and statevectors of all bounded circuits."""
import itertools, math
import numpy as np
import qrisp as q
from mc import ref, circ

NOTE = "every circuit over the stated alphabets up to the stated depth is simulated by the real simulator and compared with exact branching semantics"
RULE = "all token sequences of the given depth over the given alphabet (mid-circuit: 2 qubits, 2+2 classical bits; gates: 3 qubits; wide families)"

MID = ["h0", "h1", "x0", "cx01", "cx10", "cz01", "t0", "m0>0", "m1>0", "m0>1", "m1>1", "R0", "R1",
       "?01:x0", "?01:x1", "?00:x1", "?11:h0", "?0111:x1", "?0110:x0"]
MID3 = ["h0", "h1", "x2", "cx01", "cx12", "cx20", "ccx012", "swap02", "m0>0", "m1>0", "m2>1", "R0", "R1", "?01:x2", "?01:cx21", "?1001:y1", "?01:xxyy12", "cp12"]
TERM2 = ["m0>2", "m1>3"]


def gate_tokens3():
    out = []
    for name, (k, _, _) in circ.GATES.items():
        for qs in itertools.permutations(range(3), k):
            out.append(name + "".join(map(str, qs)))
    for base in ["x", "z", "h", "p", "ry", "u3", "gp"]:
        for pat in ["0", "10", "01"]:
            qs = range(3)
            if len(pat) + 1 <= 3:
                for perm in itertools.permutations(qs, len(pat) + 1):
                    if len(pat) == 2 and perm not in [(0, 1, 2), (2, 0, 1)]:
                        continue
                    out.append("%s/%s:%s" % (base, pat, "".join(map(str, perm))))
    return out


SMALL3 = ["h0", "h1", "h2", "t0", "ry1", "cx01", "cx12", "cx20", "cp02", "swap12", "ccx012", "rxx02"]


def shards(tier):
    out = []
    for a in MID:
        out.append(["mid2", 4 if tier == "quick" else 4, a])
    for a in MID3:
        out.append(["mid3", 3 if tier == "quick" else 4, a])
    G = gate_tokens3()
    n = 12
    for i in range(n):
        out.append(["gates", i, n])
    for i in range(0, len(SMALL3)):
        out.append(["sv", SMALL3[i]])
    out += [["wide", k] for k in range(8)]
    out += [["shots"], ["alloc"], ["readout"]]
    out += [["cond", k, i] for k, parts in ((1, 1), (2, 1), (3, 2), (4, 4)) for i in range(parts)]
    out += [["cond2", w] for w in ("small", "big")]
    if tier == "thorough":
        for a in MID:
            for b in MID:
                out.append(["mid2t", a, b])
    return out


def check_mid(n, nc, toks, measured, br=None, pos=None):
    qc = circ.build(n, nc, toks)
    if pos is not None:
        big = q.QuantumCircuit(max(pos) + 1, nc)
        tr = {qc.qubits[i]: big.qubits[pos[i]] for i in range(n)}
        tr.update({qc.clbits[i]: big.clbits[i] for i in range(nc)})
        big.extend(qc, tr)
        qc = big
    before = circ.snapshot(qc)
    d = circ.run_dist(qc, nc, measured)
    if isinstance(d, str):
        return d
    br = ref.branches(n, nc, circ.ref_steps(toks)) if br is None else br
    e = ref.cdist(br, measured)
    if not ref.dist_close(d, e, 2e-4):
        return "outcome distribution %r, exact %r" % (d, e)
    if abs(sum(d.values()) - 1) > 1e-4:
        return "probabilities sum to %r" % sum(d.values())
    if circ.snapshot(qc) != before:
        return "simulation changed the circuit"


def measured_bits(toks):
    return tuple(sorted({circ.parse(t)[2] for t in toks if circ.parse(t)[0] == "m"}))


def run(shard, ctx):
    kind = shard[0]
    if kind in ("mid2", "mid2t", "mid3"):
        if kind == "mid2":
            n, nc, alpha, term = 2, 4, MID, TERM2
            seqs = [(shard[2],) + s for L in range(shard[1]) for s in itertools.product(alpha, repeat=L)]
        elif kind == "mid2t":
            n, nc, alpha, term = 2, 4, MID, TERM2
            seqs = [(shard[1], shard[2]) + s for s in itertools.product(alpha, repeat=3)]
        else:
            n, nc, alpha, term = 3, 5, MID3, ["m0>2", "m1>3", "m2>4"]
            seqs = [(shard[2],) + s for L in range(shard[1]) for s in itertools.product(alpha, repeat=L)]
        for s in seqs:
            # a conditioned gate on a never-measured bit is still meaningful (bit is 0)
            toks = s + tuple(term)
            key = kind + " " + " ".join(toks)
            if not ctx.wants(key):
                continue
            br = ref.branches(n, nc, circ.ref_steps(toks))
            ctx.state(kind, tuple(sorted((c, round(float(np.vdot(st, st).real), 4)) for c, st in br)))
            ctx.step(len(toks))
            ctx.case(key, check_mid, n, nc, toks, measured_bits(toks), br)
    elif kind == "cond":
        # conditions on k classical bits, each never written / written from a |0>, |1> or |+> qubit, in every order and pattern
        k = shard[1]
        parts = {1: 1, 2: 1, 3: 2, 4: 4}[k]
        orders = list(itertools.permutations(range(k))) if k < 3 else [tuple(range(k)), tuple(range(k))[::-1]] if k == 3 else [(2, 0, 3, 1)]
        gates = ["x3", "h3", "cx13", "ry3"] if k < 3 else ["x3", "cx13"] if k == 3 else ["x3"]
        for i, src in enumerate(itertools.product("-012", repeat=k)):
            if i % parts != shard[2]:
                continue
            pre = ("x1", "h2") + tuple("m%s>%d" % (w, b) for b, w in enumerate(src) if w != "-")
            for order in orders:
                for pat in itertools.product("01", repeat=k):
                    for g in gates:
                        toks = pre + ("?%s:%s" % ("".join("%d%s" % z for z in zip(order, pat)), g), "h3" if g == "ry3" else "x0", "m3>4")
                        key = "cond " + " ".join(toks)
                        if not ctx.wants(key):
                            continue
                        br = ref.branches(4, 5, circ.ref_steps(toks))
                        ctx.state(kind, toks[-3], src)
                        ctx.step(len(toks))
                        ctx.case(key, check_mid, 4, 5, toks, measured_bits(toks), br)
    elif kind == "cond2":
        # two-qubit gates under a condition, between gates on either qubit; also embedded in a circuit of 66 qubits
        pos = None if shard[1] == "small" else [63, 2, 65]
        gates = ["cx01", "cx10", "cp01", "swap10", "x/0:10", "cx02", "cx20"]
        for src, pre, a, v, g, b in itertools.product(["", "x2", "h2"], ["h0 h1", "h0 x1"], ["h0", "h1", "t1"], "01", gates, ["h0", "h1", "ry0", "R1", "R0 h0"]):
            toks = tuple((src + " m2>0 " + pre + " " + a + " ?0" + v + ":" + g + " " + b + " h1 m0>1 m1>2").split())
            key = "cond2 %s %s" % (shard[1], " ".join(toks))
            if not ctx.wants(key):
                continue
            br = ref.branches(3, 3, circ.ref_steps(toks))
            ctx.state(kind, shard[1], tuple(sorted((c, round(float(np.vdot(st, st).real), 4)) for c, st in br)))
            ctx.step(len(toks))
            ctx.case(key, check_mid, 3, 3, toks, measured_bits(toks), br, pos)
    elif kind == "gates":
        G = gate_tokens3()
        pre = ["ry0", "h1", "rx2"]
        for i, a in enumerate(G):
            if i % shard[2] != shard[1]:
                continue
            for b in G:
                toks = pre + [a, b]
                key = "gates " + " ".join(toks)
                if not ctx.wants(key):
                    continue
                e = ref.zero_state(3)
                for stp in circ.ref_steps(toks):
                    e = ref.apply(e, stp[1], stp[2])
                ctx.state(ref.fingerprint(e))
                ctx.step(len(toks))

                def f():
                    sv = np.asarray(circ.build(3, 0, toks).statevector_array()).reshape(2, 2, 2)
                    if not ref.close(sv, e):
                        return "statevector %s, exact %s" % (np.round(sv.ravel(), 4), np.round(e.ravel(), 4))
                ctx.case(key, f)
    elif kind == "sv":
        for L in range(0, 4):
            for s in itertools.product(SMALL3, repeat=L):
                toks = (shard[1],) + s
                key = "sv " + " ".join(toks)
                if not ctx.wants(key):
                    continue
                e = ref.zero_state(3)
                for stp in circ.ref_steps(toks):
                    e = ref.apply(e, stp[1], stp[2])
                ctx.state(ref.fingerprint(e))
                ctx.step(len(toks))

                def f():
                    sv = np.asarray(circ.build(3, 0, toks).statevector_array()).reshape(2, 2, 2)
                    if not ref.close(sv, e):
                        return "statevector %s, exact %s" % (np.round(sv.ravel(), 4), np.round(e.ravel(), 4))
                ctx.case(key, f)
    elif kind == "wide":
        wide(shard[1], ctx)
    elif kind == "shots":
        shots(ctx)
    elif kind == "alloc":
        alloc(ctx)
    elif kind == "readout":
        readout(ctx)


def dense_circuit(n, v):
    """A deterministic dense circuit family indexed by (n, v)."""
    ops = []
    for i in range(n):
        ops.append(("ry", (i,), 0.3 + 0.37 * ((i * (v + 1)) % 5)))
    for i in range(n - 1):
        a, b = (i, i + 1) if (i + v) % 2 else (i + 1, i)
        ops.append(("cx", (a, b), None))
        ops.append(("p", (b,), 0.2 + 0.1 * i))
    for i in range(n):
        j = (i * 3 + v + 1) % n
        if i != j:
            ops.append(("cp", (i, j), 0.4 + 0.05 * i))
    for i in range(0, n, 2):
        ops.append(("h", (i,), None))
    return ops


def put(qc, ops):
    for name, qs, a in ops:
        b = [qc.qubits[i] for i in qs]
        if a is None:
            getattr(qc, name)(*b)
        else:
            getattr(qc, name)(a, *b)


MAT = dict(ry=ref.ry, p=ref.p, cp=lambda a: ref.ctrl(ref.p(a)), h=lambda a: ref.H, cx=lambda a: ref.ctrl(ref.X), x=lambda a: ref.X, rx=ref.rx)


def refput(n, ops):
    s = ref.zero_state(n)
    for name, qs, a in ops:
        s = ref.apply(s, MAT[name](a), list(qs))
    return s


def wide(part, ctx):
    if part < 4:
        # dense circuits up to 13 qubits: statevector and full distribution
        for n in range(2, 14):
            for v in range(6):
                if (n + v) % 4 != part:
                    continue
                key = "dense n=%d v=%d" % (n, v)
                if not ctx.wants(key):
                    continue
                ops = dense_circuit(n, v)
                e = refput(n, ops)
                ctx.state(ref.fingerprint(e))
                ctx.step(2 * len(ops))

                def f():
                    qc = q.QuantumCircuit(n)
                    put(qc, ops)
                    sv = np.asarray(qc.statevector_array())
                    if not ref.close(sv, e.reshape(-1), 2e-4):
                        return "statevector differs by %g" % np.max(np.abs(sv - e.reshape(-1)))
                    # measure a subset of qubits in a scrambled order
                    order = [(i * 5 + v) % n for i in range(n)] if math.gcd(5, n) == 1 else list(range(n))[::-1]
                    order = order[:max(1, n - v % 3)]
                    qc = q.QuantumCircuit(n, len(order))
                    put(qc, ops)
                    for c, i in enumerate(order):
                        qc.measure(qc.qubits[i], qc.clbits[c])
                    d = circ.run_dist(qc, len(order), list(range(len(order))))
                    p = np.abs(e) ** 2
                    rest = tuple(i for i in range(n) if i not in order)
                    p = p.sum(axis=rest)
                    kept = sorted(order)
                    p = p.transpose([kept.index(i) for i in order])
                    got = np.zeros(p.shape)
                    for k, val in d.items():
                        got[k] = val
                    # the simulator rounds probabilities to about 5 digits below the largest one
                    if np.max(np.abs(got - p)) > 2e-5 + 1e-2 * np.max(p):
                        return "distribution differs by %g (largest probability %g)" % (np.max(np.abs(got - p)), np.max(p))
                ctx.case(key, f)
    else:
        # reversible circuits on wide registers (crosses the 25/45/63-qubit code paths) with a few superposed qubits
        for n in [16, 20, 24, 25, 26, 28, 30, 34, 36, 44, 46, 50, 62, 63, 64, 66, 70]:
            for v in range(8):
                if v % 4 != part - 4:
                    continue
                key = "rev n=%d v=%d" % (n, v)
                if not ctx.wants(key):
                    continue

                def f():
                    nsup = 1 + v % 3
                    sup = [(v * 7 + 11 * i) % n for i in range(nsup)]
                    if len(set(sup)) < nsup:
                        return
                    ops = [("h", (i,)) for i in sup] + [("x", ((v + 3) % n,))]
                    for i in range(n):
                        a, b, c = i, (i * 3 + v + 1) % n, (i * 5 + 2 * v + 2) % n
                        if a != b:
                            ops.append(("cx", (a, b)))
                        if len({a, b, c}) == 3 and i % 2 == v % 2:
                            ops.append(("ccx", (a, b, c)))
                        if i % 7 == 0:
                            ops.append(("x", (c,)))
                    ctx.step(len(ops))
                    # mid-circuit: measure one qubit, use it, go on
                    midq = (5 * v + 2) % n
                    e = {}
                    for bits in itertools.product((0, 1), repeat=nsup):
                        st = [0] * n
                        cut = len(ops) // 2
                        mid = None
                        for j, (name, qs) in enumerate(ops):
                            if j == cut:
                                mid = st[midq]
                            if name == "h":
                                st[qs[0]] = bits[sup.index(qs[0])]
                            elif name == "x":
                                st[qs[0]] ^= 1
                            elif name == "cx":
                                st[qs[1]] ^= st[qs[0]]
                            else:
                                st[qs[2]] ^= st[qs[0]] & st[qs[1]]
                        k = (mid,) + tuple(st)
                        e[k] = e.get(k, 0) + 0.5 ** nsup
                    ctx.state("rev", n, v, tuple(sorted(e)))
                    qc = q.QuantumCircuit(n, n + 1)
                    for j, (name, qs) in enumerate(ops):
                        if j == len(ops) // 2:
                            qc.measure(qc.qubits[midq], qc.clbits[0])
                        b = [qc.qubits[i] for i in qs]
                        getattr(qc, name)(*b)
                    for i in range(n):
                        qc.measure(qc.qubits[i], qc.clbits[i + 1])
                    d = circ.run_dist(qc, n + 1, list(range(n + 1)))
                    if isinstance(d, str):
                        return d
                    if not ref.dist_close(d, e, 1e-3):
                        return "distribution %r, exact %r" % ({"".join(map(str, k)): v for k, v in d.items()}, {"".join(map(str, k)): v for k, v in e.items()})
                ctx.case(key, f)


def shots(ctx):
    for toks in itertools.product(["h0", "x1", "cx01", "ry1", "m0>0", "R0", "?01:x1"], repeat=2):
        full = ("ry0",) + toks + ("m0>0", "m1>1")
        for sh in (1, 2, 7, 100, 1000):
            key = "shots %d " % sh + " ".join(full)

            def f():
                e = ref.cdist(ref.branches(2, 2, circ.ref_steps(full)), (0, 1))
                ctx.state("shots", tuple(sorted((k, round(v, 4)) for k, v in e.items())), sh)
                ctx.step(len(full))
                r = dict(circ.build(2, 2, full).run(shots=sh))
                if sum(r.values()) != sh:
                    return "counts sum to %r for %d shots" % (sum(r.values()), sh)
                for k, v in r.items():
                    if not isinstance(v, (int, np.integer)) or v < 0:
                        return "count %r is not a natural number" % (v,)
                    if e.get(tuple(int(c) for c in k[::-1]), 0) < 1e-9:
                        return "impossible outcome %r reported" % k
                # law of large numbers with a bound that fails with probability < 1e-12
                if sh == 1000:
                    for k, pr in e.items():
                        got = r.get("".join(map(str, k))[::-1], 0) / sh
                        if abs(got - pr) > 0.125:
                            return "frequency of %r is %g, probability %g" % (k, got, pr)
            ctx.case(key, f)


def alloc(ctx):
    """Allocation markers have no effect on outcomes (qubits are deallocated in |0>)."""
    A = ["alloc0", "alloc1", "h0", "x1", "cx01", "bar", "m0>0"]
    for L in range(0, 5):
        for s in itertools.product(A, repeat=L):
            toks = s + ("m0>2", "m1>3", "R0", "R1", "deall0", "deall1")
            key = "alloc " + " ".join(toks)
            if not ctx.wants(key):
                continue
            ctx.step(len(toks))
            ctx.case(key, check_mid, 2, 4, toks, measured_bits(toks))


def readout(ctx):
    """Every map from measurements to classical bits, every subset of qubits measured."""
    pre = ("ry0", "cx01", "rx1", "cx12", "h2")
    for k in range(1, 4):
        for qs in itertools.product(range(3), repeat=k):
            for cs in itertools.permutations(range(4), k):
                toks = pre + tuple("m%d>%d" % (a, b) for a, b in zip(qs, cs))
                key = "readout " + " ".join(toks)
                if not ctx.wants(key):
                    continue
                ctx.step(len(toks))
                ctx.state("readout", qs, cs)
                ctx.case(key, check_mid, 3, 4, toks, measured_bits(toks))
