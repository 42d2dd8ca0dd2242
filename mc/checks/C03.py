"""Circuit passes preserve the computed instrument."""
import itertools, math
import numpy as np
import qrisp as q
from qrisp import PassManager
from mc import ref, circ

NOTE = "every token circuit up to the depth bound x every pass (and every pair of passes), compared as quantum instruments (all input states at once through a maximally entangled reference) with an independent evaluator"
RULE = "every token sequence up to the depth bound over the stated alphabets, times every pass / pass pair"

NEG = {"rzm": (1, lambda: q.RZGate(-circ.A3), ref.rz(-circ.A3)), "pm": (1, lambda: q.PGate(-circ.A1), ref.p(-circ.A1)),
       "pz": (1, lambda: q.PGate(-circ.A3), ref.p(-circ.A3)), "rx2": (1, lambda: q.RXGate(2 * math.pi), ref.rx(2 * math.pi)),
       "rxm": (1, lambda: q.RXGate(-circ.A1), ref.rx(-circ.A1)), "cpm": (2, lambda: q.CPGate(-circ.A1), ref.ctrl(ref.p(-circ.A1))),
       "rzzm": (2, lambda: q.RZZGate(-circ.A1), ref.rzz(-circ.A1)),
       "ryh": (1, lambda: q.RYGate(math.pi), ref.ry(math.pi)),
       "wrap": (2, lambda: _wrapped(), ref.unitary(2, [(ref.H, [0]), (ref.T, [0]), (ref.ctrl(ref.X), [0, 1]), (ref.H, [1])])),
       "wrapi": (2, lambda: _wrapped().inverse(), ref.unitary(2, [(ref.H, [0]), (ref.T, [0]), (ref.ctrl(ref.X), [0, 1]), (ref.H, [1])]).conj().T)}
circ.GATES.update(NEG)


def _wrapped():
    qc = q.QuantumCircuit(2)
    qc.h(0); qc.t(0); qc.cx(0, 1); qc.h(1)
    return qc.to_gate("wrapped")


# name -> (factory, assumptions)   zero: inputs are |0>; perm: result up to the permutation of removed swaps; gp: no phase tracking expected
PASSES = {
    "arrange_swaps": (lambda n: q.arrange_swaps, "zero"),
    "cancel_zero_controls": (lambda n: q.cancel_zero_controls, "zero"),
    "combine_1q": (lambda n: q.combine_single_qubit_gates, ""),
    "commute_swaps": (lambda n: q.commute_swaps, ""),
    "convert_to_cx": (lambda n: q.convert_to_cx(), ""),
    "convert_to_cz": (lambda n: q.convert_to_cz(), ""),
    "convert_to_prx": (lambda n: q.convert_to_prx, ""),
    "decompose": (lambda n: q.decompose(), ""),
    "decompose1": (lambda n: q.decompose(1), ""),
    "decompose_gp": (lambda n: q.decompose(collect_gphases=True), ""),
    "decompose_pred": (lambda n: q.decompose(decompose_predicate=lambda op: op.name != "swap"), ""),
    "fuse_adjacents": (lambda n: q.fuse_adjacents, ""),
    "gray_synth_toffoli": (lambda n: q.gray_synth_toffoli, ""),
    "remove_barriers": (lambda n: q.remove_barriers, ""),
    "resolve_swaps": (lambda n: q.resolve_swaps, "perm"),
    "reverse_parallelize": (lambda n: q.reverse_parallelize, ""),
}
PN = list(PASSES)
ALLOC = ["alloc0", "h0", "x1", "cx01", "cx10", "cz01", "deall0", "swap01", "p/0:01"]
NONLOCAL = ["arrange_swaps", "cancel_zero_controls", "combine_1q", "commute_swaps", "fuse_adjacents", "resolve_swaps", "reverse_parallelize"]

U2 = ["h0", "x1", "z0", "t0", "rz0", "rzm0", "p0", "pz0", "gp1", "cx01", "cx10", "cz01", "cy10", "cp01", "cpm10", "swap01", "rzz01", "rzzm10", "x/0:01", "z/0:10", "wrap01", "wrapi01", "rx20"]
U2D = ["h0", "x0", "rz0", "pz0", "cx01", "cx10", "cz10", "cp01", "swap01", "x/0:01", "rzz10"]
M2 = ["h0", "x1", "rz0", "cx01", "swap01", "m0>0", "m1>1", "m1>0", "R0", "?01:x1", "?10:y0", "?0011:rx20", "?01:u31", "bar", "h1"]
M2D = ["h0", "cx01", "swap10", "m0>0", "m1>0", "R1", "?01:x1", "?01:h0", "h1"]
M3 = ["h0", "m0>0", "m2>0", "?01:x2", "?01:x0", "swap01", "swap12", "R0", "cx01", "rz0", "h2"]
W3 = ["ccx012", "ccx201", "x/01:012", "x/10:120", "x/00:210", "h0", "h1", "t2", "cx01", "cx20", "swap02", "swap12", "z/01:012", "p/11:012"]


def shards(tier):
    d = 3
    out = [["u2", d, a] for a in U2] + [["m2", d, a] for a in M2] + [["w3", 2, a] for a in W3]
    d = 4 if tier == "quick" else 5
    for p in ("fuse_adjacents", "commute_swaps", "reverse_parallelize", "cancel_zero_controls", "arrange_swaps", "resolve_swaps", "combine_1q"):
        out += [["deep", p, d, a] for a in (U2D if p in ("fuse_adjacents", "cancel_zero_controls") else U2D[:1] + U2D[4:10])]
        out += [["deepm", p, d, a] for a in M2D] if p in ("commute_swaps", "fuse_adjacents", "reverse_parallelize", "resolve_swaps") else []
    out += [["pairs", a] for a in PN]
    out += [["m3", 4, a] for a in M3]
    out += [["oneq", i] for i in range(4)] + [["layout"], ["strict"], ["pm"], ["nobits"]] + [["alloc", a] for a in ALLOC]
    return out


def init_state(n, zero):
    if zero:
        return ref.zero_state(n)
    return (np.eye(2 ** n, dtype=complex) / 2 ** (n / 2)).reshape((2,) * (2 * n))


def semantics(n, nc, steps, zero):
    if all(s[0] == "u" for s in steps):
        s = init_state(n, zero)
        for st in steps:
            s = ref.apply(s, st[1], list(st[2]))
        return ("pure", s.reshape(-1))
    br = ref.branches(n, nc, steps, state=init_state(n, zero))
    return ("mixed", ref.rho(br, n))


def same(a, b):
    if a[0] == "pure" and b[0] == "pure":
        return ref.close(a[1], b[1], 1e-5)
    def mixed(x):
        return x[1] if x[0] == "mixed" else {None: np.outer(x[1], x[1].conj())}
    a, b = mixed(a), mixed(b)
    if (None in a) != (None in b):
        # all classical bits zero on the pure side
        z = max((k for k in list(a) + list(b) if k is not None), key=len)
        a = {(k if k is not None else (0,) * len(z)): v for k, v in a.items()}
        b = {(k if k is not None else (0,) * len(z)): v for k, v in b.items()}
    for k in set(a) | set(b):
        x, y = a.get(k), b.get(k)
        x = np.zeros_like(y) if x is None else x
        y = np.zeros_like(x) if y is None else y
        if not ref.close(x, y, 1e-5):
            return False
    return True


def perm_of(n, toks):
    """Permutation applied by the swaps of the circuit: wire i of the original ends on wire perm[i]."""
    perm = list(range(n))
    for t in toks:
        p = circ.parse(t)
        if p[0] == "g" and p[1] == "swap" and not p[3]:
            a, b = p[2]
            perm[a], perm[b] = perm[b], perm[a]
    return perm


def permute_back(n, sem_steps, perm):
    """Append the swaps so that the pass result can be compared with the original."""
    if n == 0:
        return sem_steps
    m = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for x in itertools.product((0, 1), repeat=n):
        y = [x[perm[i]] for i in range(n)]
        m[int("".join(map(str, y)), 2), int("".join(map(str, x)), 2)] = 1
    return sem_steps + [("u", m, list(range(n)))]


_sem = {}


def expected(n, nc, toks, zero):
    k = (n, nc, toks, zero)
    if k not in _sem:
        if len(_sem) > 2000:
            _sem.clear()
        _sem[k] = semantics(n, nc, circ.ref_steps(toks), zero)
    return _sem[k]


def gates_ok(pname, out, toks):
    names = [i.op.name for i in out.data]
    if pname == "remove_barriers" and "barrier" in names:
        return "a barrier survived"
    if pname == "resolve_swaps" and "swap" in names:
        return "a swap survived"
    if pname == "convert_to_cx" and any(x in ("cz", "cy", "swap") for x in names):
        return "a gate with a documented cx form was left"
    if pname == "convert_to_cz" and any(x in ("cx", "cy", "swap") for x in names):
        return "a gate with a documented cz form was left"
    if pname == "decompose":
        if any(i.op.definition is not None for i in out.data):
            return "a synthesized gate survived"
    if pname == "decompose_pred" and len([x for x in names if x == "swap"]) != len([t for t in toks if t.startswith("swap")]):
        return "a gate excluded by the predicate was decomposed"
    if pname == "decompose_gp" and names.count("gphase") > 1:
        return "global phases were not collected"
    if pname == "convert_to_prx":
        for i in out.data:
            op = i.op.base_op if circ.is_cl(i.op) else i.op
            if op.num_qubits == 1 and op.name not in ("prx", "gphase", "measure", "reset", "barrier", "qb_alloc", "qb_dealloc"):
                return "single-qubit gate %s is not a prx gate" % op.name


def apply_passes(names, n, nc, toks, zero=False):
    zero = zero or any(PASSES[p][1] == "zero" for p in names)
    qc = circ.build(n, nc, toks)
    snap = circ.snapshot(qc)
    if len(names) == 1:
        out = PASSES[names[0]][0](n)(qc)
    else:
        pm = PassManager()
        for p in names:
            pm += PASSES[p][0](n)
        out = pm.run(qc)
    if circ.snapshot(qc) != snap:
        return "the pass modified its input circuit"
    if not set(qc.qubits) == set(out.qubits) or list(out.clbits) != list(qc.clbits):
        return "the pass changed the registers"
    if list(out.qubits) != list(qc.qubits):
        return "the pass reordered the qubits"
    if len(names) == 1:
        m = gates_ok(names[0], out, toks)
        if m:
            return m
    steps = circ.steps_of(out)
    if "resolve_swaps" in names:
        if len(names) > 1:
            # the swaps seen by resolve_swaps are those of the intermediate circuit
            pm = PassManager()
            mid = circ.build(n, nc, toks)
            for p in names[:names.index("resolve_swaps")]:
                mid = PASSES[p][0](n)(mid)
            qi = {b: i for i, b in enumerate(mid.qubits)}
            perm = list(range(n))
            for i in mid.data:
                if i.op.name == "swap":
                    a, b = [qi[x] for x in i.qubits]
                    perm[a], perm[b] = perm[b], perm[a]
        else:
            perm = perm_of(n, toks)
        steps = permute_back(n, steps, perm)
    exp = expected(n, nc, toks, zero)
    if not same(semantics(n, nc, steps, zero), exp):
        if exp[0] == "pure":
            s = semantics(n, nc, steps, zero)
            if s[0] == "pure" and ref.close_gphase(s[1], exp[1], 1e-5):
                if "decompose_gp" in names and not any(i.op.num_qubits for i in out.data):
                    return      # collecting phases without any gate to attach them to drops them (pinned by the unit tests)
                return "the global phase changed"
        return "the pass changed what the circuit does"


def run(shard, ctx):
    k = shard[0]
    if k in ("u2", "m2", "w3"):
        alpha = {"u2": U2, "m2": M2, "w3": W3}[k]
        n, nc = (3, 0) if k == "w3" else (2, 2 if k == "m2" else 0)
        names = [[p] for p in PN]
        nonlocal_ = [[p] for p in NONLOCAL]
        for L in range(shard[1]):
            for s in itertools.product(alpha, repeat=L):
                # passes that rewrite instruction by instruction: depth 2 in the quick tier
                explore(ctx, n, nc, (shard[2],) + s, names if L < 2 or ctx.tier != "quick" else nonlocal_, k)
        if shard[2] == alpha[0]:
            explore(ctx, n, nc, (), names, k)
    elif k in ("deep", "deepm"):
        alpha = M2D if k == "deepm" else (U2D if shard[1] in ("fuse_adjacents", "cancel_zero_controls") else U2D[:1] + U2D[4:10])
        for s in itertools.product(alpha, repeat=shard[2] - 1):
            explore(ctx, 2, 2 if k == "deepm" else 0, (shard[3],) + s, [[shard[1]]], k)
    elif k == "m3":
        ps = [["commute_swaps"], ["resolve_swaps"], ["fuse_adjacents"], ["combine_1q"], ["reverse_parallelize"]]
        L = 3 if shard[2] not in ("h0", "m0>0") and ctx.tier == "quick" else shard[1]
        for s in itertools.product(M3, repeat=L - 1):
            toks = (shard[2],) + s
            if any(t.startswith("swap") for t in toks) or ctx.tier != "quick":
                explore(ctx, 3, 1, toks, ps, k, zero=True)
    elif k == "pairs":
        al = ["h0", "rz0", "pz0", "cx01", "cz10", "swap01", "ccx012", "x/0:12", "gp1", "swap12"]
        names = [[shard[1], p] for p in PN]
        for L in (1, 2, 3) if ctx.tier != "quick" else (1, 2):
            for s in itertools.product(al, repeat=L):
                explore(ctx, 3, 0, s, names, "pair")
        al = ["h0", "cx01", "swap01", "m0>0", "?01:x1", "R0"]
        for s in itertools.product(al, repeat=3):
            explore(ctx, 2, 1, s, names, "pairm")
    elif k == "oneq":
        # all single-qubit gates in sequences of length <= 3 on one qubit
        one = [g for g, v in circ.GATES.items() if v[0] == 1]
        toks = [g + "0" for g in one]
        ps = [["combine_1q"], ["convert_to_prx"], ["fuse_adjacents"], ["decompose"], ["decompose_gp"]]
        for i, a in enumerate(toks):
            if i % 4 != shard[1]:
                continue
            explore(ctx, 1, 1, (a,), ps, "1q")
            for b in toks:
                explore(ctx, 1, 0, (a, b), ps, "1q")
                explore(ctx, 1, 1, (a, "?01:" + b), ps, "1qc")
                explore(ctx, 1, 1, ("h0", "m0>0", "?01:" + a, "?00:" + b), ps, "1qc")
    elif k == "layout":
        layout(ctx)
    elif k == "strict":
        strict(ctx)
    elif k == "pm":
        manager(ctx)
    elif k == "alloc":
        alloc(ctx, shard[1])
    elif k == "nobits":
        # registers with unused or missing qubits / clbits
        for n, nc in itertools.product(range(0, 3), range(0, 3)):
            for p in PN:
                for toks in ((), ("h0",), ("gp0",), ("m0>0",), ("gp0", "gp0"), ("gp0", "m0>0")):
                    if (toks and n == 0) or ("m0>0" in toks and nc == 0):
                        continue
                    ctx.step(len(toks))
                    ctx.case("nobits %d %d %s %s" % (n, nc, p, toks), apply_passes, [p], n, nc, toks)


def explore(ctx, n, nc, toks, names, kind, zero=False):
    if ctx.only is None or any(ctx.wants("%s %s | %s" % (kind, "+".join(nm), " ".join(toks))) for nm in names):
        e = expected(n, nc, toks, zero)
        ctx.state(ref.fingerprint(e[1] if e[0] == "pure" else np.concatenate([np.asarray(k + (9,)).astype(complex) for k in sorted(e[1])] + [e[1][k].reshape(-1) for k in sorted(e[1])])))
    for nm in names:
        ctx.step(len(toks))
        ctx.case("%s %s | %s" % (kind, "+".join(nm), " ".join(toks)), apply_passes, nm, n, nc, toks, zero)


def layout(ctx):
    circs = [("h0", "cx01", "ry2"), ("cx20", "t1", "cp12"), ("h0", "m0>0", "?01:x2", "m2>1"), ()]
    for toks in circs:
        for phys in (3, 4, 5):
            for mp in itertools.permutations(range(phys), 3):
                ctx.state("layout", toks, mp)
                ctx.step(len(toks))

                def f():
                    qc = circ.build(3, 2, toks)
                    snap = circ.snapshot(qc)
                    out = q.manual_layout(list(mp))(qc)
                    if circ.snapshot(qc) != snap:
                        return "the pass modified its input"
                    m = max(mp) + 1
                    if len(out.qubits) != m:
                        return "expected %d physical qubits, got %d" % (m, len(out.qubits))
                    moved = []
                    for s in circ.ref_steps(toks):
                        if s[0] in ("u", "cu"):
                            moved.append((s[0], s[1], [mp[x] for x in s[2]]) + tuple(s[3:]))
                        else:
                            moved.append((s[0], mp[s[1]]) + tuple(s[2:]))
                    if not same(semantics(m, 2, circ.steps_of(out), True), semantics(m, 2, moved, True)):
                        return "the laid-out circuit acts differently"
                ctx.case("layout %s %s" % (mp, toks), f)
    bad = [[0, 1], [0, 1, 1], [0, -1, 2], [0, 1, 2, 3]]
    for b in bad:
        def f():
            try:
                q.manual_layout(b)(circ.build(3, 0, ("h0",)))
            except ValueError:
                return
            return "invalid mapping accepted"
        ctx.step()
        ctx.case("layout bad %s" % b, f)


def strict(ctx):
    toks2 = ["cx01", "cz01", "cy01", "swap01", "cp01", "rzz01", "rxx01", "xxyy01", "x/0:01", "z/0:01", "y/0:01", "wrap01", "h/1:01"]
    for pn, mk, keep in (("cx", q.convert_to_cx, "cx"), ("cz", q.convert_to_cz, "cz")):
        for a, b in itertools.product(toks2 + ["h0", "ccx012"], repeat=2):
            ctx.step(2)

            def f():
                qc = circ.build(3, 0, (a, b))
                try:
                    out = mk(strict=True)(qc)
                except Exception:
                    if all(t in ("cx01", "cz01", "cy01", "swap01", "h0", "ccx012") for t in (a, b)):
                        return "strict conversion refuses convertible gates"
                    return
                for i in out.data:
                    if i.op.num_qubits == 2 and i.op.name != keep:
                        return "strict conversion left %s" % i.op.name
                if not ref.close(circ.unitary_of(out), ref.unitary(3, [(s[1], s[2]) for s in circ.ref_steps((a, b))])):
                    return "strict conversion changed the unitary"
            ctx.case("strict %s %s %s" % (pn, a, b), f)


def manager(ctx):
    """Pass managers run exactly their list of passes, in order, under every short edit history."""
    def mk(tag):
        @q.CircuitPass
        def p(qc):
            r = qc.copy()
            r.append(q.RXGate(tag), [r.qubits[0]])
            return r
        return p
    A, B = mk(0.1), mk(0.2)
    edits = ["add_a", "add_b", "iadd_a", "iadd_pm", "ins0_b", "ins1_a", "rem0", "rem-1", "clear", "bad"]
    for L in range(1, 5):
        for h in itertools.product(edits, repeat=L):
            ctx.step(L)

            def f():
                pm = PassManager()
                other = PassManager([B, A])
                model = []
                for e in h:
                    try:
                        if e == "add_a": r = pm.add_pass(A); model.append(0.1)
                        elif e == "add_b": pm.add_pass(B); model.append(0.2)
                        elif e == "iadd_a": pm += A; model.append(0.1)
                        elif e == "iadd_pm": pm += other; model += [0.2, 0.1]
                        elif e == "ins0_b": pm.insert_pass(0, B); model.insert(0, 0.2)
                        elif e == "ins1_a": pm.insert_pass(1, A); model.insert(1, 0.1)
                        elif e == "clear": pm.clear(); model.clear()
                        elif e == "bad":
                            try:
                                pm.add_pass(lambda qc: qc)
                            except TypeError:
                                pass
                            else:
                                return "raw function accepted"
                        else:
                            i = int(e[3:])
                            if not model:
                                try:
                                    pm.remove_pass(i)
                                except IndexError:
                                    continue
                                return "removal from an empty manager succeeded"
                            pm.remove_pass(i); del model[i]
                    except Exception:
                        raise
                if len(pm) != len(model) or len(list(pm)) != len(model):
                    return "manager length differs from the edit history"
                qc = q.QuantumCircuit(1)
                out = pm.run(qc)
                if [i.op.params[0] for i in out.data] != model:
                    return "passes ran as %r, expected %r" % ([i.op.params[0] for i in out.data], model)
                if len(qc.data):
                    return "input modified"
                if len(other) != 2:
                    return "adding a manager modified it"
            ctx.state("pm", h)
            ctx.case("pm " + " ".join(h), f)


def alloc(ctx, first):
    """Allocation markers: only circuits that allocate qubits in the zero state."""
    for L in range(0, 4):
        for s in itertools.product(ALLOC, repeat=L):
            s = (first,) + s
            st = ref.zero_state(2)
            ok = True
            live = True
            seen = False
            for t in s:
                p = circ.parse(t)
                if p[0] in ("alloc", "deall"):
                    if np.sum(np.abs(np.take(st, 1, axis=0)) ** 2) > 1e-9:
                        ok = False
                        break
                else:
                    for z in circ.ref_steps((t,)):
                        st = ref.apply(st, z[1], list(z[2]))
            if not ok:
                continue
            for p in PN if L < 2 or ctx.tier != "quick" else NONLOCAL:
                ctx.step(L)
                ctx.case("alloc %s | %s" % (p, " ".join(s)), apply_zero, p, s)


def apply_zero(p, toks):
    qc = circ.build(2, 0, toks)
    out = PASSES[p][0](2)(qc)
    steps = circ.steps_of(out)
    if p == "resolve_swaps":
        steps = permute_back(2, steps, perm_of(2, toks))
    if not same(semantics(2, 0, steps, True), semantics(2, 0, circ.ref_steps(toks), True)):
        return "the pass changed what the circuit does"
