"""Quantum arrays against numpy arrays: view histories, values, arithmetic, matrix products, quantum indices."""
import itertools
import numpy as np
import qrisp as q
from mc import prog, jsim

NOTE = "views: every sequence of view operations up to the depth (indexing with integers, slices, ellipsis, new axes, lists and masks, reshape, flatten, transpose, swapaxes, split, concatenation) from five base shapes, each resulting array compared position by position by qubit identity with the numpy array of the same history, plus encoding, readout, duplication and deletion through each view, recorded and traced; arithmetic, comparison, logic, reductions, matrix products and quantum indexing on every operand value in superposition"

B = 100


def masks(a):
    return np.array([(i % 2 == 1) or a.shape[0] == 1 for i in range(a.shape[0])])


OPS = {
    "[0]": lambda a, e: a[0], "[-1]": lambda a, e: a[-1], "[1]": lambda a, e: a[1], "[1:]": lambda a, e: a[1:], "[:1]": lambda a, e: a[:1], "[:-1]": lambda a, e: a[:-1], "[::-1]": lambda a, e: a[::-1], "[::2]": lambda a, e: a[::2], "[:,0]": lambda a, e: a[:, 0], "[:,-1]": lambda a, e: a[:, -1], "[:,1:]": lambda a, e: a[:, 1:], "[1,0]": lambda a, e: a[1, 0],
    "[0,-1]": lambda a, e: a[0, -1], "[...,1]": lambda a, e: a[..., 1], "[None]": lambda a, e: a[None], "[[1,0]]": lambda a, e: a[np.array([1, 0])], "[mask]": lambda a, e: a[masks(a)], "flatten": lambda a, e: a.flatten(), "ravel": lambda a, e: a.ravel(), "r(2,-1)": lambda a, e: a.reshape(2, -1), "r((-1,2))": lambda a, e: a.reshape((-1, 2)), "r(-1)": lambda a, e: a.reshape(-1),
    "r((1,-1,1))": lambda a, e: a.reshape((1, -1, 1)), "t": lambda a, e: a.transpose(), "t(1,0)": lambda a, e: a.transpose(1, 0), "t((1,0))": lambda a, e: a.transpose((1, 0)), "t(2,0,1)": lambda a, e: a.transpose(2, 0, 1), "s(0,1)": lambda a, e: a.swapaxes(0, 1), "s(0,-1)": lambda a, e: a.swapaxes(0, -1), "np.t": lambda a, e: np.transpose(a), "np.s": lambda a, e: np.swapaxes(a, -1, 0), "split0": lambda a, e: np.split(a, 2)[1], "split-1": lambda a, e: np.split(a, 2, axis=-1)[0],
    "cat0": lambda a, e: cat(a, e, 0), "rcat0": lambda a, e: cat(e, a, 0), "cat1": lambda a, e: cat(a, e, 1), "cats": lambda a, e: cat(a[:1], a[1:], 0),
}
SHAPES = [(4,), (2, 2), (2, 3), (3, 1), (2, 1, 2)]


def cat(a, b, axis):
    if isinstance(a, np.ndarray):
        return np.concatenate((a, b), axis=axis)
    return a.concatenate(b, axis=axis)


def mirror(shape):
    a = np.arange(int(np.prod(shape))).reshape(shape)
    other = np.arange(2).reshape([2] if len(shape) == 1 else [2] + list(shape[1:]) if False else other_shape(shape))
    return a, other + B


def other_shape(shape):
    """Second array of two elements; concatenation applies where shapes fit."""
    return {1: (2,), 2: (1, 2), 3: (1, 1, 2)}[len(shape)]


def histories(shape, depth):
    """All op sequences whose numpy counterpart is valid and leaves a non-empty array; scalars are terminal."""
    seen = set()
    front = [((), mirror(shape)[0])]
    for d in range(depth + 1):
        nxt = []
        for h, m in front:
            yield h, m
            if d == depth or not isinstance(m, np.ndarray) or m.ndim == 0:
                continue
            for name, f in OPS.items():
                try:
                    r = f(m, mirror(shape)[1])
                except (IndexError, ValueError):
                    continue
                if isinstance(r, np.ndarray) and (r.size == 0 or r.size > 12 or r.ndim > 3):
                    continue
                nxt.append((h + (name,), r))
        front = nxt


def walk(h, a, e):
    for name in h:
        a = OPS[name](a, e)
    return a


def views(ctx, mode, shape, h, m, depth):
    n = int(np.prod(shape))
    if mode == "tr":
        def main():
            t = q.QuantumFloat(1)
            a, e = q.QuantumArray(t, shape), q.QuantumArray(t, other_shape(shape))
            v = walk(h, a, e)
            out = [a.reshape(n)[i] for i in range(n)] + [e.reshape(2)[i] for i in range(2)]
            ctx.step(len(h))
            if isinstance(v, q.QuantumArray):
                if v.shape != m.shape or v.ndim != m.ndim or v.size != m.size:
                    return tuple([a.reshape(n)[0]])
                f = v.flatten()
                return tuple(out + [f[i] for i in range(f.size)])
            return tuple(out + [v])
        res, qc = jsim.circuit(main)
        regs = [tuple(id(b) for b in r) for r in res if isinstance(r, (list, tuple))]
        if len(regs) == 1:
            return f"shape differs from numpy's {m.shape}"
        base = regs[:n] + regs[n:n + 2]
        got = regs[n + 2:]
        want = [base[int(i)] if i < B else base[n + int(i) - B] for i in np.ravel(m)]
        ctx.state((mode, shape, h))
        if got != want:
            return f"positions hold {[base.index(g) if g in base else None for g in got]}, numpy {np.ravel(m).tolist()}"
        return
    t = q.QuantumFloat(2)
    a, e = q.QuantumArray(t, shape), q.QuantumArray(t, other_shape(shape))
    base = {i: a.reshape(n)[i] for i in range(n)}
    base.update({B + i: e.reshape(2)[i] for i in range(2)})
    v = walk(h, a, e)
    ctx.step(len(h))
    ctx.state((mode, shape, h))
    if not isinstance(m, np.ndarray) or m.ndim == 0:
        return None if v is base[int(m)] else f"selects element {[k for k, b in base.items() if b is v]}, numpy {int(m)}"
    if v.shape != m.shape or v.ndim != m.ndim or v.size != m.size or len(v) != len(m):
        return f"shape {v.shape}, numpy {m.shape}"
    for idx in np.ndindex(*m.shape):
        if v[idx] is not base[int(m[idx])]:
            return f"position {idx} holds element {[k for k, b in base.items() if b is v[idx]]}, numpy {int(m[idx])}"
    if [id(x) for x in v] != [id(base[int(i)]) for i in np.ravel(m)]:
        return "iteration order differs from numpy"
    if a.shape != tuple(shape) or [id(x) for x in a] != [id(base[i]) for i in range(n)]:
        return "the base array was changed by the view operation"
    if len(h) < depth or len(set(np.ravel(m).tolist())) < m.size:
        return
    # values through the view
    vals = np.array([(3 * i + 1) % 4 for i in range(m.size)]).reshape(m.shape)
    v[:] = vals
    got = v.get_measurement()
    if len(got) != 1 or not np.array_equal(list(got)[0], vals):
        return f"encoded {vals.tolist()} through the view, reads {got}"
    bm = np.zeros(n, dtype=int)
    for i, x in zip(np.ravel(m), np.ravel(vals)):
        if i < B:
            bm[int(i)] = x
    if not np.array_equal(list(a.get_measurement())[0], bm.reshape(shape)):
        return f"base reads {a.get_measurement()} after encoding through the view, numpy {bm.reshape(shape).tolist()}"
    d = v.duplicate(init=True)
    if d.shape != m.shape or not np.array_equal(list(d.get_measurement())[0], vals):
        return f"copy of the view reads {d.get_measurement()}, expected {vals.tolist()}"
    if any(x is y for x in d for y in base.values()):
        return "copy shares variables with the original"
    w = v.duplicate()
    if w.shape != m.shape or not np.array_equal(list(w.get_measurement())[0], 0 * vals):
        return "fresh duplicate of the view is not zero"
    v.delete()
    gone = {k for k, b in base.items() if b.is_deleted()}
    if gone != set(np.ravel(m).tolist()):
        return f"deleting the view removed elements {sorted(gone)}, expected {sorted(np.ravel(m).tolist())}"


# ---- arithmetic -------------------------------------------------------------------------------------

TYPES = {"u": (2, 0, False), "s": (1, 0, True), "e": (2, -1, False)}


def val(t, raw):
    n, e, s = t
    return prog.value(raw, n + s, e, s)


def fl(t):
    return q.QuantumFloat(t[0], t[1], signed=t[2])


BIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def iop(o, a, b):
    if o == "+=":
        a += b
    elif o == "-=":
        a -= b
    elif o == "*=":
        a *= b
    return a


def supers(vs, sizes=None):
    """Uniform superposition over all values, with a reference copy of each variable."""
    out = []
    for v, n in zip(vs, sizes or [len(v) for v in vs]):
        c = q.QuantumVariable(n)
        q.h(c)
        for i in range(n):
            q.cx(c[i], v[i])
        out.append(c)
    return out


def check_table(qs, refs, outs, fn):
    """Every branch: outs == fn(reference values), uniform weight, no phase, helpers clean."""
    tab = prog.table(qs, refs + outs)
    nin = len(refs)
    bits = sum(len(r) for r in refs)
    if len(tab) != 1 << bits:
        return f"{len(tab)} branches instead of {1 << bits}"
    for k, amp in tab.items():
        if k[-1]:
            return f"helper qubits end in {k[-1]:b} for input {k[:nin]}"
        if abs(amp - 2 ** (-bits / 2)) > 1e-4 * 2 ** 2:
            return f"amplitude {amp} for input {k[:nin]}"
        want = fn(k[:nin])
        if k[nin:-1] != tuple(want):
            return f"input {k[:nin]} gives raw {k[nin:-1]}, expected {tuple(want)}"


def arith(ctx, o, t, kind, perm):
    """Elementwise operation of arrays of two elements; kind: qq, qv, qc; perm: operands are reversed views."""
    T = TYPES[t]
    a = q.QuantumArray(fl(T), (2,))
    elems = [a[0], a[1]]
    cl = [1, 3] if o == "*=" else [1, 0] if t != "e" else [0.5, 1.5]
    if kind == "qq":
        b = q.QuantumArray(fl(T), (2,))
        other = b[::-1] if perm else b
        ins = elems + [b[0], b[1]]
    elif kind == "qv":
        other = fl(T)
        ins = elems + [other]
    else:
        other = np.array(cl)
        ins = elems
    refs = supers(ins)
    av = a[::-1] if perm else a
    w = T[0] + T[2]
    if o.endswith("=") and o in ("+=", "-=", "*="):
        iop(o, av, other)
        out = elems
    else:
        r = BIN[o](av, other)
        if r.shape != (2,):
            return f"result shape {r.shape}"
        out = [r[0], r[1]]
    q.merge([a.qs, out[0]] + refs)
    ctx.step()
    ctx.state((o, t, kind, perm))
    boolean = o in ("==", "!=", "<", "<=", ">", ">=")

    def fn(raws):
        x = [val(T, raws[0]), val(T, raws[1])]
        y = [val(T, raws[2]), val(T, raws[3])] if kind == "qq" else [val(T, raws[2])] * 2 if kind == "qv" else cl
        if perm:
            x = x[::-1]
            y = y[::-1] if kind == "qq" else y
        res = []
        for p, s in zip(x, y):
            g = {"+=": p + s, "-=": p - s, "*=": p * s}[o] if o in ("+=", "-=", "*=") else BIN[o](p, s)
            res.append(g)
        if boolean:
            return [int(g) for g in res] + list(raws)
        v = out[0]
        raw = [int(round(g * 2 ** -v.exponent)) % (1 << len(v)) for g in res]
        if o in ("+=", "-=", "*="):
            if perm:
                raw = raw[::-1]
            return raw + list(raws[2:])
        if kind == "qq" or kind == "qv":
            for g, r in zip(res, raw):
                if prog.value(r, len(v), v.exponent, v.signed) != g:
                    raise ValueError(f"result type can not hold {g}")
        return raw + list(raws)
    outs = out + (ins[2:] if o in ("+=", "-=", "*=") else ins)
    return check_table(a.qs, refs, outs, fn)


def logic(ctx, o, kind):
    a = q.QuantumArray(q.QuantumBool(), (2, 1))
    b = q.QuantumArray(q.QuantumBool(), (2, 1)) if kind == "qq" else q.QuantumBool()
    ins = list(a) + (list(b) if kind == "qq" else [b])
    refs = supers(ins)
    f = {"&": lambda x, y: x & y, "|": lambda x, y: x | y, "^": lambda x, y: x ^ y}[o]
    r = f(a, b)
    q.merge([a.qs, r[0, 0]] + refs)
    ctx.step()
    ctx.state((o, kind))

    def fn(raws):
        y = raws[2:] if kind == "qq" else [raws[2]] * 2
        return [f(raws[0], y[0]), f(raws[1], y[1])] + list(raws)
    return check_table(a.qs, refs, [r[0, 0], r[1, 0]] + ins, fn)


def reduce_(ctx, o, shape, axis, view):
    n = int(np.prod(shape))
    a = q.QuantumArray(q.QuantumBool(), shape)
    ins = list(a)
    refs = supers(ins)
    v = a.transpose() if view == "t" else a[::-1] if view == "r" else a
    r = getattr(v, o)(axis=axis)
    m = np.arange(n).reshape(shape)
    m = m.transpose() if view == "t" else m[::-1] if view == "r" else m
    arr = isinstance(r, q.QuantumArray)
    want_shape = np.any(m, axis=axis).shape
    if (r.shape if arr else ()) != want_shape:
        return f"result shape {r.shape if arr else ()} numpy {want_shape}"
    outs = list(r) if arr else [r]
    q.merge([a.qs] + outs + refs)
    ctx.step()
    ctx.state((o, shape, axis, view))

    def fn(raws):
        x = np.array(raws)[m].astype(bool)
        return [int(g) for g in np.ravel(getattr(np, o)(x, axis=axis))] + list(raws)
    return check_table(a.qs, refs, outs + ins, fn)


# ---- matrix products ------------------------------------------------------------------------------

def q2(shape, t, tr=False):
    a = q.QuantumArray(fl(t), shape[::-1] if tr else shape)
    return a.transpose() if tr else a


def hs(a):
    for v in a:
        q.h(v)


def matmul(ctx, how, sa, sb, t, tr, opt):
    """Products of quantum and classical operands; opt: result size convention."""
    T = TYPES[t] if isinstance(t, str) else t
    bits = T[0] + T[2]
    cl = {(2, 2): [[1, 2], [-1, 3]], (2, 1): [[2], [1]], (1, 2): [[3, 1]], (2,): [1, 2], (2, 3): [[1, 0, 2], [1, 1, 1]], (3, 2): [[1, 0], [2, 1], [0, 3]], (3,): [1, 2, 1], (3, 1): [[1], [2], [1]], (1, 3): [[1, 2, 1]], (1, 1): [[3]]}
    from qrisp.alg_primitives.arithmetic.matrix_multiplication import q_matmul, semi_classic_matmul
    a = q2(sa, T, tr) if how[0] == "q" else np.array(cl[sa])
    b = q2(sb, T) if how[1] == "q" else np.array(cl[sb])
    ins = (list(a) if how[0] == "q" else []) + (list(b) if how[1] == "q" else [])
    # small inputs are compared with reference copies; otherwise the inputs themselves label the branches
    small = len(ins) * bits <= 5
    if small:
        refs = supers(ins)
    else:
        hs(a if how[0] == "q" else b)
        if how[:2] == "qq":
            hs(b)
        refs = []
    ctx.step()
    op = how[2:]
    if op == "@":
        r = a @ b
    elif op == "dot":
        r = q.dot(a, b)
    elif op.startswith("tdot"):
        r = q.tensordot(a, b, axes=int(op[4:]))
    elif op == "fun":
        r = q_matmul(a, b, res_bit_shape=opt) if how[:2] == "qq" else semi_classic_matmul(a, b, res_bit_shape=opt)
    elif op == "out":
        o = q.QuantumArray(q.QuantumFloat(3, T[1]), (sa[0], sb[1]))
        r = q_matmul(a, b, output_array=o) if how[:2] == "qq" else semi_classic_matmul(a, b, output_array=o)
    na, nb = int(np.prod(sa)), int(np.prod(sb))
    ref = (lambda x, y: np.tensordot(x, y, axes=int(op[4:]))) if op.startswith("tdot") else np.dot
    shape = ref(np.zeros(sa), np.zeros(sb)).shape
    outs = list(r) if isinstance(r, q.QuantumArray) else [r]
    if (r.shape if isinstance(r, q.QuantumArray) else ()) not in (shape, (1,) if False else shape):
        return f"result shape {getattr(r, 'shape', ())}, numpy {shape}"
    q.merge(outs + ins + refs)
    ctx.state((how, sa, sb, t, tr, opt))

    def fn(raws):
        vs = [val(T, x) for x in raws]
        x = np.array(vs[:na]).reshape(sa) if how[0] == "q" else np.array(cl[sa])
        y = np.array(vs[-nb:]).reshape(sb) if how[1] == "q" else np.array(cl[sb])
        res = []
        for g in np.ravel(ref(x, y)):
            v = outs[0]
            scaled = g * 2.0 ** -v.exponent
            if opt == "safe" and prog.value(int(round(scaled)) % (1 << len(v)), len(v), v.exponent, v.signed) != g:
                raise ValueError(f"result type can not hold {g}")
            res.append(int(np.floor(scaled)) % (1 << len(v)))
        return res + (list(raws) if small else [])
    if small:
        return check_table(outs[0].qs, refs, outs + ins, fn)
    return check_table(outs[0].qs, ins, outs, fn)


def modmat(ctx, N, mat, side):
    m = np.array(mat)
    n = len(mat)
    a = q.QuantumArray(q.QuantumModulus(N), (1, n) if side == "r" else (n, 1))
    ins = list(a)
    refs = supers(ins)
    # only residues are valid encodings: compare on those
    r = a @ m if side == "r" else m @ a
    outs = list(r)
    q.merge(outs + ins + refs)
    ctx.step()
    tab = prog.table(outs[0].qs, refs + outs + ins)
    w = len(ins[0])
    ctx.state(("mod", N, tuple(map(tuple, mat)), side))
    for k, amp in tab.items():
        raws = k[:n]
        if any(x >= N for x in raws):
            continue
        if k[-1]:
            return f"helper qubits end in {k[-1]:b} for input {raws}"
        x = [ins[0].decoder(v) for v in raws]
        want = [int(g) % N for g in (np.array(x) @ m if side == "r" else m @ np.array(x))]
        got = [outs[0].decoder(v) for v in k[n:n + len(outs)]]
        if got != want or k[n + len(outs):-1] != raws:
            return f"{x}: product {got}, expected {want}; operand afterwards {k[n + len(outs):-1]} of {raws}"


# ---- quantum index --------------------------------------------------------------------------------

def qindex(ctx, mode, shape, sizes, wrap, view):
    """Address an array of one-bit elements with quantum indices; read the addressed element out and flip it."""
    n = int(np.prod(shape))
    if view == "t":
        sizes = sizes[::-1]

    def build():
        t = q.QuantumFloat(1)
        a = q.QuantumArray(t, shape)
        els = [a.reshape(n)[i] for i in range(n)]
        v = {"plain": lambda: a, "r": lambda: a[::-1], "t": lambda: a.transpose()}[view]()
        idx = tuple(q.QuantumFloat(s) for s in sizes)
        out = q.QuantumFloat(1)
        e = q.QuantumVariable(1)
        refs = supers(els + list(idx) + [e], [1] * n + list(sizes) + [1])

        def act():
            with v[idx if len(idx) > 1 else idx[0]] as x:
                q.cx(x[0], out[0])
                q.x(x[0])
        if wrap == "ctl":
            with q.control(e[0]):
                act()
        else:
            act()
        return refs, els, idx, out, e
    m = np.arange(n).reshape(shape)
    m = {"plain": m, "r": m[::-1], "t": m.transpose()}[view]
    ctx.step()
    refs, els, idx, out, e = build()
    q.merge(refs + els + [out])
    k = n + len(sizes) + 1
    tabs = [prog.table(out.qs, refs + els + list(idx) + [out, e])]
    ctx.state((mode, shape, sizes, wrap, view))
    bits = n + sum(sizes) + 1
    for tab in tabs:
        if len(tab) != 1 << bits:
            return f"{len(tab)} branches instead of {1 << bits}"
        for key, amp in tab.items():
            if key[-1]:
                return f"helper qubits end in {key[-1]:b}"
            vals, ix, ev = list(key[:n]), key[n:k - 1], key[k - 1]
            sel = m[tuple(ix)]
            on = wrap != "ctl" or ev
            o = vals[sel] if on else 0
            if on:
                vals[sel] ^= 1
            want = tuple(vals) + tuple(ix) + (o, ev)
            if key[k:-1] != want or abs(abs(amp) - 2 ** (-bits / 2)) > 1e-4:
                return f"index {ix} on {key[:n]} (control {ev}): ends in {key[k:-1]}, expected {want}, amplitude {amp}"


def tarith(ctx, o, kind):
    """Traced elementwise operations."""
    T = (2, 0, False)

    def main():
        a = q.QuantumArray(q.QuantumFloat(2), (2,))
        ins = [a[0], a[1]]
        if kind == "qq":
            b = q.QuantumArray(q.QuantumFloat(2), (2,))
            ins += [b[0], b[1]]
            other = b[::-1]
        elif kind == "qv":
            other = q.QuantumFloat(2)
            ins += [other]
        else:
            other = np.array([1, 3])
        refs = supers(ins, [2] * len(ins))
        if o in ("+=", "-="):
            iop(o, a, other)
            return tuple(refs) + tuple(ins)
        r = BIN[o](a, other)
        return tuple(refs) + (r[0], r[1]) + tuple(ins)
    res, qc = jsim.circuit(main)
    g = [list(r) for r in res if isinstance(r, (list, tuple))]
    nin = {"qq": 4, "qv": 3, "qc": 2}[kind]
    ctx.step()
    ctx.state(("t", o, kind))
    for _, _, tab in prog.branch_tables(qc, g):
        if len(tab) != 1 << (2 * nin):
            return f"{len(tab)} branches"
        for key, amp in tab.items():
            raws = key[:nin]
            y = [raws[3], raws[2]] if kind == "qq" else [raws[2]] * 2 if kind == "qv" else [1, 3]
            if o in ("+=", "-="):
                s = 1 if o == "+=" else -1
                want = tuple((raws[i] + s * y[i]) % 4 for i in range(2)) + raws[2:]
            else:
                w = len(g[nin])
                want = tuple(int(BIN[o](raws[i], y[i])) % (1 << w) for i in range(2)) + raws
            if key[nin:-1] != want or key[-1]:
                return f"input {raws}: {key[nin:-1]} expected {want}, helpers {key[-1]:b}"


def shards(tier):
    d = 2 if tier == "quick" else 3
    out = [f"view/rec/{i}/{j}" for i in range(len(SHAPES)) for j in range(2 if tier == "quick" else 8)]
    out += [f"view/tr/{i}" for i in range(len(SHAPES))]
    out += [f"ar/{t}" for t in TYPES] + ["logic", "red", "mat/qq", "mat/qc", "mat/mod", "qi/rec", "tar"]
    return out


def run(shard, ctx):
    p = shard.split("/")
    quick = ctx.tier == "quick"
    if p[0] == "view":
        shape = SHAPES[int(p[2])]
        rec = p[1] == "rec"
        depth = (2 if quick else 3) if rec else (1 if quick else 2)
        for i, (h, m) in enumerate(histories(shape, depth)):
            if rec and i % (2 if quick else 8) != int(p[3]):
                continue
            if rec and quick and len(h) == 2 and i % 3 and shape in ((2, 3), (2, 1, 2)):
                continue
            ctx.case(f"view/{p[1]}/{'x'.join(map(str, shape))}/{'/'.join(h)}", views, ctx, p[1], shape, h, m, 2 if (len(h) == 2 and i % (17 if quick else 3) == 0) else len(h) + (len(h) > 1))
    elif p[0] == "ar":
        for o in list(BIN) + ["+=", "-=", "*="]:
            for kind in ("qq", "qv", "qc"):
                if kind == "qc" and o == "*" or kind != "qc" and o == "*=":
                    continue
                for perm in (False, True):
                    if quick and perm and kind == "qv":
                        continue
                    ctx.case(f"ar/{p[1]}/{o}/{kind}/{perm}", arith, ctx, o, p[1], kind, perm, timeout=120)
    elif p[0] == "logic":
        for o in "&|^":
            for kind in ("qq", "qv"):
                ctx.case(f"logic/{o}/{kind}", logic, ctx, o, kind)
    elif p[0] == "red":
        for o in ("all", "any"):
            for shape in ((3,), (2, 2), (2, 3), (2, 1, 2)):
                axes = [None] + list(range(len(shape))) + [-1] + ([(0, 1), (1, 0), (0, -1)] if len(shape) > 1 else [(0,)])
                for axis in axes:
                    for view in ("", "t", "r"):
                        ctx.case(f"red/{o}/{shape}/{axis}/{view}", reduce_, ctx, o, shape, axis, view)
    elif p[0] == "mat":
        if p[1] == "qq":
            for op in ("@", "dot", "fun", "out"):
                for sa, sb in (((1, 1), (1, 1)), ((1, 2), (2, 1)), ((2, 1), (1, 2)), ((2, 2), (2, 1)), ((1, 2), (2, 2))):
                    for t in ("u", "s"):
                        T = TYPES[t] if np.prod(sa) + np.prod(sb) <= 4 and sa[0] * sb[1] == 1 else (1, 0, False)
                        if t == "s" and T != TYPES[t]:
                            continue
                        for opt in (("eq", "safe") if op == "fun" else ("",)):
                            ctx.case(f"mat/qq{op}/{sa}/{sb}/{t}/{opt}", matmul, ctx, "qq" + op, sa, sb, T, False, opt, timeout=200)
            for sa, sb in (((3, 1), (1, 1)), ((1, 3), (3, 1))):
                for opt in ("eq", "safe"):
                    ctx.case(f"mat/qqfun/{sa}/{sb}/b/{opt}", matmul, ctx, "qqfun", sa, sb, (1, 0, False), False, opt, timeout=200)
            for sa, sb in (((2,), (2,)), ((2, 2), (2,)), ((2,), (2, 2)), ((1, 2), (2,)), ((2,), (2, 1)), ((2, 3), (3,)), ((2,), (2, 3))):
                ctx.case(f"mat/qqdot/{sa}/{sb}", matmul, ctx, "qqdot", sa, sb, (1, 0, False), False, "", timeout=200)
            for ax, sa, sb in ((1, (2, 2), (2, 1)), (1, (1, 2), (2, 2)), (2, (2, 1), (2, 1)), (1, (2,), (2,))):
                ctx.case(f"mat/qqtdot{ax}/{sa}/{sb}", matmul, ctx, f"qqtdot{ax}", sa, sb, (1, 0, False), False, "", timeout=200)
        elif p[1] == "qc":
            for how in ("qc", "cq"):
                for op in ("@", "dot"):
                    for sa, sb in (((1, 1), (1, 1)), ((1, 2), (2, 1)), ((2, 1), (1, 2)), ((2, 2), (2, 2)), ((1, 2), (2, 2)), ((2, 2), (2, 1)), ((1, 2), (2, 3)), ((3, 2), (2, 1))):
                        for t in ("u", "s", "e"):
                            if t != "u" and np.prod(sa if how == "qc" else sb) + sa[0] * sb[1] > 6 or np.prod(sa if how == "qc" else sb) + sa[0] * sb[1] > 8:
                                continue
                            for tr in ((False, True) if how == "qc" else (False,)):
                                if quick and tr and op == "dot":
                                    continue
                                ctx.case(f"mat/{how}{op}/{sa}/{sb}/{t}/{tr}", matmul, ctx, how + op, sa, sb, t, tr, "", timeout=200)
                for sa, sb in (((2,), (2,)), ((2, 2), (2,)), ((2,), (2, 2)), ((3, 2), (2,)), ((2,), (2, 3)), ((2, 3), (3,))):
                    ctx.case(f"mat/{how}dot/{sa}/{sb}", matmul, ctx, how + "dot", sa, sb, (1, 0, False), False, "", timeout=200)
            for opt in ("eq", "safe"):
                for sa, sb in (((1, 2), (2, 1)), ((1, 2), (2, 2)), ((2, 1), (1, 1))):
                    ctx.case(f"mat/qcfun/{sa}/{sb}/{opt}", matmul, ctx, "qcfun", sa, sb, "u", False, opt, timeout=200)
        else:
            for N in (3, 5):
                for mat in ([[2]], [[1, 2], [2, 1]], [[0, 1], [1, 1]], [[2, 2], [1, 0]]):
                    for side in "rl":
                        if N == 5 and len(mat) > 1 and quick and side == "l":
                            continue
                        ctx.case(f"mat/mod/{N}/{mat}/{side}", modmat, ctx, N, mat, side, timeout=200)
    elif p[0] == "qi":
        for shape, sizes in (((2,), (1,)), ((4,), (2,)), ((2, 2), (1, 1)), ((4, 2), (2, 1)), ((2, 4), (1, 2)), ((2, 2, 2), (1, 1, 1))):
            for wrap in ("plain", "ctl"):
                for view in ("plain", "r", "t"):
                    ctx.case(f"qi/{p[1]}/{shape}/{wrap}/{view}", qindex, ctx, p[1], shape, sizes, wrap, view, timeout=200)
    elif p[0] == "tar":
        for o in list(BIN) + ["+=", "-="]:
            for kind in ("qq", "qv", "qc"):
                if kind == "qc" and o == "*":
                    continue
                ctx.case(f"tar/{o}/{kind}", tarith, ctx, o, kind, timeout=120)


RULE = "array views, values, arithmetic, products and quantum indexing agree with numpy"
