"""Reads the exact final state of a recorded program as a table over its variables."""
import numpy as np
from qrisp import merge
from mc import ref

TOL = 2e-4
DENSE = 14      # above this many qubits the final state is followed sparsely


def bits_of(v):
    """The qubits of a variable, least significant first."""
    return list(v.reg) if hasattr(v, "reg") else list(v)


def table(qs, groups, compiled=None):
    """-> {(int per group..., leftover): amplitude} of the compiled program's final state."""
    if compiled is None:
        merge([g for g in groups if hasattr(g, "reg")] + [qs])
        qs = groups[0].qs if hasattr(groups[0], "qs") and not callable(groups[0].qs) else qs
    qc = qs.compile() if compiled is None else compiled
    n = len(qc.qubits)
    if n > DENSE:
        return sparse_table(qc, groups)
    sv = np.asarray(qc.statevector_array(), dtype=complex).reshape(-1)
    pos = {qb: i for i, qb in enumerate(qc.qubits)}
    regs = [[pos[qb] for qb in bits_of(g)] for g in groups]
    used = {p for r in regs for p in r}
    rest = [p for p in range(n) if p not in used]
    out = {}
    for i in np.flatnonzero(np.abs(sv) > 1e-4):
        b = [(int(i) >> (n - 1 - k)) & 1 for k in range(n)]
        key = tuple(sum(b[p] << j for j, p in enumerate(r)) for r in regs) + (sum(b[p] << j for j, p in enumerate(rest)),)
        out[key] = out.get(key, 0) + sv[i]
    return out


def flat(qc, qmap=None):
    """Elementary unitary instructions of a circuit as (matrix, qubits)."""
    qmap = qmap or {qb: qb for qb in qc.qubits}
    for ins in qc.data:
        op = ins.op
        if op.name in ("qb_alloc", "qb_dealloc", "barrier"):
            continue
        if op.clbits if hasattr(op, "clbits") else False:
            raise RuntimeError("classical operation in a sparse trace")
        qbs = [qmap[b] for b in ins.qubits]
        if op.definition is not None and len(qbs) > 1:
            yield from flat(op.definition, dict(zip(op.definition.qubits, qbs)))
        elif op.definition is not None and len(qbs) == 1 and op.name not in ref_names:
            yield from flat(op.definition, dict(zip(op.definition.qubits, qbs)))
        else:
            yield unitary(op), qbs


ref_names = {"h", "x", "y", "z", "s", "t", "s_dg", "t_dg", "p", "rx", "ry", "rz", "u3", "gphase", "id", "sx"}


def sparse_state(qc):
    """Exact final state from |0> as (keys, amplitudes), qubit i of the circuit at bit i."""
    pos = {qb: i for i, qb in enumerate(qc.qubits)}
    if len(pos) > 62:
        raise MemoryError("too many qubits for a sparse trace")
    keys, amp = np.zeros(1, dtype=np.int64), np.ones(1, dtype=complex)
    for U, qbs in flat(qc):
        U = np.asarray(U)
        k = len(qbs)
        p = [pos[b] for b in qbs]
        loc = np.zeros(len(keys), dtype=np.int64)
        for j, b in enumerate(p):
            loc |= ((keys >> b) & 1) << (k - 1 - j)
        mask = 0
        for b in p:
            mask |= 1 << b
        base = keys & ~np.int64(mask)
        nk, na = [], []
        for c in range(1 << k):
            sel = loc == c
            if not sel.any():
                continue
            for r in range(1 << k):
                if abs(U[r, c]) > 1e-9:
                    add = 0
                    for j, b in enumerate(p):
                        add |= ((r >> (k - 1 - j)) & 1) << b
                    nk.append(base[sel] | add)
                    na.append(amp[sel] * U[r, c])
        keys, amp = np.concatenate(nk), np.concatenate(na)
        if len(nk) > 1:
            keys, inv = np.unique(keys, return_inverse=True)
            s = np.zeros(len(keys), dtype=complex)
            np.add.at(s, inv, amp)
            ok = np.abs(s) > 1e-6
            keys, amp = keys[ok], s[ok]
    return keys, amp


def sparse_table(qc, groups):
    keys, amp = sparse_state(qc)
    pos = {qb: i for i, qb in enumerate(qc.qubits)}
    regs = [[pos[qb] for qb in bits_of(g)] for g in groups]
    used = {p for r in regs for p in r}
    rest = [p for p in range(len(qc.qubits)) if p not in used]
    out = {}
    for k, a in zip(keys.tolist(), amp):
        key = tuple(sum(((k >> p) & 1) << j for j, p in enumerate(r)) for r in regs) + (sum(((k >> p) & 1) << j for j, p in enumerate(rest)),)
        out[key] = out.get(key, 0) + a
    return out


def is_map(tab, expected, nin, phases=None, modulo_phases=False):
    """tab must be the uniform superposition of exactly the rows in expected: {inputs: outputs}
    (first nin groups are the inputs), clean leftovers, no relative phase other than the given phases
    (inputs -> factor)."""
    rows = {k: v for k, v in tab.items()}
    want = {tuple(i) + tuple(o) + (0,) for i, o in expected.items()}
    for k in rows:
        if k[-1]:
            return f"helper qubits end in {k[-1]:b} next to {k[:-1]}"
    got = set(rows)
    if got != want:
        w, g = sorted(want - got)[:3], sorted(got - want)[:3]
        return f"expected rows {w} missing, found instead {g} ({len(want - got)} of {len(want)} rows wrong)"
    a = np.array([rows[k] / (phases(k[:nin]) if phases else 1) for k in sorted(rows)])
    if modulo_phases:
        a = np.abs(a)
    amp = 1 / np.sqrt(len(want))
    d = np.max(np.abs(a - a[0] / abs(a[0]) * amp))
    if d > TOL:
        ks = sorted(rows)
        j = int(np.argmax(np.abs(a - a[0] / abs(a[0]) * amp)))
        return f"relative phase/weight wrong: {ks[j][:-1]} has amplitude {a[j]:.4f}, {ks[0][:-1]} has {a[0]:.4f}"


def wrap(v, size, exponent, signed):
    """Integer pattern of a value in a register of `size` qubits (two's complement when signed)."""
    k = v / 2.0 ** exponent
    if k != int(k):
        return None
    return int(k) % (1 << size)


def value(i, size, exponent, signed):
    if signed and i >> (size - 1):
        i -= 1 << size
    v = i * 2.0 ** exponent
    return int(v) if v == int(v) else v


def unitary(op):
    return op.get_unitary()


def apply_sparse(keys, amp, U, p):
    U = np.asarray(U)
    k = len(p)
    loc = np.zeros(len(keys), dtype=np.int64)
    mask = 0
    for j, b in enumerate(p):
        loc |= ((keys >> b) & 1) << (k - 1 - j)
        mask |= 1 << b
    base = keys & ~np.int64(mask)
    nk, na = [], []
    for c in range(1 << k):
        sel = loc == c
        if not sel.any():
            continue
        for r in range(1 << k):
            if abs(U[r, c]) > 1e-9:
                add = 0
                for j, b in enumerate(p):
                    add |= ((r >> (k - 1 - j)) & 1) << b
                nk.append(base[sel] | add)
                na.append(amp[sel] * U[r, c])
    keys, amp = np.concatenate(nk), np.concatenate(na)
    if len(nk) > 1:
        keys, inv = np.unique(keys, return_inverse=True)
        s = np.zeros(len(keys), dtype=complex)
        np.add.at(s, inv, amp)
        ok = np.abs(s) > 1e-6
        keys, amp = keys[ok], s[ok]
    return keys, amp


def branch_states(qc, limit=4096):
    """Every measurement branch of a circuit from |0>: [(probability, clbits, keys, amplitudes)]."""
    from mc import circ
    live = [(1.0, (0,) * len(qc.clbits), np.zeros(1, dtype=np.int64), np.ones(1, dtype=complex))]
    for st in circ.steps_of(qc):
        nxt = []
        for p, cb, k, a in live:
            kind = st[0]
            if kind == "u":
                k, a = apply_sparse(k, a, st[1], st[2])
                nxt.append((p, cb, k, a))
                continue
            if kind == "cu":
                if all(cb[i] == v for i, v in zip(st[3], st[4])):
                    k, a = apply_sparse(k, a, st[1], st[2])
                nxt.append((p, cb, k, a))
                continue
            if kind in ("m", "r"):
                bit = (k >> st[1]) & 1
                for v in (0, 1):
                    sel = bit == v
                    w = float(np.sum(np.abs(a[sel]) ** 2))
                    if w < 1e-7:
                        continue
                    kk, aa, c2 = k[sel], a[sel] / np.sqrt(w), cb
                    if kind == "m":
                        c2 = cb[:st[2]] + (v,) + cb[st[2] + 1:]
                    elif v:
                        kk = kk ^ (np.int64(1) << st[1])
                    nxt.append((p * w, c2, kk, aa))
                continue
            raise RuntimeError(f"unsupported step {st[0]}")
        live = nxt
        if len(live) > limit:
            raise RuntimeError("too many measurement branches")
    return live


def branch_tables(qc, groups):
    """[(probability, clbits, table over the groups)] of every measurement branch."""
    pos = {qb: i for i, qb in enumerate(qc.qubits)}
    regs = [[pos[qb] for qb in bits_of(g)] for g in groups]
    used = {p for r in regs for p in r}
    rest = [p for p in range(len(qc.qubits)) if p not in used]
    out = []
    for pr, cb, keys, amp in branch_states(qc):
        t = {}
        for k, a in zip(keys.tolist(), amp):
            key = tuple(sum(((k >> p) & 1) << j for j, p in enumerate(r)) for r in regs) + (sum(((k >> p) & 1) << j for j, p in enumerate(rest)),)
            t[key] = t.get(key, 0) + a
        out.append((pr, cb, t))
    return out


def choi(tab, n):
    """Table over (reference, system) started in the maximally entangled state -> (matrix, error); bit 0 is
    the most significant position of the matrix index, helpers must be clean."""
    rev = [int(format(i, f"0{n}b")[::-1], 2) if n else 0 for i in range(1 << n)]
    m = np.zeros((1 << n, 1 << n), dtype=complex)
    for k, a in tab.items():
        if k[-1]:
            return None, f"helper qubits end in {k[-1]:b}"
        m[rev[k[1]], rev[k[0]]] += a * np.sqrt(1 << n)
    return m, None


def phase_equal(a, b, tol=5e-4):
    """Equality of matrices up to one global phase."""
    i = np.unravel_index(np.argmax(np.abs(b)), b.shape)
    if abs(a[i]) < 1e-9:
        return False
    f = (a[i] / abs(a[i])) / (b[i] / abs(b[i]))
    return np.max(np.abs(a - f * b)) < tol
