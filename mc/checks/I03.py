"""Measurement results against plain dictionaries, over all small count dictionaries and layouts."""
import itertools, warnings
import numpy as np
import qrisp as q
from qrisp.interface import Backend, Job, JobResult, JobStatus

NOTE = "all count dictionaries over up to 3 measured bits from a count alphabet, times variable layouts, decoders, register layouts and string formats, answered by a backend that follows the submitted circuit's measurement map; all orders of mapping operations compared with a dictionary"
RULE = "every count dictionary over the bound, every layout, every access word of length 2"


class Scripted(Backend):
    """Answers with a prescribed distribution over joint outcomes of given qubits, in the layout of the circuit it receives."""

    def __init__(self, outcome, fmt):
        super().__init__(name="scripted", options={"shots": None})
        self.outcome, self.fmt = outcome, fmt       # outcome: list of ({qubit: bit}, count)

    def run_async(self, circuits, shots=None):
        circuits = [circuits] if isinstance(circuits, q.QuantumCircuit) else list(circuits)
        return Done(self, [self.answer(c) for c in circuits])

    def answer(self, qc):
        src = {}
        for ins in qc.data:
            if ins.op.name == "measure":
                src[ins.clbits[0]] = ins.qubits[0]
        order = [c for c in qc.clbits if c in src][::-1]
        out = {}
        sep = " " if self.fmt == "spaced" else ""
        for assign, cnt in self.outcome:
            free = [c for c in order if src[c] not in assign]
            for bits in itertools.product("01", repeat=len(free)):
                m = dict(zip(free, bits))
                s = sep.join(m[c] if c in m else str(assign[src[c]]) for c in order)
                out[s] = out.get(s, 0) + cnt
        return out


class Done(Job):
    def __init__(self, backend, counts):
        super().__init__(backend)
        self.counts = counts
        self._last_known_status = JobStatus.DONE

    def submit(self):
        pass

    def result(self, timeout=None):
        return JobResult(self.counts)

    def cancel(self):
        return False

    def status(self):
        return JobStatus.DONE


class Halved(q.QuantumVariable):
    """Two neighbouring integers share one label."""

    def decoder(self, i):
        return "L%d" % (i // 2)


class Mixed(q.QuantumVariable):
    def decoder(self, i):
        return ["x", 1, None, (2, 3), "y", 2.5, True and "z", frozenset([1])][i]


def signed(n, e):
    return lambda i: (i - (1 << (n + 1)) if i >= (1 << n) else i) * 2.0 ** e


KIND = {
    # name: (constructor, bits, expected label of integer)
    "v": lambda n: (lambda: q.QuantumVariable(n), n, lambda i: "".join(str(i >> k & 1) for k in range(n))),
    "f": lambda n: (lambda: q.QuantumFloat(n, -1), n, lambda i: i * 0.5),
    "s": lambda n: (lambda: q.QuantumFloat(n - 1, 1, signed=True), n, signed(n - 1, 1)) if n > 1 else None,
    "b": lambda n: (lambda: q.QuantumBool(), 1, bool) if n == 1 else None,
    "H": lambda n: (lambda: Halved(n), n, lambda i: "L%d" % (i // 2)),
    "M": lambda n: (lambda: Mixed(n), n, lambda i: ["x", 1, None, (2, 3), "y", 2.5, "z", frozenset([1])][i]),
    "a": lambda n: (lambda: q.QuantumArray(qtype=q.QuantumFloat(1), shape=(n,)), n,
                    lambda i: tuple(i >> (n - 1 - k) & 1 for k in range(n))) if n > 1 else None,
}


def near(a, b):
    return abs(a - b) < 1e-6


def norm_label(l):
    if isinstance(l, np.ndarray):
        return tuple(int(x) for x in l.reshape(-1))
    return l


def make(layout):
    """layout: tuple of (kind, bits)."""
    vs, labs, n = [], [], 0
    for k, b in layout:
        ctor, bits, lab = KIND[k](b)
        vs.append(ctor()); labs.append((bits, lab))
    return vs, labs


def qubits_of(v, k, order):
    if isinstance(v, q.QuantumArray):
        return sum([x.reg for x in v.flatten()[::-1]], [])
    return list(v.reg)


def dictionaries(nbits, alphabet):
    for vals in itertools.product(alphabet, repeat=1 << nbits):
        if any(vals):
            yield vals


def scaled(vals, scale):
    t = sum(vals)
    if scale == "int":
        return vals
    if scale == "prob":
        return tuple(v / t for v in vals)
    return tuple(v / t / 2 for v in vals)


def expect(vals, labs):
    """Distribution of label tuples: the first variable is the most significant field of the index."""
    t = sum(vals)
    out = {}
    for idx, c in enumerate(vals):
        if not c:
            continue
        rest, lab = idx, []
        for bits, f in labs[::-1]:
            lab.append(f(rest & ((1 << bits) - 1)))
            rest >>= bits
        lab = tuple(lab[::-1])
        out[lab] = out.get(lab, 0) + c / t
    return out


def assignment(vs, labs, idx):
    out = {}
    for v, (bits, f) in list(zip(vs, labs))[::-1]:
        field = idx & ((1 << bits) - 1)
        idx >>= bits
        for k, qb in enumerate(qubits_of(v, None, None)):
            out[qb] = field >> k & 1
    return out


def compare(res, want, label=lambda x: x):
    got = {}
    n = 0
    for k in res:
        got[label(k)] = res[k]
        n += 1
    if n != len(res):
        return "iteration yields %d labels, length is %d" % (n, len(res))
    if set(got) != set(want):
        return "labels %r, expected %r" % (sorted(map(str, got)), sorted(map(str, want)))
    for k in want:
        if not near(got[k], want[k]):
            return "label %r has %r, expected %r" % (k, got[k], want[k])
    if not near(sum(res.values()), 1):
        return "probabilities sum to %r" % sum(res.values())
    vals = list(res.values())
    if any(vals[i] < vals[i + 1] - 1e-12 for i in range(len(vals) - 1)):
        return "values are not in descending order: %r" % vals


_SETUP = {}


def setup(layout, pre):
    key = (layout, pre)
    if key not in _SETUP:
        vs, labs = make(layout)
        if pre:
            # earlier mid-circuit measurements occupy classical bits
            anc = q.QuantumVariable(pre)
            q.h(anc)
            q.cx(anc[0], qubits_of(vs[0], None, None)[0])
            qs = anc.qs
            for i in range(pre):
                qs.measure(anc[i], qs.add_clbit())
        _SETUP[key] = (vs, labs)
    return _SETUP[key]


def single(layout, pre, vals, scale, fmt):
    vs, labs = setup(layout, pre)
    sv = scaled(vals, scale)
    be = Scripted([(assignment(vs, labs, i), sv[i]) for i in range(len(vals)) if vals[i]], fmt)
    res = vs[0].get_measurement(backend=be)
    want = {k[0]: p for k, p in expect(vals, labs).items()}
    return compare(res, want, norm_label)


def joint(layout, pre, vals, scale, fmt):
    vs, labs = setup(layout, pre)
    sv = scaled(vals, scale)
    be = Scripted([(assignment(vs, labs, i), sv[i]) for i in range(len(vals)) if vals[i]], fmt)
    res = q.multi_measurement(list(vs), backend=be)
    return compare(res, expect(vals, labs), lambda t: tuple(norm_label(x) for x in t))


OPS = ["len", "iter", "get", "getdef", "eq", "ne", "eqself", "repr", "in", "notin", "items", "keys", "values", "bool", "missing", "dict", "hash"]


def access(res, plain, op):
    some = next(iter(plain))
    if op == "len":
        return len(res) == len(plain)
    if op == "iter":
        return list(iter(res)) == list(plain)
    if op == "get":
        return all(res[k] == plain[k] for k in plain)
    if op == "getdef":
        return res.get("nope", 7) == 7 and res.get(some) == plain[some]
    if op == "eq":
        return res == dict(plain) and dict(plain) == res and not (res == {"nope": 1.0}) and res != {**plain, "nope": 0.5}
    if op == "ne":
        return not (res != dict(plain)) and res != {} and res != 3
    if op == "eqself":
        return res == res
    if op == "repr":
        return repr(res) == repr(dict(plain)) and str(res) == str(dict(plain))
    if op == "in":
        return all(k in res for k in plain)
    if op == "notin":
        return "nope" not in res
    if op == "items":
        return list(res.items()) == list(plain.items())
    if op == "keys":
        return list(res.keys()) == list(plain)
    if op == "values":
        return list(res.values()) == list(plain.values())
    if op == "bool":
        return bool(res) == bool(plain)
    if op == "missing":
        try:
            res["nope"]
            return False
        except KeyError:
            return True
    if op == "dict":
        return dict(res) == plain
    if op == "hash":
        try:
            hash(res)
            return False
        except TypeError:
            return True


def fresh(kind, vals):
    lay = {"single": (("f", 2),), "joint": (("v", 1), ("f", 1)), "halved": (("H", 2),), "raw": (("v", 2),), "mixed": (("M", 2),), "jointH": (("H", 2), ("b", 1))}[kind]
    vs, labs = setup(lay, 0)
    be = Scripted([(assignment(vs, labs, i), vals[i]) for i in range(len(vals)) if vals[i]], "plain")
    if kind == "raw":
        qc = q.QuantumCircuit(2, 2)
        qc.measure(qc.qubits, qc.clbits)
        be.outcome = [({qc.qubits[0]: i & 1, qc.qubits[1]: i >> 1}, vals[i]) for i in range(len(vals)) if vals[i]]
        return be.run(qc), {format(i, "02b"): vals[i] for i in range(len(vals)) if vals[i]}
    if kind in ("joint", "jointH"):
        return q.multi_measurement(list(vs), backend=be), expect(vals, labs)
    return vs[0].get_measurement(backend=be), {k[0]: p for k, p in expect(vals, labs).items()}


def accesses(kind, vals, word):
    res, want = fresh(kind, vals)
    other, _ = fresh(kind, vals)
    plain = dict(other)
    if set(plain) != set(want) or any(not near(plain[k], want[k]) for k in want):
        return "dictionary copy is %r, expected %r" % (plain, want)
    if not (res == other):
        return "two results of the same counts differ"
    res, _ = fresh(kind, vals)
    for op in word:
        if not access(res, plain, op):
            return "operation %s disagrees with the dictionary %r" % (op, plain)


def shards(tier):
    out = []
    singles = [(("v", 2),), (("f", 2),), (("s", 2),), (("H", 2),), (("M", 2),), (("b", 1),), (("a", 2),)]
    triples = [(("f", 3),), (("H", 3),), (("s", 3),), (("M", 3),)]
    joints2 = [(("v", 1), ("f", 1)), (("b", 1), ("b", 1))]
    joints3 = [(("v", 2), ("b", 1)), (("b", 1), ("v", 2)), (("H", 2), ("f", 1)), (("f", 1), ("H", 2)), (("b", 1), ("f", 1), ("v", 1)), (("a", 2), ("b", 1)), (("s", 2), ("M", 1))]
    for lay in singles + joints2:
        out.append(["full", lay, [0, 1, 2, 5]])
    for lay in triples + joints3:
        out.append(["full3", lay, [0, 1] if tier == "quick" else [0, 1, 2], 0])
        out.append(["full3", lay, [0, 1] if tier == "quick" else [0, 1, 2], 1])
    out += [["access", k] for k in ("single", "joint", "halved", "raw", "mixed", "jointH")]
    return out


def run(shard, ctx):
    warnings.simplefilter("ignore")
    if shard[0] in ("full", "full3"):
        lay = tuple(tuple(x) for x in shard[1])
        n = sum(KIND[k](b)[1] for k, b in lay)
        f = single if len(lay) == 1 else joint
        if shard[0] == "full":
            cfg = [(p, s, t) for p in (0, 1, 2) for s in ("int", "prob", "half") for t in ("plain", "spaced")]
        elif shard[3]:
            cfg = [(0, "prob", "spaced"), (1, "int", "spaced")]
        else:
            cfg = [(0, "int", "plain"), (1, "half", "plain")]
        for vals in dictionaries(n, shard[2]):
            for pre, scale, fmt in cfg:
                key = "%s pre=%d %s %s %s" % (lay, pre, scale, fmt, "".join(map(str, vals)))
                ctx.step(sum(1 for v in vals if v))
                ctx.state(lay, pre, scale, fmt, vals)
                ctx.case(key, f, lay, pre, vals, scale, fmt)
        if shard[0] == "full3" and shard[3] == 0:
            # pairs of unequal counts, so that weights cannot be exchanged unnoticed
            for i, j in itertools.permutations(range(1 << n), 2):
                vals = tuple(3 if k == i else 1 if k == j else 0 for k in range(1 << n))
                ctx.step(2)
                ctx.state(lay, "pair", vals)
                ctx.case("%s pair %s" % (lay, "".join(map(str, vals))), f, lay, 0, vals, "int", "plain")
    else:
        kind = shard[1]
        size = 8 if kind == "jointH" else 4
        for vals in ([3, 0, 0, 0], [1, 2, 0, 4], [2, 2, 2, 2], [0, 0, 5, 1]):
            vals = tuple(vals) * (size // 4)
            for word in itertools.product(OPS, repeat=2):
                ctx.step(2)
                ctx.state(kind, vals, word)
                ctx.case("access %s %s %s" % (kind, vals, "-".join(word)), accesses, kind, vals, word)
