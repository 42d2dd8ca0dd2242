"""Variable life cycle against an ordered-bit-register model."""
import itertools
import qrisp as q

NOTE = "every history over the life-cycle alphabet (create, encode, initialise from another, duplicate with and without content, extend at any position, reduce, flip, copy, delete, with and without verification, bitwise operators) up to the depth bound; after the history every live variable must read out exactly what an ordered-bit-register model predicts, live variables must not share qubits, and the session must list exactly the live variables; forbidden steps must raise and change nothing"

TYPES = {"v": lambda n, name: q.QuantumVariable(n, name=name), "f": lambda n, name: q.QuantumFloat(n, -1, name=name), "b": lambda n, name: q.QuantumBool(name=name),
         "s": lambda n, name: q.QuantumFloat(n, 0, signed=True, name=name)}


class M:
    """Model variable: bits (least significant first), whether each qubit was touched, alive."""

    def __init__(self, kind, bits):
        self.kind, self.bits, self.dirty, self.alive = kind, list(bits), [False] * len(bits), True
        self.msize = len(bits) - (1 if kind == "s" else 0)

    def label(self):
        i = sum(b << k for k, b in enumerate(self.bits))
        n = len(self.bits)
        if self.kind == "v":
            return "".join(str(b) for b in self.bits)
        if self.kind == "b":
            return bool(i)
        if self.kind == "s":
            return i - (1 << n) if n and self.bits[-1] else i
        return i / 2

    def touch(self, k):
        self.dirty[k] = True


class R:
    def __init__(self, kinds):
        self.real, self.model = {}, {}
        self.n = 0
        for slot, kind in zip("AB", kinds):
            if kind != "-":
                self.new(slot, kind)

    def new(self, slot, kind):
        self.n += 1
        n = 1 if kind == "b" else 2
        self.real[slot] = TYPES[kind](n, f"{slot.lower()}{self.n}")
        self.model[slot] = M(kind, [0] * len(self.real[slot].reg))
        self.kept = getattr(self, "kept", [])

    def drop(self, slot):
        self.kept.append((self.real.pop(slot), self.model.pop(slot)))


class Forbidden(Exception):
    pass


def enc(slot, bits):
    def f(r):
        v, m = r.real[slot], r.model[slot]
        if not m.bits:
            return None
        pat = bits[:len(m.bits)] + [0] * max(0, len(m.bits) - len(bits))
        want = M(m.kind, pat).label()
        def real():
            v[:] = want
        def model():
            if not m.alive or any(m.dirty):
                raise Forbidden
            m.bits = list(pat)
            for k, b in enumerate(pat):
                if b:
                    m.touch(k)
        return real, model
    return f


def flip(slot, k):
    def f(r):
        v, m = r.real[slot], r.model[slot]
        if not m.bits:
            return None
        kk = k if k >= 0 else len(m.bits) - 1
        def real():
            q.x(v[kk])
        def model():
            if not m.alive:
                raise Forbidden
            m.bits[kk] ^= 1
            m.touch(kk)
        return real, model
    return f


def copy(r):
    a, b = r.real["A"], r.real["B"]
    ma, mb = r.model["A"], r.model["B"]
    if not ma.bits or not mb.bits:
        return None
    def real():
        q.cx(a[0], b[0])
    def model():
        if not (ma.alive and mb.alive):
            raise Forbidden
        mb.bits[0] ^= ma.bits[0]
        ma.touch(0)
        mb.touch(0)
    return real, model


def init(r):
    a, b = r.real["A"], r.real["B"]
    ma, mb = r.model["A"], r.model["B"]
    if len(ma.bits) != len(mb.bits) or not ma.bits:
        return None
    def real():
        b[:] = a
    def model():
        if not (ma.alive and mb.alive) or ma.kind != mb.kind and {ma.kind, mb.kind} != {"f", "s"} or any(mb.dirty):
            raise Forbidden
        for k in range(len(ma.bits)):
            mb.bits[k] = ma.bits[k]
            ma.touch(k)
            mb.touch(k)
    return real, model


def dup(content):
    def f(r):
        a, ma = r.real["A"], r.model["A"]
        if not ma.alive and not content or not ma.bits:
            return None
        def real():
            r.real["_"] = a.duplicate(init=content)
        def model():
            if not ma.alive:
                raise Forbidden
            if "B" in r.real:
                r.drop("B")
            r.real["B"] = r.real.pop("_")
            r.model["B"] = M(ma.kind, [0] * len(ma.bits))
            if content:
                for k in range(len(ma.bits)):
                    r.model["B"].bits[k] = ma.bits[k]
                    ma.touch(k)
                    r.model["B"].touch(k)
        return real, model
    return f


def ext(slot, pos):
    def f(r):
        v, m = r.real[slot], r.model[slot]
        if m.kind in "bfs" or not m.alive or len(m.bits) > 3 or pos > len(m.bits):
            return None
        def real():
            v.extend(1, pos)
        def model():
            p = len(m.bits) if pos == -1 else pos
            m.bits.insert(p, 0)
            m.dirty.insert(p, False)
        return real, model
    return f


def ext2(r):
    v, m = r.real["A"], r.model["A"]
    if m.kind != "v" or not m.alive or len(m.bits) > 3:
        return None
    def real():
        v.extend(2, 1 if m.bits else 0)
    def model():
        p = 1 if m.bits else 0
        m.bits[p:p] = [0, 0]
        m.dirty[p:p] = [False, False]
    return real, model


def red(slot, k, verify):
    def f(r):
        v, m = r.real[slot], r.model[slot]
        if not m.bits or not m.alive or m.kind != "v":
            return None
        kk = k if k >= 0 else len(m.bits) - 1
        if m.bits[kk] and not verify:
            return None
        def real():
            v.reduce(v[kk], verify=verify)
        def model():
            if m.bits[kk]:
                raise Forbidden
            m.bits.pop(kk)
            m.dirty.pop(kk)
        return real, model
    return f


def red2(r):
    v, m = r.real["A"], r.model["A"]
    if len(m.bits) < 2 or not m.alive or m.kind != "v":
        return None
    def real():
        v.reduce([v[0], v[len(m.bits) - 1]], verify=True)
    def model():
        if m.bits[0] or m.bits[-1]:
            raise Forbidden
        m.bits, m.dirty = m.bits[1:-1], m.dirty[1:-1]
    return real, model


def delete(slot, verify):
    def f(r):
        v, m = r.real[slot], r.model[slot]
        if not m.alive or (any(m.bits) and not verify):
            return None
        def real():
            v.delete(verify=verify)
        def model():
            if any(m.bits):
                raise Forbidden
            m.alive = False
        return real, model
    return f


def bitop(name):
    def f(r):
        a, b, ma, mb = r.real["A"], r.real["B"], r.model["A"], r.model["B"]
        if not (ma.alive and mb.alive) or ma.kind != "v" or mb.kind != "v" or not ma.bits or not mb.bits:
            return None
        def real():
            r.real["_"] = {"and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b}[name]()
        def model():
            n = max(len(ma.bits), len(mb.bits))
            pa, pb = ma.bits + [0] * (n - len(ma.bits)), mb.bits + [0] * (n - len(mb.bits))
            g = {"and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y}[name]
            for m in (ma, mb):
                for k in range(len(m.bits)):
                    m.touch(k)
            r.drop("B")
            r.real["B"] = r.real.pop("_")
            r.model["B"] = M("v", [g(x, y) for x, y in zip(pa, pb)])
            r.model["B"].dirty = [True] * n
        return real, model
    return f


def make(slot, kind):
    def f(r):
        def model():
            if slot in r.real:
                r.drop(slot)
            r.new(slot, kind)
        return (lambda: None), model
    return f


def qsinit(r):
    """Create B in the session of A."""
    def model():
        if "B" in r.real:
            r.drop("B")
        r.n += 1
        r.real["B"] = q.QuantumVariable(2, qs=r.real["A"].qs, name=f"b{r.n}*")
        r.model["B"] = M("v", [0, 0])
    return (lambda: None), model


TOK = {
    "A:=10": enc("A", [1, 0, 1, 0]), "A:=01": enc("A", [0, 1, 1, 1]), "B:=11": enc("B", [1, 1, 1, 1]),
    "xA0": flip("A", 0), "xA-": flip("A", -1), "xB-": flip("B", -1),
    "A0>B0": copy, "B:=A": init, "B=dupA": dup(False), "B=dupA+": dup(True),
    "extA0": ext("A", 0), "extA1": ext("A", 1), "extA-": ext("A", -1), "ext2A": ext2,
    "redA0": red("A", 0, False), "redA-v": red("A", -1, True), "redA0v": red("A", 0, True), "red2A": red2,
    "delA": delete("A", False), "delAv": delete("A", True), "delBv": delete("B", True),
    "and": bitop("and"), "or": bitop("or"), "xor": bitop("xor"),
    "newBf": make("B", "f"), "newBv": make("B", "v"), "BinA": qsinit,
}
NEEDB = {"B:=11", "xB-", "A0>B0", "B:=A", "delBv", "and", "or", "xor"}


def audit(r):
    live = [(r.real[s], r.model[s]) for s in r.real] + r.kept
    for v, m in live:
        if m.bits and v.is_deleted() == m.alive:
            return f"is_deleted() of {v.name} is {v.is_deleted()}"
        if v.size != len(m.bits):
            return f"{v.name} has {v.size} qubits, expected {len(m.bits)}"
    alive = [(v, m) for v, m in live if m.alive]
    seen = {}
    for v, m in alive:
        for qb in v.reg:
            if qb in seen:
                return f"{v.name} shares a qubit with {seen[qb]}"
            seen[qb] = v.name
            if qb not in v.qs.qubits:
                return f"a qubit of {v.name} is not in its session"
            if not qb.allocated:
                return f"a qubit of the live variable {v.name} is not allocated"
        if sum(x is v for x in v.qs.qv_list) != 1:
            return f"{v.name} is not listed exactly once by its session"
    for v, m in live:
        if not m.alive and any(x is v for x in v.qs.qv_list):
            return f"the deleted {v.name} is still listed"
        ids = [qb.identifier for qb in v.qs.qubits]
        if len(set(ids)) != len(ids):
            return f"two qubits of one session share a name: {sorted(ids)}"
        for x in v.qs.qv_list:
            if not any(x is w for w, mm in alive):
                return f"the session lists an unknown variable {x.name}"


def read(r):
    for v, m in [(r.real[s], r.model[s]) for s in r.real] + r.kept:
        if not m.alive:
            try:
                q.x(v[0])
            except Exception:
                continue
            if m.bits:
                return f"a gate was accepted on the deleted {v.name}"
            continue
        if not m.bits:
            continue
        got = dict(v.get_measurement())
        if got != {m.label(): 1.0}:
            return f"{v.name} reads {got}, expected {m.label()!r}"


def one(ctx, kinds, h):
    r = R(kinds)
    r.kept = []
    for i, t in enumerate(h):
        if t in NEEDB and "B" not in r.real:
            return None
        act = TOK[t](r)
        if act is None:
            return None
        real, model = act
        failed = None
        try:
            real()
        except Exception as e:
            failed = e
        try:
            model()
            if failed is not None:
                return f"step {t} raised {failed!r}"
        except Forbidden:
            r.real.pop("_", None)
            if failed is None:
                return f"step {t} should have been refused"
            ctx.count("refusals")
        ctx.step()
        bad = audit(r)
        if bad:
            return f"after {t}: {bad}"
    ctx.state(f"{kinds}:{h}")
    return read(r)


STARTS = ["v-", "vv", "f-", "ff", "b-", "vf", "ss"]
SHORT = ["A:=01", "xA0", "A0>B0", "B:=A", "B=dupA+", "extA0", "ext2A", "redA0v", "red2A", "delAv", "delBv", "xor", "BinA"]
LONG = ["A:=10", "A0>B0", "B=dupA+", "extA1", "redA-v", "redA0v", "delAv", "xor", "BinA"]


def shards(tier):
    out = [f"{s}/{t}" for s in STARTS for t in TOK]
    out += [f"long/{t}" for t in (LONG if tier != "quick" else LONG[:4])]
    return out


def run(shard, ctx):
    s, t = shard.split("/")
    if s == "long":
        for rest in itertools.product(LONG, repeat=3 if ctx.tier == "quick" else 4):
            ctx.case(f"vv/{','.join((t,) + rest)}", one, ctx, "vv", (t,) + rest)
        return
    for n in ((0, 1) if ctx.tier == "quick" and s != "vv" else (0, 1, 2) if ctx.tier == "quick" or s not in ("vv", "ff") else (0, 1, 2, 3)):
        for rest in itertools.product(SHORT if n == 2 and ctx.tier == "quick" else TOK, repeat=n):
            ctx.case(f"{s}/{','.join((t,) + rest)}", one, ctx, s, (t,) + rest)


RULE = "readout and bookkeeping = bit-register model"
