"""Batched execution: every history of queue / dispatch / clear / read against a recording backend."""
import itertools, warnings
import qrisp as q
from qrisp.interface import Backend, Job, JobResult, JobStatus

NOTE = "every history over queue/dispatch/clear/option/invalid-call letters up to the depth bound, times batch limits, times position and kind of the failing job, executed on the real batched backend over a recording backend and compared step by step with a list model; plus all histories of decoded and joint measurements over the real simulators"
RULE = "histories: all words up to the depth bound; limits None,1,2,3; failure: none or (job index, kind)"

LETTERS = ["a", "b3", "a5", "L", "L3", "D", "T", "C", "O", "B"]
FAILS = ["run", "result", "timeout"]


class Boom(Exception):
    pass


def circuit(kind):
    qc = q.QuantumCircuit(2, 2)
    for i in {"a": [], "b": [0], "c": [1]}[kind]:
        qc.x(qc.qubits[i])
    qc.measure(qc.qubits, qc.clbits)
    return qc


CIRC = {k: circuit(k) for k in "abc"}


def tag(qc):
    xs = [qc.qubits.index(i.qubits[0]) for i in qc.data if i.op.name == "x"]
    return "a" if not xs else "bc"[xs[0]]


class FakeJob(Job):
    def __init__(self, backend, counts, exc):
        super().__init__(backend)
        self.counts, self.exc = counts, exc
        self._last_known_status = JobStatus.QUEUED

    def submit(self):
        pass

    def result(self, timeout=None):
        self._backend.timeouts.append(timeout)
        if self.exc is not None:
            raise self.exc
        self._last_known_status = JobStatus.DONE
        return JobResult(self.counts)

    def cancel(self):
        return False

    def status(self):
        return self._last_known_status


class Fake(Backend):
    def __init__(self, limit, fail):
        super().__init__(name="fake", options={"shots": 9})
        self.limit, self.fail = limit, fail
        self.jobs, self.log, self.timeouts, self.serial = 0, [], [], 0

    @property
    def max_circuits(self):
        return self.limit

    def run_async(self, circuits, shots=None):
        self._check_circuit_limit(circuits)
        circuits = [circuits] if isinstance(circuits, q.QuantumCircuit) else list(circuits)
        if isinstance(shots, list):
            self._validate_shots_length(shots, circuits)
        else:
            shots = [shots] * len(circuits)
        me = self.jobs
        self.jobs += 1
        exc = None
        if self.fail and self.fail[0] == me:
            exc = {"run": Boom("run"), "result": Boom("result"), "timeout": TimeoutError("late")}[self.fail[1]]
            if self.fail[1] == "run":
                raise exc
        counts = []
        for c, s in zip(circuits, shots):
            self.log.append((tag(c), s))
            counts.append({tag(c): s, "serial": self.serial})
            self.serial += 1
        return FakeJob(self, counts, exc)


def read(r):
    try:
        return ("ok", dict(r))
    except Exception as e:
        return ("err", e)


def history(word, limit, fail, probe):
    fake = Fake(limit, fail)
    bb = fake.batched()
    default = 9
    queue, handed, executed = [], [], []          # model: queue of placeholder indices
    obs = []                                      # placeholder objects
    exp = []                                      # per placeholder: ("pending",) / ("ok",tag,shots) / ("err",exc type)
    jobs = 0

    def verify(i):
        st, val = read(obs[i])
        e = exp[i]
        if e[0] == "ok":
            if st != "ok":
                return "placeholder %d should hold its counts but raised %r" % (i, val)
            if val.get(e[1]) != e[2] or set(val) != {e[1], "serial"}:
                return "placeholder %d for circuit %s with %s shots holds %r" % (i, e[1], e[2], val)
            if len(obs[i]) != 2 or obs[i][e[1]] != e[2]:
                return "lookup and length disagree on placeholder %d" % i
        elif e[0] == "pending":
            if st == "ok":
                return "placeholder %d is readable (%r) although its circuit was never executed" % (i, val)
            if not isinstance(val, RuntimeError):
                return "placeholder %d raised %r instead of a RuntimeError" % (i, val)
        else:
            if st == "ok":
                return "placeholder %d holds %r after its job failed" % (i, val)
            if not isinstance(val, e[1]):
                return "placeholder %d raised %r instead of the failure %s" % (i, val, e[1].__name__)

    for pos, x in enumerate(word):
        if x in ("a", "b3", "a5"):
            s = int(x[1:]) if len(x) > 1 else None
            r = bb.run(CIRC[x[0]], s) if s is not None else bb.run(CIRC[x[0]])
            obs.append(r); exp.append(("pending",)); queue.append((len(obs) - 1, x[0], s if s else default))
        elif x in ("L", "L3"):
            s = 3 if x == "L3" else None
            rs = bb.run([CIRC["b"], CIRC["c"]], shots=s)
            if not isinstance(rs, list) or len(rs) != 2:
                return "a sequence of two circuits returned %r" % type(rs)
            for k, r in zip("bc", rs):
                obs.append(r); exp.append(("pending",)); queue.append((len(obs) - 1, k, s if s else default))
        elif x in ("D", "T"):
            size = limit or max(len(queue), 1)
            failure = None
            want_t = None if x == "D" else 2.5
            fake.timeouts.clear()
            for start in range(0, len(queue), size):
                chunk = queue[start:start + size]
                if failure is None and fail and fail[0] == jobs:
                    failure = {"run": Boom, "result": Boom, "timeout": TimeoutError}[fail[1]]
                    if fail[1] != "run":
                        executed += [(k, s) for _, k, s in chunk]
                    jobs += 1
                elif failure is None:
                    jobs += 1
                    executed += [(k, s) for _, k, s in chunk]
                    for i, k, s in chunk:
                        exp[i] = ("ok", k, s)
                if failure is not None:
                    for i, k, s in chunk:
                        exp[i] = ("err", failure)
            n = len(queue)
            queue = []
            try:
                bb.dispatch() if x == "D" else bb.dispatch(timeout=2.5)
                got = None
            except Exception as e:
                got = type(e)
            if got is not failure:
                return "dispatch at step %d ended with %r, expected %r" % (pos, got, failure)
            if any(t != want_t for t in fake.timeouts):
                return "dispatch waited with time limits %r, expected %r" % (fake.timeouts, want_t)
        elif x == "C":
            bb.clear()
            queue = []
        elif x == "O":
            if queue:
                continue
            default = 9 + 2 * pos + 2
            bb.update_options(shots=default)
            if bb.options["shots"] != default or fake.options["shots"] != default:
                return "options not forwarded"
        elif x == "B":
            for bad in (0, -3, 2.0, True):
                try:
                    bb.run(CIRC["a"], shots=bad)
                    return "invalid shot count %r accepted" % (bad,)
                except (TypeError, ValueError):
                    pass
        if bb.pending_count != len(queue):
            return "pending count %d, model %d after step %d" % (bb.pending_count, len(queue), pos)
        if probe:
            for i in range(len(obs)):
                m = verify(i)
                if m:
                    return "after step %d: %s" % (pos, m)
    if sorted(fake.log) != sorted(executed):
        return "executed %r, expected %r" % (fake.log, executed)
    for i in range(len(obs)):
        m = verify(i) or verify(i)
        if m:
            return m
    oks = [i for i in range(len(obs)) if exp[i][0] == "ok"]
    if len({obs[i]["serial"] for i in oks}) != len(oks):
        return "two placeholders received the same execution"
    return None


def shards(tier):
    d = 4 if tier == "quick" else 5
    out = [["hist", d, lim, a] for lim in (0, 1, 2, 3) for a in LETTERS if a not in ("B",)]
    out += [["deep", d + 1, lim] for lim in (0, 1, 2, 3)]
    out += [["decoded", b] for b in ("sim", "virtual", "limit2")]
    out += [["direct"]]
    return out


def run(shard, ctx):
    warnings.simplefilter("ignore")
    if shard[0] == "hist":
        _, depth, lim, first = shard
        for L in range(1, depth + 1):
            for rest in itertools.product(LETTERS, repeat=L - 1):
                w = (first,) + rest
                explore(ctx, w, lim)
    elif shard[0] == "deep":
        _, depth, lim = shard
        for w in itertools.product(["a", "b3", "L", "D", "C"], repeat=depth):
            if "D" in w:
                explore(ctx, w, lim)
    elif shard[0] == "decoded":
        decoded(shard[1], ctx)
    else:
        direct(ctx)


def explore(ctx, w, lim):
    nd = sum(x in "DT" for x in w)
    circuits = sum({"L": 2, "L3": 2, "a": 1, "a5": 1, "b3": 1}.get(x, 0) for x in w)
    maxjobs = 0 if not nd else (circuits if lim == 1 else min(circuits, (circuits + lim - 1) // lim + nd - 1) if lim else min(nd, circuits))
    fails = [None] + [(k, f) for k in range(maxjobs) for f in FAILS]
    for fail in fails:
        for probe in (0, 1):
            key = "hist %s limit=%s fail=%s probe=%d" % ("-".join(w), lim, fail, probe)
            ctx.step(len(w))
            ctx.state(w, lim, fail)
            ctx.case(key, history, w, lim or None, fail, probe)


# ---- decoded measurements through real backends -------------------------------------------------

def mkbackend(kind):
    if kind == "sim":
        return q.interface.QrispSimulatorBackend()
    if kind == "virtual":
        def run_func(qasm, shots=None, token=""):
            from qiskit import QuantumCircuit
            from qiskit.quantum_info import Statevector
            qc = QuantumCircuit.from_qasm_str(qasm)
            bits = {}
            sv_qc = qc.remove_final_measurements(inplace=False)
            probs = Statevector(sv_qc).probabilities_dict()
            perm = [(qc.clbits.index(i.clbits[0]), qc.qubits.index(i.qubits[0])) for i in qc.data if i.operation.name == "measure"]
            n = len(qc.qubits)
            out = {}
            for b, p in probs.items():
                s = " ".join(b[n - 1 - qi] for _, qi in sorted(perm, reverse=True))
                out[s] = out.get(s, 0) + p * (shots or 1)
            return out
        return q.interface.VirtualBackend(run_func)

    class Lim(q.interface.QrispSimulatorBackend):
        @property
        def max_circuits(self):
            return 2
    return Lim()


VARS = {
    "f": (lambda: q.QuantumFloat(2, -1), lambda v: v.encode(1.5), {1.5: 1.0}),
    "s": (lambda: q.QuantumFloat(2, signed=True), lambda v: v.encode(-3), {-3: 1.0}),
    "h": (lambda: q.QuantumVariable(2), lambda v: q.h(v[1]), {"00": 0.5, "01": 0.5}),
    "b": (lambda: q.QuantumBool(), lambda v: v.flip(), {True: 1.0}),
    "c": (lambda: q.QuantumChar(), lambda v: v.encode("d"), {"d": 1.0}),
}


def near(got, want):
    got = dict(got)
    return set(got) == set(want) and all(abs(got[k] - want[k]) < 1e-4 for k in want)


def decoded_history(kind, word):
    bb = mkbackend(kind).batched()
    pend, done = [], []
    for x in word:
        if x == "D":
            bb.dispatch()
            done += pend
            pend = []
        elif x == "C":
            bb.clear()
            pend = [(r, w) for r, w in pend]
            for r, w in pend:
                if read(r)[0] == "ok":
                    return "cleared result readable"
            pend = []
        elif x.startswith("m"):
            vs = []
            for k in x[1:]:
                v = VARS[k][0](); VARS[k][1](v); vs.append(v)
            want = {}
            for combo in itertools.product(*[VARS[k][2].items() for k in x[1:]]):
                p = 1
                for _, pp in combo:
                    p *= pp
                want[tuple(l for l, _ in combo)] = p
            pend.append((q.multi_measurement(vs, backend=bb), want))
        else:
            v = VARS[x][0](); VARS[x][1](v)
            pend.append((v.get_measurement(backend=bb), VARS[x][2]))
        for r, w in pend:
            if read(r)[0] == "ok":
                return "result readable before dispatch"
        for r, w in done:
            st, val = read(r)
            if st != "ok":
                return "after dispatch reading raised %r" % val
            if not near(val, w):
                return "got %r expected %r" % (val, w)
            if not (r == val) or len(r) != len(val):
                return "equality or length differs from the plain dictionary"


def decoded(kind, ctx):
    letters = ["f", "s", "h", "b", "mhf", "mbsh", "D", "C"]
    for L in range(1, 4):
        for w in itertools.product(letters, repeat=L):
            if L == 3 and w[-1] != "D":
                continue
            ctx.step(L)
            ctx.state(kind, w)
            ctx.case("decoded %s %s" % (kind, "-".join(w)), decoded_history, kind, w)


def direct(ctx):
    """Backend.run and per-circuit shot lists on the real simulator."""
    def one(kinds, shots):
        sim = q.interface.QrispSimulatorBackend()
        want = {"a": "00", "b": "01", "c": "10"}
        res = sim.run_async([CIRC[k] for k in kinds], shots=list(shots)).result()
        for i, (k, s) in enumerate(zip(kinds, shots)):
            c = dict(res.get_counts(i))
            if set(c) != {want[k]} or abs(sum(c.values()) - (s or 1)) > 1e-6:
                return "circuit %d (%s, %s shots) received %r" % (i, k, s, c)
        bb = sim.batched()
        rs = [bb.run(CIRC[k], s) for k, s in zip(kinds, shots)]
        bb.dispatch()
        for i, (k, s) in enumerate(zip(kinds, shots)):
            c = dict(rs[i])
            if set(c) != {want[k]} or abs(sum(c.values()) - (s or 1)) > 1e-6:
                return "batched circuit %d (%s, %s shots) received %r" % (i, k, s, c)
        try:
            sim.run_async([CIRC[k] for k in kinds], shots=list(shots) + [1]).result()
            return "shot list of the wrong length accepted"
        except ValueError:
            pass
    for L in (1, 2, 3):
        for kinds in itertools.product("abc", repeat=L):
            for shots in itertools.product([None, 2, 7], repeat=L):
                ctx.step(L)
                ctx.state("direct", kinds, shots)
                ctx.case("direct %s %s" % ("".join(kinds), shots), one, kinds, shots)
