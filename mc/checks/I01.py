"""Job life-cycle: every call history against every behaviour of a scripted remote side."""
import enum, itertools, sys, types, warnings
import qrisp as q
from qrisp.interface import Backend, JobStatus, JobFailureError, JobCancelledError
from qrisp.interface.job import JobResult

LEVEL = "fault_enumeration"
NOTE = "every word over status/result/timed result/cancel/remote step/lost status query/failed download up to the depth bound, times the remote's final outcome and its reaction to cancel requests, run on the real job adapters over a scripted remote side; synchronous backends with all call words on succeeding and failing jobs"
RULE = "all words over the call and remote-event alphabet up to the depth bound, per adapter and remote behaviour"

FINAL = (JobStatus.DONE, JobStatus.CANCELLED, JobStatus.ERROR)
RANK = {JobStatus.INITIALIZING: 0, JobStatus.QUEUED: 1, JobStatus.RUNNING: 2, JobStatus.DONE: 3, JobStatus.CANCELLED: 3, JobStatus.ERROR: 3}
#  S status  D done  F in_final_state  R result  T result(timeout)  X cancel  t remote step  l next status query is lost  g next result download fails
LETTERS = ["S", "D", "R", "T", "X", "t", "l", "g"]


class Lost(Exception):
    pass


class Remote:
    """The remote job as a small state machine: queued -> running -> outcome."""

    def __init__(self, outcome, on_cancel, quick):
        self.state = "RUNNING" if quick else "QUEUED"
        self.outcome, self.on_cancel = outcome, on_cancel
        self.lose = self.fail = False
        self.asked = 0

    def final(self):
        return self.state in ("DONE", "ERROR", "CANCELLED")

    def advance(self):
        if self.state == "QUEUED":
            self.state = "RUNNING"
        elif self.state == "RUNNING":
            self.state = self.outcome

    def query(self):
        self.asked += 1
        if self.lose:
            self.lose = False
            raise Lost("status query lost")
        return self.state

    def cancel(self):
        if self.on_cancel == "refuse" or self.final():
            raise Lost("cancel refused")
        if self.on_cancel == "now":
            self.state = "CANCELLED"
        if self.on_cancel == "later":
            self.outcome = "CANCELLED"
        # "ignored": request accepted, job completes anyway

    def wait(self, timeout=None):
        if timeout is not None and not self.final():
            raise TimeoutError("not finished in time")
        while not self.final():
            self.advance()
        if self.fail:
            self.fail = False
            raise Lost("download failed")
        return self.state


COUNTS = [{"01": 3, "10": 5}, {"00": 8}]


class QJob:
    def __init__(self, r):
        self.r = r

    def job_id(self):
        return "remote-7"

    def status(self):
        s = self.r.query()
        return types.SimpleNamespace(name=s) if self.enum else s

    enum = True

    def cancel(self):
        self.r.cancel()

    def result(self, timeout=None):
        s = self.r.wait(timeout)
        if s != "DONE":
            raise RuntimeError("job ended as " + s)
        return [self.pub(c) for c in COUNTS]

    def pub(self, c):
        reg = types.SimpleNamespace(get_counts=lambda: dict(c))

        class Data:
            meas = reg

            def __iter__(self):
                return iter(["meas"])
        return types.SimpleNamespace(data=Data())


class QJobStr(QJob):
    enum = False


class AJob(QJob):
    def result(self, timeout=None):
        s = self.r.wait(timeout)
        if s != "DONE":
            raise RuntimeError("job ended as " + s)
        return types.SimpleNamespace(quasi_dists=[{int(k, 2): v for k, v in c.items()} for c in COUNTS])


class FakeIQMStatus(enum.Enum):
    WAITING = "waiting"
    PROCESSING = "processing"
    COMPLETED = "completed"
    FAILED = "failed"
    CANCELLED = "cancelled"


try:
    from iqm.iqm_client.iqm_client import JobStatus as IQMStatus
except Exception:
    IQMStatus = FakeIQMStatus
    for name in ("iqm", "iqm.iqm_client", "iqm.iqm_client.iqm_client"):
        if name not in sys.modules:
            sys.modules[name] = types.ModuleType(name)
    sys.modules["iqm.iqm_client.iqm_client"].JobStatus = IQMStatus

IQM = {"QUEUED": IQMStatus.WAITING, "RUNNING": IQMStatus.PROCESSING, "DONE": IQMStatus.COMPLETED, "ERROR": IQMStatus.FAILED, "CANCELLED": IQMStatus.CANCELLED}


class IJob:
    job_id = "remote-7"

    def __init__(self, r):
        self.r = r
        self.status = IQM[r.state]

    def update(self):
        self.status = IQM[self.r.query()]
        return self.status

    def cancel(self):
        self.r.cancel()

    def wait_for_completion(self, *a, **k):
        fail, self.r.fail = self.r.fail, False
        s = IQM[self.r.wait()]
        self.r.fail = fail
        self.status = s
        return s


class IClient:
    def __init__(self, r):
        self.r = r

    def get_job_measurement_counts(self, job_id):
        assert job_id == "remote-7"
        if self.r.fail:
            self.r.fail = False
            raise Lost("download failed")
        return [types.SimpleNamespace(counts={k[::-1]: v for k, v in c.items()}) for c in COUNTS]


class Owner(Backend):
    def run_async(self, circuits, shots=None):
        raise NotImplementedError


def make(adapter, r):
    b = Owner()
    if adapter in ("qiskit", "qiskit-str"):
        from qrisp.interface.provider_backends.qiskit_backend import QiskitJob
        j = QiskitJob(backend=b, qiskit_job=(QJob if adapter == "qiskit" else QJobStr)(r), num_circuits=2)
    elif adapter == "aqt":
        from qrisp.interface.provider_backends.aqt_backend import AQTJob
        j = AQTJob(b, AJob(r), [2, 2])
    else:
        from qrisp.interface.provider_backends.iqm_backend import IQMJob
        j = IQMJob(b, IJob(r), [8, 8], IClient(r))
    return j


EXPECT = {"QUEUED": JobStatus.QUEUED, "RUNNING": JobStatus.RUNNING, "DONE": JobStatus.DONE, "ERROR": JobStatus.ERROR, "CANCELLED": JobStatus.CANCELLED}
ERR = {"ERROR": JobFailureError, "CANCELLED": JobCancelledError}


def history(adapter, word, outcome, on_cancel, quick):
    r = Remote(outcome, on_cancel, quick)
    job = make(adapter, r)
    if job.last_known_status != JobStatus.INITIALIZING:
        return "new job reports %s" % job.last_known_status
    job.submit()
    if job.last_known_status != JobStatus.QUEUED:
        return "submitted job reports %s" % job.last_known_status
    seen = job.last_known_status
    lossy = "l" in word
    strict_timeout = adapter.startswith("qiskit")

    def note(st, where):
        nonlocal seen
        if seen in FINAL and st != seen:
            return "%s: status went from %s to %s" % (where, seen, st)
        if not lossy and RANK[st] < RANK[seen]:
            return "%s: status went back from %s to %s" % (where, seen, st)
        seen = st

    for pos, x in enumerate(word + ("S", "R", "R", "S")):
        where = "call %d (%s)" % (pos, x)
        if x == "t":
            r.advance()
            continue
        if x == "l":
            r.lose = True
            continue
        if x == "g":
            r.fail = True
            continue
        lost = r.lose
        before = job.last_known_status
        if x in "SD":
            got = job.status() if x == "S" else job.done()
            if x == "S":
                if got != job.last_known_status:
                    return where + ": returned status differs from the remembered one"
                if not lost and got != EXPECT[r.state]:
                    return "%s: reports %s, the remote job is %s" % (where, got, r.state)
            elif not lost and got != (r.state == "DONE"):
                return "%s: done() is %r, the remote job is %s" % (where, got, r.state)
        elif x == "X":
            fin = r.final()
            got = job.cancel()
            if got not in (True, False):
                return where + ": cancel returned %r" % (got,)
            if got and fin and not lost:
                return where + ": cancelling a finished job claims success"
            if adapter == "aqt" and got:
                return where + ": claims to have cancelled although the service cannot"
        else:
            fin, failing = r.final(), r.fail
            try:
                res = job.result() if x == "R" else job.result(timeout=0.5)
                err = None
            except Exception as e:
                res, err = None, e
            if err is None:
                if r.state != "DONE":
                    return "%s: a result was returned although the remote job is %s" % (where, r.state)
                if not isinstance(res, JobResult):
                    return "%s: returned %r instead of a result" % (where, res)
                if [dict(c) for c in res.all_counts] != COUNTS or res.num_circuits != 2:
                    return "%s: wrong counts %r" % (where, res.all_counts)
                if x == "T" and not fin and strict_timeout:
                    return where + ": waited past its time limit"
            elif isinstance(err, TimeoutError):
                if x != "T" or fin:
                    return where + ": timed out without reason"
            elif failing and not r.fail and r.state == "DONE":
                pass            # the download really failed
            else:
                want = ERR.get(r.state)
                if want is None:
                    return "%s: raised %r although the remote job is %s" % (where, err, r.state)
                if not lost and not isinstance(err, want):
                    return "%s: raised %r, the remote job is %s" % (where, err, r.state)
                if not isinstance(err, (JobFailureError, JobCancelledError)):
                    return "%s: raised %r" % (where, err)
            if err is None or (isinstance(err, (JobFailureError, JobCancelledError)) and not lossy):
                if job.last_known_status != EXPECT[r.state]:
                    return "%s: remembered status %s after the remote job ended as %s" % (where, job.last_known_status, r.state)
        m = note(job.last_known_status, where)
        if m:
            return m


# --- synchronous backends ------------------------------------------------------------------------

def sync_job(kind, ok):
    qc = q.QuantumCircuit(2, 2)
    qc.x(0)
    if not ok:
        from qrisp import Operation
        qc.append(Operation("nonsense", num_qubits=1), [qc.qubits[0]])
    qc.measure(qc.qubits, qc.clbits)
    if kind == "sim":
        b = q.interface.QrispSimulatorBackend()
    elif kind == "stim":
        b = q.interface.StimBackend()
    else:
        def f(qasm, shots=None, token=""):
            if not ok:
                raise ValueError("no")
            return {"01": shots or 1}
        b = q.interface.VirtualBackend(f)
        if not ok:
            qc.data.pop(1)
    return b, qc


def sync_history(kind, ok, word):
    b, qc = sync_job(kind, ok)
    job = b.run_async(qc, shots=6)
    want = JobStatus.DONE if ok else JobStatus.ERROR
    for pos, x in enumerate(word):
        if x == "S":
            if job.status() != want or job.last_known_status != want or job.refresh() != want:
                return "status %s" % job.status()
        elif x == "D":
            if job.done() != ok or not job.in_final_state() or job.running() or job.queued() or job.cancelled():
                return "status predicates disagree"
        elif x == "X":
            if job.cancel() is not False:
                return "cancelling a finished job claims success"
        else:
            try:
                r = job.result() if x == "R" else job.result(timeout=1)
            except JobFailureError as e:
                if ok:
                    return "raised %r" % e
                continue
            if not ok:
                return "a failed job returned %r" % r
            if dict(r.get_counts()) != {"01": 6} or r.num_circuits != 1:
                return "wrong counts %r" % r.all_counts


def shards(tier):
    d = 4 if tier == "quick" else 5
    out = [["remote", a, d, x] for a in ("qiskit", "aqt", "iqm") for x in LETTERS]
    out += [["remote", "qiskit-str", d - 1, x] for x in LETTERS]
    out += [["sync", k] for k in ("sim", "virtual", "stim")]
    return out


def run(shard, ctx):
    warnings.simplefilter("ignore")
    if shard[0] == "remote":
        _, adapter, depth, first = shard
        for L in range(1, depth + 1):
            for rest in itertools.product(LETTERS, repeat=L - 1):
                w = (first,) + rest
                for outcome in ("DONE", "ERROR", "CANCELLED"):
                    for oc in (("now", "later", "ignored", "refuse") if "X" in w else ("now",)):
                        for quick in (0, 1):
                            key = "%s %s outcome=%s cancel=%s start=%d" % (adapter, "".join(w), outcome, oc, quick)
                            ctx.step(L + 4)
                            ctx.state(adapter, w, outcome, oc, quick)
                            ctx.case(key, history, adapter, w, outcome, oc, quick)
        return
    kind = shard[1]
    for ok in (True, False):
        for L in range(1, 4):
            for w in itertools.product("SDRTX", repeat=L):
                ctx.step(L)
                ctx.state(kind, ok, w)
                ctx.case("%s ok=%s %s" % (kind, ok, "".join(w)), sync_history, kind, ok, w)
