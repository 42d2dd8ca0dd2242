"""Driver: runs one check's shards on fresh worker processes and writes the evidence.

A check module mc/checks/<ID>.py provides
    shards(tier)      -> list of JSON-able shard descriptors (the bounded space, partitioned)
    run(shard, ctx)   -> explores one shard completely, reporting through ctx
    LEVEL, NOTE, ASSUMPTIONS (optional module constants), RULE (for exploration levels)
"""
import concurrent.futures as cf
import fnmatch, hashlib, importlib, json, multiprocessing as mp, os, re, signal, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_TIMEOUT = int(os.environ.get("VERIF_CASE_TIMEOUT", "240"))
TOTAL_TIMEOUT = int(os.environ.get("VERIF_TOTAL_TIMEOUT", "860"))


def tree_hash():
    h = hashlib.sha256()
    top = os.path.join(REPO, "src")
    for d, dirs, files in sorted(os.walk(top)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, top).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()[:16]


def scratch_cache():
    base = os.path.join(ROOT, ".cache")
    d = os.path.join(base, "numba-" + tree_hash())
    try:
        os.makedirs(d, exist_ok=True)
        probe = os.path.join(d, ".w%d" % os.getpid())
        open(probe, "w").close()
        os.remove(probe)
    except OSError:
        d = tempfile.mkdtemp(prefix="mc-numba-")
    m = os.path.join(base, "mpl")
    try:
        os.makedirs(m, exist_ok=True)
    except OSError:
        m = d
    os.environ["NUMBA_CACHE_DIR"] = d
    os.environ["MPLCONFIGDIR"] = m


class CaseTimeout(BaseException):
    pass


def _alarm(sig, frame):
    raise CaseTimeout()


class Ctx:
    """Collects what one shard explored."""

    def __init__(self, pid, shard, tier, seed, only=None):
        self.pid, self.shard, self.tier, self.seed, self.only = pid, shard, tier, seed, only
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.nontrivial = 0
        self.samples = []
        self.violations = []
        self.nviol = 0
        self.extra = {}

    def state(self, *obj):
        self.states.add(hash(obj) if not isinstance(obj[0], bytes) else int.from_bytes(hashlib.blake2b(b"|".join(o if isinstance(o, bytes) else repr(o).encode() for o in obj), digest_size=8).digest(), "big"))

    def step(self, n=1):
        self.transitions += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def wants(self, key):
        return self.only is None or self.only == key

    def fail(self, key, msg):
        self.nviol += 1
        if len(self.violations) < 3000:
            self.violations.append(dict(key=key, msg=str(msg)[:1500]))

    def case(self, key, fn, *args, timeout=None, sample=None):
        """Run one case on the implementation; fn returns None (ok) or a message."""
        if not self.wants(key):
            return
        self.evals += 1
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(timeout or CASE_TIMEOUT)
        try:
            msg = fn(*args)
        except CaseTimeout:
            msg = f"no result within {timeout or CASE_TIMEOUT}s"
        except Exception as e:
            msg = "unexpected %s: %s\n%s" % (type(e).__name__, str(e)[:300], traceback.format_exc(limit=-6))
        finally:
            signal.alarm(0)
        self.traces += 1
        if msg:
            self.fail(key, msg)
        if len(self.samples) < 3 and (self.evals & (self.evals - 1)) == 0:
            self.samples.append(sample if sample is not None else key)
        return msg


def worker_init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import warnings
    warnings.simplefilter("ignore")
    # silence progress bars of the code under test
    if not os.environ.get("VERIF_VERBOSE"):
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get("VERIF_STDERR"):
            os.dup2(devnull, 2)


def _mod(pid):
    return importlib.import_module("mc.checks." + pid)


def w_shards(pid, tier):
    try:
        return ("ok", list(_mod(pid).shards(tier)), {k: getattr(_mod(pid), k, None) for k in ("LEVEL", "RULE", "ASSUMPTIONS", "NOTE")})
    except BaseException:
        return ("err", traceback.format_exc(), None)


def w_run(pid, shard, tier, seed, only=None):
    t = time.time()
    ctx = Ctx(pid, shard, tier, seed, only)
    try:
        import numpy as np, random
        np.random.seed(seed % (2 ** 32))
        random.seed(seed)
        _mod(pid).run(shard, ctx)
        err = None
    except CaseTimeout:
        err = "stray timeout"
    except BaseException as e:
        err = traceback.format_exc()
        tb = traceback.extract_tb(e.__traceback__)
        if isinstance(e, Exception) and not isinstance(e, (ImportError, MemoryError)) and any(os.path.join(REPO, "src") in f.filename for f in tb):
            # the code under test raised where the check expected it to work
            ctx.fail("shard %s" % json.dumps(shard), "unexpected error while preparing cases\n" + err[-1200:])
            err = None
    return dict(shard=shard, err=err, states=ctx.states, transitions=ctx.transitions, traces=ctx.traces, evals=ctx.evals,
                nontrivial=ctx.nontrivial, samples=ctx.samples, violations=ctx.violations, nviol=ctx.nviol,
                extra=ctx.extra, wall=time.time() - t)


def w_warm():
    try:
        import numpy as np
        from qrisp import QuantumVariable, QuantumFloat, h, cx, QuantumCircuit, mcx
        qc = QuantumCircuit(3, 3)
        qc.h(0); qc.cx(0, 1); qc.t(1); qc.rx(0.3, 2)
        qc.measure(qc.qubits[0], qc.clbits[0]); qc.reset(qc.qubits[0]); qc.h(0)
        qc.measure(qc.qubits, qc.clbits)
        qc.run(shots=None); qc.run(shots=5)
        qc = QuantumCircuit(3); qc.h(0); qc.cx(0, 1); qc.p(0.1, 2)
        qc.get_unitary(); qc.statevector_array()
        a = QuantumFloat(3); h(a); b = a * a
        b.get_measurement(); a.qs.statevector_array()
        v = QuantumVariable(14); h(v); mcx(v[:5], v[6]); v.get_measurement(); v.qs.statevector_array()
        return None
    except Exception:
        return traceback.format_exc()


def known_findings():
    res = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) case="([^"]*)" (.*)', line.strip())
            if m:
                res.append(m.groups())
    return res


def pool(n):
    return cf.ProcessPoolExecutor(max_workers=n, mp_context=mp.get_context("spawn"), initializer=worker_init)


def main():
    args = sys.argv[1:]
    scratch_cache()
    if args[0] == "--warm":
        with pool(1) as ex:
            r = ex.submit(w_warm).result()
        if r:
            print(r)
            return 2
        # keep only the cache of the current tree
        base = os.path.join(ROOT, ".cache")
        print("warm", os.environ["NUMBA_CACHE_DIR"])
        return 0
    if args[0] == "--replay":
        rep = json.load(open(args[1]))
        with pool(1) as ex:
            r = ex.submit(w_run, rep["property"], rep["shard"], rep["tier"], rep["seed"], rep["key"]).result()
        if r["err"]:
            print(r["err"])
            return 2
        for v in r["violations"]:
            print("VIOLATION property=%s replay=%s" % (rep["property"], args[1]))
            print(v["key"]); print(v["msg"])
        print("cases run:", r["evals"])
        return 1 if r["violations"] else 0
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    t0 = time.time()
    nw = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    results, errors = [], []
    ex = pool(nw)
    try:
        st, shards, meta = ex.submit(w_shards, pid, tier).result(timeout=TOTAL_TIMEOUT)
        if st == "err":
            print(shards)
            return 2
        futs = {ex.submit(w_run, pid, s, tier, seed): s for s in shards}
        try:
            for f in cf.as_completed(futs, timeout=max(1, TOTAL_TIMEOUT - (time.time() - t0))):
                try:
                    r = f.result()
                except Exception as e:
                    errors.append("worker died on shard %r: %r" % (futs[f], e))
                    continue
                results.append(r)
                if os.environ.get("VERIF_TIMING"):
                    print("  shard %-40.40s %.1fs evals=%d viol=%d" % (json.dumps(r["shard"]), r["wall"], r["evals"], r["nviol"]), flush=True)
                if r["err"]:
                    errors.append("shard %r: %s" % (r["shard"], r["err"]))
        except cf.TimeoutError:
            errors.append("time limit reached with %d of %d shards done" % (len(results), len(shards)))
    finally:
        procs = list(getattr(ex, "_processes", {}).values()) if errors else []
        ex.shutdown(wait=not errors, cancel_futures=True)
        for p in procs:
            try:
                p.kill()
            except Exception:
                pass
    results.sort(key=lambda r: json.dumps(r["shard"], sort_keys=True))
    states = set()
    extra = {}
    for r in results:
        states |= r["states"]
        for k, v in r["extra"].items():
            extra[k] = extra.get(k, 0) + v
    level = meta.get("LEVEL") or "model_checking"
    samples = [s for r in results for s in r["samples"]][:12]
    cov = dict(samples=samples, exhaustive=not errors, shards=len(results))
    if level == "model_checking":
        cov.update(states=len(states), transitions=sum(r["transitions"] for r in results),
                   traces_validated_against_impl=sum(r["traces"] for r in results))
    else:
        cov.update(evaluations=sum(r["evals"] for r in results), distinct_nontrivial=len(states),
                   transitions=sum(r["transitions"] for r in results),
                   rule=meta.get("RULE") or "every element of the bounded space, once")
    if meta.get("RULE"):
        cov["rule"] = meta["RULE"]
    cov.update(extra)
    known = [k for k in known_findings() if k[0] == pid]
    fresh, hit = [], set()
    for r in results:
        for v in r["violations"]:
            for k in known:
                if fnmatch.fnmatchcase(v["key"], k[1]):
                    hit.add(k)
                    break
            else:
                fresh.append((r, v))
    for k in known:
        if k in hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    nviol = len(fresh)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2), violations=nviol,
              assumptions=meta.get("ASSUMPTIONS") or [])
    tmp = os.path.join(ROOT, "evidence", ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", pid + ".json"))
    if fresh:
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        for n, (r, v) in enumerate(fresh):
            name = "%s-%s.json" % (pid, hashlib.sha256(v["key"].encode()).hexdigest()[:12])
            p = os.path.join(d, name)
            with open(p, "w") as f:
                json.dump(dict(property=pid, tier=tier, seed=seed, shard=r["shard"], key=v["key"], msg=v["msg"]), f, indent=1)
            if n < int(os.environ.get("VERIF_SHOW", "5")):
                print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(p, ROOT)))
                print("  case:", v["key"])
                print("  " + v["msg"].replace("\n", "\n  "))
        print("%d violating cases" % sum(r["nviol"] for r in results))
        for e in errors:
            print("ERROR", e)
        return 1
    for e in errors:
        print("ERROR", e)
    print("%s %s: %s in %.1fs" % (pid, tier, {k: v for k, v in cov.items() if isinstance(v, (int, bool))}, time.time() - t0))
    return 2 if errors else 0


if __name__ == "__main__":
    sys.exit(main())
