"""Fourier transform, phase estimation, iterative phase estimation and amplitude estimation against closed forms."""
import numpy as np
import qrisp as q
from mc import prog, jsim, uni

NOTE = "complete unitaries of the Fourier transform for all sizes up to 4 (deep 5) and all option combinations, recorded and traced, plain, controlled and inverted; joint amplitudes of phase estimation for every precision up to 4 and every phase on a grid twice as fine, both eigenvector forms, repeated and bundled calls, given targets; complete outcome distributions of iterative phase estimation and amplitude estimation on the same grids"


def dft(n, mult, inv, swap, endian):
    N = 1 << n
    m = np.array([[np.exp(2j * np.pi * mult * x * k / N) for x in range(N)] for k in range(N)]) / np.sqrt(N)
    r = uni.rev(n)
    if not swap:
        m = m[r, :]
    if inv:
        m = m.conj().T
    # m is indexed by integers with qubit 0 least significant; the reversed order reads qubit 0 as most significant
    return uni.little(m) if endian else m


def qft(ctx, mode, n, inv, swap, endian, mult, gms, adder, wrap):
    kw = dict(inv=inv, exec_swap=swap, qiskit_endian=endian, inplace_mult=mult, use_gms=gms)
    if adder:
        kw["inpl_adder"] = {"fourier": q.fourier_adder, "cuccaro": q.cuccaro_adder, "gidney": q.gidney_adder}[adder]

    def body(v, e):
        if wrap == "ctl":
            with q.control(e[0]):
                q.QFT(v, **kw)
        elif wrap == "inv":
            with q.invert():
                q.QFT(v, **kw)
        elif wrap == "list":
            q.QFT(list(v.reg), **kw)
        elif wrap == "conj":
            with q.conjugate(q.QFT)(v, **kw):
                q.p(0.7, v[0])
        else:
            q.QFT(v, **kw)
    want = dft(n, mult, inv, swap, endian)
    if wrap == "inv":
        want = want.conj().T
    elif wrap == "conj":
        ph = np.diag([np.exp(0.7j) if i >> (n - 1) & 1 else 1 for i in range(1 << n)])
        want = want.conj().T @ ph @ want
    ctx.step()
    ctx.state((mode, n, inv, swap, endian, mult, gms, adder, wrap))
    return uni.compare(mode, n, body, want, wrap == "ctl")


def kernel(N, phi):
    """Amplitude of every readout value for an eigenvector of phase phi (fraction of a turn)."""
    k = np.arange(N)
    return np.array([np.mean(np.exp(2j * np.pi * k * (phi - y / N))) for y in range(N)])


def unitary_of(kind, phi):
    """(operation, preparation of the eigenvector for bit 1 from |1>, {bit: phase})"""
    if kind == "p":
        return (lambda v, it=1: q.p(2 * np.pi * phi * it, v[0])), (lambda v: None), {0: 0.0, 1: phi}
    if kind == "rx":
        return (lambda v, it=1: q.rx(2 * np.pi * phi * it, v[0])), (lambda v: q.h(v[0])), {0: -phi / 2, 1: phi / 2}
    return (lambda v, it=1: (q.x(v[0]), q.p(2 * np.pi * phi * it, v[0]), q.x(v[0]))), (lambda v: None), {0: phi, 1: 0.0}


def qpe(ctx, mode, kind, num, den, prec, spec, target):
    phi = num / den
    U, eig, phases = unitary_of(kind, phi)

    def build():
        c, v = q.QuantumVariable(1), q.QuantumVariable(1)
        q.h(c[0])
        q.cx(c[0], v[0])
        eig(v)
        if spec == "iter":
            f = lambda a, iter=1: U(a, iter)
            kw = dict(iter_spec=True)
        elif spec == "kwargs":
            f = lambda a, turns=0: U(a, turns)
            kw = dict(kwargs={"turns": 1})
        else:
            f, kw = (lambda a: U(a)), {}
        if target:
            t = q.QuantumFloat(prec, -prec)
            r = q.QPE(v, f, target=t, **kw)
        else:
            r = q.QPE(v, f, precision=prec, **kw)
        with q.invert():
            eig(v)
        return c, v, r
    ctx.step()
    ctx.state((mode, kind, num, den, prec, spec, target))
    if mode == "rec":
        c, v, r = build()
        if r.exponent != -prec or r.signed or r.size != prec:
            return "result register has the wrong type"
        q.merge([c, v, r])
        tabs = [prog.table(c.qs, [c, v, r])]
    else:
        res, qc = jsim.circuit(build)
        tabs = [t for _, _, t in prog.branch_tables(qc, [list(g) for g in res if isinstance(g, (list, tuple))][:3])]
    for tab in tabs:
        got = np.zeros((2, 1 << prec), dtype=complex)
        for k, a in tab.items():
            if abs(a) < 1e-4:
                continue
            if k[0] != k[1]:
                return f"the eigenvector changed: {k}"
            if k[-1]:
                return "helper qubits not clean"
            got[k[0], k[2]] += a
        want = np.array([kernel(1 << prec, phases[0]), kernel(1 << prec, phases[1])]) / np.sqrt(2)
        if not prog.phase_equal(got, want, 2e-3):
            return f"amplitudes {np.round(got, 3)}, expected {np.round(want, 3)}"


def iqpe(ctx, num, den, prec, spec, bit, scale=2):
    phi = num / den
    U, eig, phases = unitary_of("p", phi)

    def f():
        v = q.QuantumVariable(1)
        if bit:
            q.x(v[0])
        if spec == "iter":
            return q.IQPE(v, lambda a, iter=1: U(a, iter), precision=prec, iter_spec=True)
        return q.IQPE(v, lambda a: U(a), precision=prec)
    from qrisp.jasp import make_jaspr
    jp = make_jaspr(f)()
    got = jsim.dist(lambda: jp())
    N = 1 << prec
    # the library reports the phase of the squared operation
    want = np.abs(kernel(N, scale * phases[bit])) ** 2
    ctx.step(len(got))
    ctx.state((num, den, prec, spec, bit))
    for y in range(N):
        p = sum(pr for k, pr in got.items() if abs(k - y / N) < 1e-6)
        if abs(p - want[y]) > 3e-3:
            return f"estimate {y / N} has probability {p:.4f}, expected {want[y]:.4f}"
    if abs(sum(got.values()) - 1) > 1e-3 or any(abs(k * N - round(k * N)) > 1e-6 for k in got):
        return f"unexpected estimates {got}"


def qae(ctx, mode, num, den, prec, form):
    """sin^2(theta) with theta = pi * num / den; estimate pi * y / 2^prec."""
    theta = np.pi * num / den
    extra = form == "two"

    def build():
        b = q.QuantumBool()
        vs = [b]
        if extra:
            vs = [q.QuantumVariable(1), b]

        def state(*a):
            if extra:
                q.h(a[0][0])
            q.ry(2 * theta, a[-1][0])

        def oracle(*a, **kw):
            q.z(a[-1][0])
            if kw.get("flip"):
                q.z(a[-1][0])
                q.x(a[-1][0])
                q.z(a[-1][0])
                q.x(a[-1][0])
        kw = {}
        if form == "kwargs":
            kw["kwargs_oracle"] = {"flip": True}
        if form == "target":
            kw["target"] = q.QuantumFloat(prec, -prec)
        else:
            kw["precision"] = prec
        r = q.QAE(b if form == "single" else vs, state, oracle, **kw)
        return r, b
    th = np.pi / 2 - theta if form == "kwargs" else theta
    N = 1 << prec
    want = (np.abs(kernel(N, th / np.pi)) ** 2 + np.abs(kernel(N, -th / np.pi)) ** 2) / 2
    ctx.step()
    ctx.state((mode, num, den, prec, form))
    if mode == "rec":
        r, b = build()
        d = r.get_measurement()
        got = [d.get(y / N, 0) for y in range(N)]
        if set(d) - {y / N for y in range(N)}:
            return f"unexpected estimates {d}"
    else:
        res, qc = jsim.circuit(build)
        g = [list(x) for x in res if isinstance(x, (list, tuple))]
        got = np.zeros(N)
        for pr, _, tab in prog.branch_tables(qc, g[:1]):
            for k, a in tab.items():
                got[k[0]] += abs(a) ** 2
    if np.max(np.abs(np.array(got) - want)) > 3e-3:
        return f"distribution {np.round(got, 3)}, expected {np.round(want, 3)}"


def shards(tier):
    return ["qft/rec/1", "qft/rec/2", "qft/rec/3", "qft/rec/4", "qft/tr", "add/fourier", "add/cuccaro", "add/gidney"] + (["qft/rec/5"] if tier != "quick" else []) + ["qpe/rec/p", "qpe/rec/rx", "qpe/rec/n", "qpe/tr/p", "qpe/tr/rx", "iqpe/0", "iqpe/1", "iqpe/unit", "qae/rec", "qae/tr"]


def run(shard, ctx):
    quick = ctx.tier == "quick"
    p = shard.split("/")
    if p[0] in ("qft", "add"):
        mode = "rec" if p[0] == "add" else p[1]
        sizes = range(1, 4 if quick else 5) if p[0] == "add" or mode == "tr" else (int(p[2]),)
        for n in sizes:
            for inv in (False, True):
                for swap in (True, False):
                    for endian in (True, False):
                        for mult in range(1, 1 << n, 2) if p[0] == "qft" else (1,):
                            if quick and n == 4 and mult not in (1, 5, 15):
                                continue
                            for gms in (False, True) if mode == "rec" and p[0] == "qft" else (False,):
                                for w in ("plain", "ctl", "inv", "list", "conj"):
                                    if gms and (w not in ("plain", "inv") or n == 4 and mult != 1):
                                        continue
                                    if w == "list" and mode == "tr":
                                        continue
                                    if quick and n == 4 and w == "conj" and mult != 1:
                                        continue
                                    if p[0] == "add" and w == "ctl" and (n > 2 or quick and n > 1):
                                        continue
                                    ad = p[1] if p[0] == "add" else None
                                    ctx.case(f"{p[0]}/{p[1]}/{n}/{inv}/{swap}/{endian}/{mult}/{gms}/{w}", qft, ctx, mode, n, inv, swap, endian, mult, gms, ad, w)
    elif p[0] == "qpe":
        for prec in (1, 2, 3) if quick or p[1] == "tr" else (1, 2, 3, 4):
            den = 1 << (prec + 1)
            for num in range(den if p[2] != "rx" else 2 * den):
                if p[1] == "tr" and quick and num % 2 == 0 and num % 4:
                    continue
                for spec, target in (("rep", False), ("iter", True), ("kwargs", False)):
                    if p[1] == "tr" and quick and spec == "kwargs":
                        continue
                    ctx.case(f"qpe/{p[1]}/{p[2]}/{prec}/{num}/{spec}", qpe, ctx, p[1], p[2], num, den, prec, spec, target)
        for num in (1, 2, 4, 5):
            ctx.case(f"qpe/{p[1]}/{p[2]}/3/{num}:7", qpe, ctx, p[1], p[2], num, 7, 3, "iter", False)
    elif p[0] == "iqpe":
        if p[1] == "unit":
            ctx.case("iqpe/unit", iqpe, ctx, 3, 8, 3, "iter", 1, 1)
            return
        bit = int(p[1])
        for prec in (1, 2, 3):
            den = 1 << (prec + 2)
            for num in range(0, den if bit else 2, 1 if not quick else (1 if prec < 3 else 3)):
                for spec in ("rep", "iter"):
                    if spec == "rep" and prec == 3 and quick:
                        continue
                    ctx.case(f"iqpe/{prec}/{num}/{spec}/{bit}", iqpe, ctx, num, den, prec, spec, bit)
    elif p[0] == "qae":
        for prec in (1, 2, 3):
            den = 1 << (prec + 1)
            for num in range(den // 2 + 1):
                for form in ("single", "list", "two", "kwargs", "target"):
                    if p[1] == "tr" and (form not in ("single", "two") or prec == 3 and quick):
                        continue
                    ctx.case(f"qae/{p[1]}/{prec}/{num}/{form}", qae, ctx, p[1], num, den, prec, form)


RULE = "Fourier transforms equal the discrete Fourier matrix and estimations follow the closed-form amplitudes"
