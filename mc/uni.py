"""Complete unitary of a library routine, recorded or traced, from one run on half of maximally entangled pairs."""
import numpy as np
import qrisp as q
from mc import prog, jsim


def branches(mode, n, body):
    """Matrix of body(v, e) on (system v, control e) for every measurement branch -> (matrix, error); the
    control is the last (least significant) position, qubit 0 of the system the most significant."""
    def build():
        v, e, c = q.QuantumVariable(n), q.QuantumVariable(1), q.QuantumVariable(n + 1)
        for i in range(n):
            q.h(c[i])
            q.cx(c[i], v[i])
        q.h(c[n])
        q.cx(c[n], e[0])
        body(v, e)
        return c, v, e
    if mode == "rec":
        c, v, e = build()
        q.merge([c, v, e])
        yield prog.choi(prog.table(c.qs, [c, list(v.reg) + list(e.reg)]), n + 1)
        return
    res, qc = jsim.circuit(build)
    g = [list(r) for r in res if isinstance(r, (list, tuple))]
    for pr, cb, tab in prog.branch_tables(qc, [g[0], g[1] + g[2]]):
        yield prog.choi(tab, n + 1)


def compare(mode, n, body, want, ctl, tol=1e-3, exact=False, ctrl_off=None):
    """body must act as `want` (ctl: only when e is 1, then including the phase) -> None or an explanation."""
    d = 1 << n
    for u, err in branches(mode, n, body):
        if err:
            return err
        if np.max(np.abs(u[0::2, 1::2])) > tol or np.max(np.abs(u[1::2, 0::2])) > tol:
            return "the control qubit changed"
        off, on = u[0::2, 0::2], u[1::2, 1::2]
        if ctl:
            f = np.trace(off) / d
            if abs(abs(f) - 1) > tol or np.max(np.abs(off - f * np.eye(d))) > tol:
                return "acts although the control is off"
            err = np.max(np.abs(on / f - want))
            if err > tol:
                return f"controlled action differs by {err:.4f}"
        else:
            if np.max(np.abs(off - on)) > tol:
                return "depends on an unrelated qubit"
            if exact:
                err = np.max(np.abs(on - want))
                if err > tol:
                    return f"action differs by {err:.4f}"
            elif not prog.phase_equal(on, want, tol):
                return f"action differs from the specified matrix\n{np.round(on, 3)}\n{np.round(want, 3)}"
    return None


def rev(n):
    """Permutation matrix converting little endian indices to big endian ones."""
    return [int(format(i, f"0{n}b")[::-1], 2) if n else 0 for i in range(1 << n)]


def little(m):
    """Reorder a matrix given in little endian indices (bit 0 = qubit 0) to the convention used here."""
    n = int(np.log2(len(m)))
    r = rev(n)
    return m[np.ix_(r, r)]
