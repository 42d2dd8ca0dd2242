"""Independent reference semantics: dense linear algebra on small registers.

States are arrays of shape (2,)*n; axis i is qubit i (axis 0 is the most significant bit of
the flattened index).  Nothing here imports the code under test.
"""
import cmath, itertools, math
import numpy as np

I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)
H = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)
S = np.diag([1, 1j])
T = np.diag([1, cmath.exp(1j * math.pi / 4)])
SWAP = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)


def expm_herm(A, t):
    """exp(-i t A) for hermitian A."""
    w, v = np.linalg.eigh(A)
    return (v * np.exp(-1j * t * w)) @ v.conj().T


def p(phi): return np.diag([1, cmath.exp(1j * phi)])
def rx(t): return expm_herm(X, t / 2)
def ry(t): return expm_herm(Y, t / 2)
def rz(t): return np.diag([cmath.exp(-1j * t / 2), cmath.exp(1j * t / 2)])
def r(theta, phi): return expm_herm(math.cos(phi) * X + math.sin(phi) * Y, theta / 2)
def gphase(phi): return cmath.exp(1j * phi) * I2
def u3(t, phi, lam):
    return np.array([[math.cos(t / 2), -cmath.exp(1j * lam) * math.sin(t / 2)],
                     [cmath.exp(1j * phi) * math.sin(t / 2), cmath.exp(1j * (phi + lam)) * math.cos(t / 2)]])
def rxx(t): return expm_herm(np.kron(X, X), t / 2)
def rzz(t): return expm_herm(np.kron(Z, Z), t / 2)
def ryy(t): return expm_herm(np.kron(Y, Y), t / 2)


def ctrl(U, n=1, pattern=None):
    """Controlled U, controls first; pattern[i] is the required value of control i."""
    pattern = "1" * n if pattern is None else pattern
    d = U.shape[0]
    res = np.eye(d * 2 ** n, dtype=complex)
    k = int(pattern, 2) if n else 0
    res[k * d:(k + 1) * d, k * d:(k + 1) * d] = U
    return res


def apply(state, U, qubits):
    """Apply U to the listed axes of state (state may have further axes)."""
    k = len(qubits)
    if k == 0:
        return state * U.reshape(-1)[0]
    t = np.tensordot(U.reshape((2,) * (2 * k)), state, axes=(range(k, 2 * k), qubits))
    return np.moveaxis(t, range(k), qubits)


def zero_state(n):
    s = np.zeros((2,) * n, dtype=complex)
    s[(0,) * n] = 1
    return s


def unitary(n, ops):
    """ops: sequence of (matrix, qubits). Returns 2^n x 2^n matrix."""
    s = np.eye(2 ** n, dtype=complex).reshape((2,) * n + (2 ** n,))
    for U, q in ops:
        s = apply(s, U, q)
    return s.reshape(2 ** n, 2 ** n)


def embed(n, U, q):
    return unitary(n, [(U, list(q))])


def permute(U, order):
    """Matrix of U after relabelling: axis i of the result is axis order[i] of U."""
    n = len(order)
    t = U.reshape((2,) * (2 * n))
    return t.transpose(list(order) + [n + o for o in order]).reshape(U.shape)


def close(A, B, tol=1e-4):
    return A.shape == B.shape and bool(np.all(np.abs(A - B) < tol))


def close_gphase(A, B, tol=1e-4):
    if A.shape != B.shape:
        return False
    i = np.argmax(np.abs(B))
    b = B.reshape(-1)[i]
    a = A.reshape(-1)[i]
    if abs(b) < 1e-9:
        return bool(np.all(np.abs(A) < tol))
    ph = a / b
    if abs(abs(ph) - 1) > 10 * tol:
        return False
    return bool(np.all(np.abs(A - ph * B) < tol))


# ---------------------------------------------------------------- circuits with classical bits
# A step is one of
#   ("u", matrix, qubits)                 unitary
#   ("m", q, c)                           measure qubit q into classical bit c
#   ("r", q)                              reset
#   ("cu", matrix, qubits, cbits, values) unitary if all cbits[i] == values[i]
#   ("cm"/"cr", ...)                      conditioned measure / reset
def branches(n, nc, steps, state=None, cl=None, eps=1e-12):
    """Exact branch list [(cbits tuple, unnormalised state)] after the steps."""
    cur = [(tuple(cl) if cl is not None else (0,) * nc, zero_state(n) if state is None else state)]
    for st in steps:
        nxt = []
        for c, s in cur:
            k = st[0]
            if k == "u":
                nxt.append((c, apply(s, st[1], list(st[2]))))
            elif k == "cu":
                if all(c[b] == v for b, v in zip(st[3], st[4])):
                    s = apply(s, st[1], list(st[2]))
                nxt.append((c, s))
            elif k in ("m", "r", "cr", "cm"):
                cond = st[-2:] if k in ("cr", "cm") else ((), ())
                if not all(c[b] == v for b, v in zip(*cond)):
                    nxt.append((c, s))
                    continue
                q = st[1]
                for v in (0, 1):
                    t = np.zeros_like(s)
                    idx = [slice(None)] * s.ndim
                    idx[q] = v
                    sub = s[tuple(idx)]
                    if np.vdot(sub, sub).real < eps:
                        continue
                    if k in ("m", "cm"):
                        t[tuple(idx)] = sub
                        cc = list(c)
                        cc[st[2]] = v
                        nxt.append((tuple(cc), t))
                    else:
                        idx[q] = 0
                        t[tuple(idx)] = sub
                        nxt.append((c, t))
            else:
                raise ValueError(k)
        # merge identical branches
        merged = {}
        for c, s in nxt:
            merged.setdefault(c, []).append(s)
        cur = []
        for c, lst in merged.items():
            for s in lst:
                cur.append((c, s))
    return cur


def cdist(br, keep=None):
    """Distribution over classical bit tuples (restricted to indices keep)."""
    d = {}
    for c, s in br:
        k = c if keep is None else tuple(c[i] for i in keep)
        d[k] = d.get(k, 0) + float(np.vdot(s, s).real)
    return {k: v for k, v in d.items() if v > 1e-10}


def rho(br, n):
    """cbits -> density matrix."""
    d = {}
    for c, s in br:
        v = s.reshape(-1)
        d[c] = d.get(c, 0) + np.outer(v, v.conj())
    return d


def dist_close(a, b, tol=1e-4):
    for k in set(a) | set(b):
        if abs(a.get(k, 0) - b.get(k, 0)) > tol:
            return False
    return True


def fingerprint(arr):
    """Rounded bytes of an array with global phase kept: used to count distinct model states."""
    return (np.round(np.asarray(arr).reshape(-1), 5) + (0.0 + 0.0j)).astype(np.complex64).tobytes()
