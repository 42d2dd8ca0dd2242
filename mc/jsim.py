"""Exact enumeration of the measurement outcomes of a traced program.

The simulator asks a random number generator which outcome a measurement has.  Here every such draw is a
decision point: its comparison with the outcome probability is recorded and answered from a script, and a
depth-first search over the scripts visits every outcome sequence with its exact probability."""
import contextlib
import os
import random
import sys
import numpy as np

EPS = 1e-5


class Draw:
    """Stands in for one uniform draw; comparing it with a threshold decides the branch."""

    def __init__(self, owner):
        self.owner = owner

    def __getitem__(self, i):
        return self

    def below(self, p):
        p = float(np.asarray(p).reshape(-1)[0])
        return self.owner.decide(p)

    def __lt__(self, p):
        return self.below(p)

    __le__ = __lt__

    def __gt__(self, p):
        return not self.below(p)

    __ge__ = __gt__

    def __float__(self):
        return 0.0 if self.owner.decide(0.5) else 1 - 1e-12


class Script:
    def __init__(self, choices):
        self.choices, self.taken, self.prob = list(choices), [], 1.0

    def decide(self, p):
        if p < EPS:
            return False
        if p > 1 - EPS:
            return True
        k = len(self.taken)
        c = self.choices[k] if k < len(self.choices) else True
        self.taken.append((c, p))
        self.prob *= p if c else 1 - p
        return c

    def draw(self, size=None, *a, **k):
        # the array storage layer draws to pick a storage format: no outcome depends on it
        f = sys._getframe(1)
        if os.path.basename(f.f_code.co_filename).startswith("bi_array"):
            return np.full(size or 1, 0.999)
        return Draw(self)

    def choice(self, a, size=None, replace=True, p=None):
        if size is not None or p is None:
            raise RuntimeError("sampled draw in an enumerated program")
        opts = list(range(a)) if np.isscalar(a) else list(a)
        rest = 1.0
        for o, pr in zip(opts[:-1], p):
            if self.decide(min(1.0, pr / rest)):
                return o
            rest -= pr
        return opts[-1]


@contextlib.contextmanager
def scripted(s):
    old = [(np.random, n, getattr(np.random, n)) for n in ("random", "rand", "random_sample", "uniform", "choice")] + [(random, "random", random.random)]
    try:
        for m, n, _ in old:
            setattr(m, n, s.choice if n == "choice" else s.draw)
        yield
    finally:
        for m, n, f in old:
            setattr(m, n, f)


def outcomes(call, limit=4096):
    """-> list of (probability, result of call()) over every sequence of measurement outcomes."""
    out, stack = [], [[]]
    while stack:
        script = Script(stack.pop())
        with scripted(script):
            res = call()
        out.append((script.prob, res))
        base = len(script.choices)
        for k in range(base, len(script.taken)):
            stack.append([c for c, _ in script.taken[:k]] + [not script.taken[k][0]])
        if len(out) > limit:
            raise RuntimeError("more than %d measurement branches" % limit)
    total = sum(p for p, _ in out)
    if abs(total - 1) > 1e-3:
        raise RuntimeError(f"branch probabilities sum to {total}")
    return out


def plain(r):
    """A hashable classical value."""
    if isinstance(r, (list, tuple)):
        return tuple(plain(x) for x in r)
    if isinstance(r, dict):
        return tuple(sorted((plain(k), plain(v)) for k, v in r.items()))
    a = np.asarray(r)
    if a.ndim:
        return tuple(plain(x) for x in a)
    v = a.item()
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, float):
        return int(v) if v == int(v) else round(v, 6)
    return v


def dist(call, limit=4096):
    """-> {result: probability}."""
    d = {}
    for p, r in outcomes(call, limit):
        k = plain(r)
        d[k] = d.get(k, 0) + p
    return d


def circuit(f, *args):
    """The circuit a traced unitary program executes for the given classical inputs -> (results, circuit)."""
    from qrisp.jasp import make_jaspr
    r = make_jaspr(f)(*args).to_qc(*args)
    return (r[:-1], r[-1]) if isinstance(r, tuple) else ((), r)
