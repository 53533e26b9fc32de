"""Shared helpers for the reference models: comparisons and enumerations."""
import itertools
import numpy as np
from vk import Fail


def same_ints(got, want, what):
    g = np.asarray(got)
    g = g.ravel().tolist() if g.size else []
    w = [int(v) for v in want]
    if len(g) != len(w) or any(a != b for a, b in zip(g, w)):
        raise Fail('%s: got %s, want %s' % (what, g, w))
    return tuple(w)


def close(got, want, what, rtol=1e-9, atol=1e-9):
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        raise Fail('%s: shape %s, want %s (got %s want %s)' % (what, g.shape, w.shape, short(g), short(w)))
    ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
    if not np.all(ok):
        bad = np.argwhere(~np.atleast_1d(ok))[0].tolist() if g.ndim else []
        raise Fail('%s: differs at %s: got %s, want %s' % (
            what, bad, short(g[tuple(bad)] if bad else g), short(w[tuple(bad)] if bad else w)))


def short(a):
    s = np.array2string(np.asarray(a), precision=12, threshold=20) if not np.isscalar(a) else repr(a)
    return s[:400]


def require(cond, what):
    if not cond:
        raise Fail(what)


def rnd(a, nd=6):
    """digest of a float array"""
    return np.round(np.asarray(a, dtype=float) + 0.0, nd).tolist()


def words(alphabet, nmin, nmax):
    for n in range(nmin, nmax + 1):
        for w in itertools.product(alphabet, repeat=n):
            yield list(w)


def de_bruijn(k, n):
    """A cyclic sequence over range(k) that contains every word of length n exactly once."""
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    import sys
    sys.setrecursionlimit(10000)
    db(1, 1)
    return seq
