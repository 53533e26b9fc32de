"""P16 Polynomial tools: power, orthogonal and Chebyshev representations denote the same function."""
import itertools
import re
import math
from fractions import Fraction as Fr
import numpy as np
from vk import Group, Fail, tick
from ref import close, require, rnd
import wafo.polynomial as wp

PROPERTY = 'P16'
ASSUMPTIONS = ['coefficients over a small integer/half-integer lattice (all tools are linear in the coefficients)']
PTS = np.array([-1.5, -1.0, -0.6, 0.0, 0.3, 1.0, 2.0])


def ev(p, x):
    """p(x), coefficients in decreasing order, exact for rational input"""
    s = 0
    for c in p:
        s = s * x + c
    return s


def evf(p, x):
    return np.array([float(ev([Fr(float(c)) for c in p], Fr(float(t)))) for t in np.ravel(x)])


def T(n, x, kind=1):
    a, b = 1, kind * x
    if n == 0:
        return a + 0 * x
    for _ in range(n - 1):
        a, b = b, 2 * x * b - a
    return b


def chev(ck, x, a=-1.0, b=1.0, kind=1):
    """sum of ck[n-1-k]*T_k on [a, b]"""
    y = (2 * np.asarray(x, float) - a - b) / (b - a)
    n = len(ck)
    return sum(float(ck[n - 1 - k]) * T(k, y, kind) for k in range(n)) + 0 * y


def unchanged(keep, objs):
    for a, b in zip(keep, objs):
        require(np.array_equal(np.asarray(a), np.asarray(b)), 'the argument was changed: %s -> %s' % (a, b))


# ---- power form -----------------------------------------------------------------------------------------------------
def f_power(case):
    p, m, form = case
    q = np.array(p, int) if form == 'int' else (wp.poly1d(p) if form == 'poly1d' else (list(p) if form == 'list' else np.array(p, float)))
    keep = list(p)
    tick(3)
    d = wp.polyder(q, m)
    want = [Fr(c) for c in p]
    for _ in range(m):
        n = len(want) - 1
        want = [c * (n - i) for i, c in enumerate(want[:-1])]
    close(wp.polyval(np.asarray(d), PTS) if np.size(d) else 0 * PTS, [float(ev(want, Fr(t))) for t in PTS], 'derivative of order %d' % m)
    k = [1.5, -2.0, 0.25][:m]
    for kk in (None, k, 0.5):
        ks = [0.0] * m if kk is None else ([kk] * m if np.isscalar(kk) else kk)
        I = wp.polyint(q, m, kk if m or kk is None else None)
        w = [Fr(c) for c in p]
        for j in range(m):
            n = len(w)
            w = [c / (n - i) for i, c in enumerate(w)] + [Fr(ks[j])]
        close(wp.polyval(np.asarray(I), PTS), [float(ev(w, Fr(t))) for t in PTS], 'integral of order %d' % m)
        if m:
            back = np.asarray(wp.polyder(I, m))
            close(wp.polyval(back, PTS), evf(p, PTS), 'derivative of the integral')
    require(isinstance(d, wp.poly1d) == (form == 'poly1d'), 'the result has the form of the argument')
    unchanged([keep], [q if form != 'poly1d' else np.r_[np.zeros(len(p) - len(q.coeffs)), q.coeffs]])
    return rnd(I)


def f_matrix(case):
    cols, m = case
    q = np.array(cols, float).T
    keep = q.copy()
    tick(4)
    D, I = wp.polyder(q, m), wp.polyint(q, m)
    R, S = wp.polyreloc(q, 0.5, 2.0), wp.polyrescl(q, 2.0, 3.0)
    for j, c in enumerate(cols):
        col = np.array(c, float)
        if len(c) > m:
            close(D[:, j], wp.polyder(col, m), 'derivative of column %d' % j)
        close(I[:, j], wp.polyint(col, m), 'integral of column %d' % j)
        close(R[:, j], wp.polyreloc(col, 0.5, 2.0), 'relocation of column %d' % j)
        close(S[:, j], wp.polyrescl(col, 2.0, 3.0), 'scaling of column %d' % j)
    t = wp.polytrim(q)
    lead = 0
    while lead < len(q) and not np.any(q[lead]):
        lead += 1
    close(t, q[lead:], 'trimmed')
    unchanged([keep], [q])
    return rnd(R)


def f_move(case):
    p, x, y, form = case
    q = np.array(p, int) if form == 'int' else (wp.poly1d(p) if form == 'poly1d' else np.array(p, float))
    keep = np.array(q)
    tick(2)
    r = np.asarray(wp.polyreloc(q, x, y))
    close(evf(r, PTS), evf(p, PTS - x) + y, 'relocated by (%g, %g)' % (x, y))
    if x:
        s = np.asarray(wp.polyrescl(q, x, y))
        close(evf(s, PTS), y * evf(p, PTS / x), 'scaled by (%g, %g)' % (x, y))
    unchanged([keep], [np.array(q)])
    return rnd(r)


def f_shift(case):
    p, a, b = case
    q = np.array(p, float)
    tick(2)
    s = wp.polyshift(q, a, b)
    y = (2 * PTS - a - b) / (b - a)
    close(evf(s, PTS), evf(p, y), 'polyshift')
    i = wp.polyishift(q, a, b)
    close(evf(i, y), evf(p, PTS), 'polyishift')
    close(evf(wp.polyishift(s, a, b), PTS), evf(p, PTS), 'polyishift undoes polyshift')
    z = wp.map_from_interval(PTS, a, b)
    close(z, y, 'map_from_interval')
    close(wp.map_to_interval(z, a, b), PTS, 'map_to_interval undoes map_from_interval')
    return rnd(s)


def f_str(case):
    p, var = case
    tick(2)
    for fun in (wp.poly2str, wp.poly2hstr):
        s = fun(p, var)
        for x in (-2, 0, 1, 3):
            v = eval(s, {var: x})
            w = ev(p, x)
            require(abs(v - w) <= 1e-3 * (1 + abs(w)), '%s(%s) = %r evaluates to %s at %s, want %s' % (fun.__name__, p, s, v, x, w))
        require(not re.search(r'(?<![\d.*])1\*(?!\*)', s), '%s(%s) = %r writes a factor one' % (fun.__name__, p, s))
    return s


def f_trim(case):
    p = case
    t = wp.polytrim(p)
    k = 0
    while k < len(p) and p[k] == 0:
        k += 1
    tick()
    require(list(t) == p[k:], 'polytrim(%s) = %s' % (p, t))
    return list(map(float, t))


# ---- orthogonal polynomials -----------------------------------------------------------------------------------------
def f_ortho(case):
    x, y, n = case
    X, Y = np.array(x, float), np.array(y, float)
    keep = X.copy(), Y.copy()
    tick(3)
    p = wp.orthofit(X, Y, n)
    A = np.vander(X, n + 1)
    c = np.linalg.lstsq(A, Y, rcond=None)[0]
    close(wp.orthoval(p, PTS), np.polyval(c, PTS), 'least squares polynomial of degree %d' % n, 1e-7, 1e-7)
    q = np.atleast_1d(wp.ortho2poly(p))
    close(np.polyval(q, PTS), np.polyval(c, PTS), 'ortho2poly', 1e-7, 1e-7)
    if n:
        close(wp.orthoval(p, PTS.reshape(-1, 1)), np.polyval(c, PTS)[:, None], 'shape kept', 1e-7, 1e-7)
    # the integer form of the data gives the same fit
    if all(v == int(v) for v in x + y):
        close(wp.orthoval(wp.orthofit([int(v) for v in x], [int(v) for v in y], n), PTS), np.polyval(c, PTS), 'integer data', 1e-7, 1e-7)
    unchanged(keep, (X, Y))
    return rnd(q)


def f_polydeg(case):
    x, y = case
    X, Y = np.array(x, float), np.array(y, float)
    N = len(X)
    got = wp.polydeg(X, Y)
    tick()

    def aic(n):
        c = np.polyfit(X, Y, n) if n else [Y.mean()]
        r = np.sum((np.polyval(c, X) - Y) ** 2)
        return 2 * (n + 1) * (1 + (n + 2.) / (N - n - 2)) + N * (math.log(2 * math.pi * r / N) + 1)
    best, nbest, nit, n = aic(0), 0, 0, 1
    margin = 1e9
    while nit < 8 and n < N - 2:
        a = aic(n)
        margin = min(margin, abs(a - best))
        if a < best:
            best, nbest, nit = a, n, 0
        else:
            nit += 1
        n += 1
    if margin > 1e-6:
        require(got == nbest, 'polydeg: %s, want %s' % (got, nbest))
    return int(got)


# ---- Chebyshev ------------------------------------------------------------------------------------------------------
def f_cheb(case):
    ck, a, b, form = case
    c = np.array(ck, int) if form == 'int' else (list(ck) if form == 'list' else np.array(ck, float))
    keep = np.array(c)
    x = np.array([a, a + 0.3 * (b - a), 0.5 * (a + b), a + 0.9 * (b - a), b])
    f = chev(ck, x, a, b)
    tick(6)
    close(wp.chebval(x, c, a, b), f, 'chebval')
    xo = np.r_[a - 1.0, x, b + 0.5]
    for fill in (0, -3, 2.5, np.nan):
        close(wp.chebval(xo, c, a, b, fill=fill), np.r_[fill, f, fill], 'chebval with fill=%r' % fill)
    p = np.asarray(wp.cheb2poly(c, a, b), float)
    close(np.polyval(p, x), f, 'cheb2poly', 1e-8, 1e-8)
    d = wp.chebder(c, a, b)
    close(wp.chebval(x, d, a, b), np.polyval(np.polyder(p), x), 'chebder', 1e-8, 1e-8)
    i = wp.chebint(c, a, b)
    P = np.polyint(p)
    close(wp.chebval(x, i, a, b), np.polyval(P, x) - np.polyval(P, a), 'chebint', 1e-8, 1e-8)
    close(chev(wp.chebder(i, a, b), x, a, b), f, 'chebder undoes chebint', 1e-8, 1e-8)
    if np.any(p):
        close(chev(wp.poly2cheb(p, a, b), x, a, b), f, 'poly2cheb undoes cheb2poly', 1e-8, 1e-8)
    n = len(ck)
    fit = wp.chebfit(lambda t: chev(ck, t, a, b), n, a, b)
    close(fit, np.array(ck, float), 'chebfit reproduces a polynomial of its degree')
    fit = wp.chebfit(lambda t: chev(ck, t, a, b), n + 3, a, b)
    close(fit, np.r_[0, 0, 0, ck], 'chebfit of higher degree')
    close(wp.chebfit_dct(lambda t: chev(ck, t, a, b), n, (a, b)), np.array(ck[::-1], float), 'chebfit_dct')
    close(wp.chebinterpolate(lambda t: chev(ck, t, a, b), n - 1, domain=(a, b)), np.array(ck[::-1], float), 'chebinterpolate')
    vals = chev(ck, wp.map_to_interval(wp.chebroot(n), a, b), a, b)
    close(wp.chebfit(vals), np.array(ck, float), 'chebfit of tabulated values')
    unchanged([keep], [np.array(c)])
    return rnd(d)


def f_cheb1d(case):
    c1, c2, a, b = case
    x = np.array([a, a + 0.3 * (b - a), 0.5 * (a + b), b])
    A, B = wp.Cheb1d(c1, a, b), wp.Cheb1d(c2, a, b)
    fa, fb = chev(c1, x, a, b), chev(c2, x, a, b)
    tick(9)
    close(A(x), fa, 'call')
    close((-A)(x), -fa, 'negation')
    close((+A)(x), fa, 'plus')
    close((A + B)(x), fa + fb, 'sum')
    close((A - B)(x), fa - fb, 'difference')
    close(A.deriv()(x), chev(wp.chebder(c1, a, b), x, a, b), 'deriv')
    close(A.integ()(x), chev(wp.chebint(c1, a, b), x, a, b), 'integ')
    close(A.integ().deriv()(x), fa, 'deriv undoes integ')
    close(A(x), fa, 'the operand is unchanged')
    close((A + [1.0, 2.0])(x) if (a, b) == (-1, 1) else fa, fa + chev([1, 2], x, a, b) if (a, b) == (-1, 1) else fa, 'sum with a list')
    if (a, b) == (-1, 1):
        close(([1.0, 2.0] + A)(x), fa + chev([1, 2], x, a, b), 'sum with a list on the left')
        close(([1.0, 2.0] - A)(x), chev([1, 2], x, a, b) - fa, 'difference from a list')
        close((A - [1.0, 2.0])(x), fa - chev([1, 2], x, a, b), 'difference with a list')
        close((3.0 - A)(x), 3.0 - fa, 'difference from a number')
        close((A + 3.0)(x), fa + 3.0, 'sum with a number')
    t1, t2 = wp.polytrim(np.array(c1, float)), wp.polytrim(np.array(c2, float))
    t1c = t1
    t1 = t1 if len(t1) else np.zeros(1)
    require(len(A) == A.order == A.o == len(t1) - 1, 'order %s' % len(A))
    close(list(A), t1, 'iterated coefficients')
    close(np.asarray(A), t1, 'as an array')
    require(np.asarray(A, dtype=complex).dtype == complex, 'as an array of a given type')
    close(A.c, t1, 'c')
    close(A.coef, t1, 'coef')
    close(A.coefficients, t1, 'coefficients')
    require((A.a, A.b, A.kind, A.k) == (a, b, 1, 1), 'interval and kind')
    close([A[k] for k in range(len(t1))], t1, 'indexed coefficients')
    require(A[len(t1)] == 0 and A[-1] == 0, 'coefficients outside')
    C = wp.Cheb1d(A)
    require(C == A and repr(C) == repr(A) and repr(A).startswith('Cheb1d('), 'copy')
    ev = eval(repr(A), {'Cheb1d': wp.Cheb1d, 'array': np.array})
    close(np.asarray(ev), t1, 'the text names the coefficients', 1e-7, 1e-7)
    import copy
    for C in (copy.copy(A), copy.deepcopy(A)):
        require(C == A, 'copied object')
        close(C(x), fa, 'value of a copied object')
    require(not hasattr(A, 'nothing'), 'an attribute it does not have')
    other = wp.Cheb1d(c1, a, b + 1)
    require(other != A and not (other == A), 'equality over another interval')
    same = np.array_equal(t1c, t2)
    require((A == B) == same and (A != B) == (not same), 'equality of %s and %s' % (c1, c2))
    return rnd((A + B)(x))


def f_chebpoly(case):
    n, kind = case
    tick(3)
    p = wp.chebpoly(n, kind=kind)
    x = np.linspace(-1, 1, 9)
    close(np.polyval(p, x), T(n, x, kind), 'chebpoly coefficients', 1e-8, 1e-8)
    close(wp.chebpoly(n, x, kind=kind), T(n, x, kind), 'chebpoly values', 1e-9, 1e-9)
    if n:
        r = wp.chebroot(n, kind)
        close(T(n, r, kind), 0 * r, 'roots', 1e-8, 1e-8)
        require(len(r) == n and np.all(np.diff(r) > 0) and np.all(abs(r) < 1), 'chebroot: increasing, inside (-1,1)')
        e = wp.chebextr(n)
        close(abs(T(n, e)), np.ones(n + 1), 'extrema', 1e-8, 1e-8)
        require(len(e) == n + 1 and np.all(np.diff(e) > 0), 'chebextr increasing')
    return rnd(p)


def f_chebnd(case):
    deg, idx, dom = case
    d = len(deg)
    c = np.zeros([k + 1 for k in deg])
    for k, i in enumerate(idx):
        c[tuple(i)] = 1.0 + k
    lims = [(-1.0, 1.0)] * d if dom is None else [tuple(dom[2 * i:2 * i + 2]) for i in range(d)]

    def fun(*X):
        s = 0
        for i in itertools.product(*[range(k + 1) for k in deg]):
            if c[i]:
                s = s + c[i] * np.prod([T(i[j], (2 * X[j] - sum(lims[j])) / (lims[j][1] - lims[j][0])) for j in range(d)], axis=0)
        return s + 0 * X[0]
    tick(4)
    got = wp.chebfit_dct(fun, n=[k + 1 for k in deg], domain=dom)
    close(got, c, 'chebfit_dct in %d dimensions' % d)
    got = wp.chebfit_dct(lambda *X: X[-1] * fun(*X[:-1]), n=[k + 1 for k in deg], domain=dom, args=(2.0,))
    close(got, 2 * c, 'chebfit_dct with extra arguments')
    xs = [np.array([l[0], 0.3 * l[0] + 0.7 * l[1], l[1]]) for l in lims]
    X = np.meshgrid(*xs)
    Y = [wp.map_from_interval(v, *l) for v, l in zip(X, lims)]
    close(wp.chebvalnd(c, *Y), fun(*X), 'chebvalnd')
    G = wp.chebgridnd(c, *[wp.map_from_interval(v, *l) for v, l in zip(xs, lims)])
    close(G, fun(*np.meshgrid(*xs, indexing='ij')), 'chebgridnd')
    if d > 1:
        pts = np.meshgrid(*[np.linspace(-1, 1, k + 2) for k in deg])
        Z = [wp.map_to_interval(v, *l) for v, l in zip(pts, lims)]
        f = fun(*Z)
        close(wp.chebfitnd(pts, f, deg), c, 'chebfitnd', 1e-8, 1e-8)
        w = 1.0 + np.arange(f.size) % 3
        close(wp.chebfitnd(pts, f, deg, w=w), c, 'weighted chebfitnd', 1e-8, 1e-8)
        # an inexact, weighted fit is the weighted least squares solution
        g = f + 0.1 * (-1.0) ** np.arange(f.size).reshape(f.shape)
        V = np.array([np.prod([T(i[j], pts[j].ravel()) for j in range(d)], axis=0) for i in itertools.product(*[range(k + 1) for k in deg])]).T
        ref = np.linalg.lstsq(V * w[:, None], g.ravel() * w, rcond=None)[0].reshape(c.shape)
        close(wp.chebfitnd(pts, g, deg, w=w), ref, 'weighted least squares', 1e-7, 1e-7)
        close(wp.chebvandernd(deg, *pts).reshape(-1, V.shape[1]), V, 'chebvandernd')
    return rnd(got)


def f_idct(case):
    x = np.array(case, float)
    n = len(x)
    tick(2)
    k, j = np.arange(n)[:, None], np.arange(n)
    D = 2 * np.cos(np.pi * k * (2 * j + 1) / (2.0 * n))
    close(wp.dct(x), D.dot(x), 'dct')
    close(wp.idct(wp.dct(x)), x, 'idct undoes dct')
    return rnd(wp.dct(x))


def f_pade(case):
    c, m = case
    p, q = wp.padefit([float(v) for v in c], m)
    mm = m if m else (len(c) - 1) // 2
    # q*series - p vanishes to the order of the number of coefficients
    N = len(c)
    P, Q, S = np.asarray(p.coeffs)[::-1], np.asarray(q.coeffs)[::-1], np.array(c[::-1], float)
    tick()
    require(len(Q) <= mm + 1, 'degree of the denominator')
    require(len(P) <= N - mm, 'degree of the numerator')
    r = np.convolve(Q, S)[:N]
    r[:len(P)] -= P
    close(r, np.zeros(N), 'Pade approximant matches the series', 1e-7, 1e-7)
    return rnd(P)


def f_padelsq(case):
    num, den, a, b, form = case
    f = lambda x: np.polyval(num, x) / np.polyval(den, x)
    m, k = len(num) - 1, len(den) - 1
    tick()
    if form == 'fun':
        p, q = wp.padefitlsq(f, m, k, a, b)
    elif form == 'roots':
        p, q = wp.padefitlsq(f, m, k, a, b, end_points=False)
    else:
        x = np.linspace(a, b, form)
        p, q = wp.padefitlsq(f(x), m, k, a, b, x=x)
    x = np.linspace(a, b, 11)
    close(p(x) / q(x), f(x), 'rational function reproduced', 1e-6, 1e-6)
    return rnd(p(x) / q(x), 4)


def groups(tier):
    t = tier == 'thorough'
    L = (-2, -1, 0, 1, 2, 3) if t else (-1, 0, 1, 2)
    polys = [list(c) for n in ((1, 2, 3, 4, 5) if t else (1, 2, 3, 4)) for c in itertools.product(L, repeat=n)]
    power = [[p, m, f] for p in polys for m in (0, 1, 2, 3) for f in ('float', 'int', 'poly1d', 'list')]
    matrix = [[[a, b], m] for n in (2, 3) for a in itertools.product((0, 1, -2), repeat=n) for b in itertools.product((0, 3, 1), repeat=n) for m in (0, 1, 2)]
    move = [[p, x, y, f] for p in polys for x in (-2, -0.5, 1, 3) for y in (0, -1, 0.5, 2) for f in ('float', 'int', 'poly1d')]
    shift = [[p, a, b] for p in polys for a, b in ((-1, 1), (0, 1), (0, 5), (-2, 0.5), (2, 3), (-1.5, 1))]
    strs = [[p, v] for p in [list(c) for n in (1, 2, 3, 4, 5) for c in itertools.product((-1, 0, 1, 2.5), repeat=n)] +
            [[0.125, -3.25, 0], [12345.0, 1], [0, -7, 20, 0, 0, 0], [1, 0, 0, 0, 0, 0, -1]] for v in ('x', 's')]
    trims = [list(c) for n in range(0, 7) for c in itertools.product((0, 1, -2), repeat=n) if n]
    xs = [[0, 1, 2, 3, 4, 5], [-1, -0.5, 0.25, 0.5, 2, 3], [3, 1, 2, 0, 5, 4], [0, 0, 1, 1, 2, 3]]
    ort = [[x, list(y), n] for x in xs for y in itertools.product((0, 1, -1), repeat=6) for n in (0, 1, 2, 3)]
    pd = [[list(range(N)), list(y)] for N in (4, 5, 6, 7) for y in itertools.product((0, 1, 3), repeat=N) if len(set(y)) > 1] if t else \
        [[list(range(N)), list(y)] for N in (4, 5, 6) for y in itertools.product((0, 1, 3), repeat=N) if len(set(y)) > 1]
    for deg in range(5):
        pd.append([list(range(20)), [round(0.01 * i ** deg + 0.5 * math.sin(7 * i), 6) for i in range(20)]])
    cks = [list(c) for n in ((1, 2, 3, 4, 5, 6) if t else (1, 2, 3, 4, 5)) for c in itertools.product((-1, 0, 2), repeat=n)]
    cheb = [[c, a, b, f] for c in cks for a, b in ((-1, 1), (0, 2), (-3, 1.5)) for f in ('float', 'int', 'list')]
    c1 = [[list(a), list(b), lo, hi] for n in (1, 2, 3) for m in (1, 2, 3) for a in itertools.product((-1, 0, 2), repeat=n)
          for b in itertools.product((0, 1), repeat=m) for lo, hi in ((-1, 1), (0, 2))]
    cp = [[n, k] for n in range(0, 13) for k in (1, 2)]
    nd = []
    for deg in ([2], [4], [2, 3], [3, 1], [1, 1], [0, 2], [2, 1, 3], [1, 2, 0], [1, 1, 1, 2]):
        full = list(itertools.product(*[range(k + 1) for k in deg]))
        for dom in (None, [v for i in range(len(deg)) for v in (0.0 - i, 2.0 + i)]):
            for i in full:
                nd.append([deg, [list(i)], dom])
            nd.append([deg, [list(i) for i in full], dom])
    idc = [list(c) for n in (1, 2, 3, 4, 5) for c in itertools.product((0, 1, -2), repeat=n)]
    ser = [[1 / math.factorial(k) for k in range(n)][::-1] for n in (3, 4, 5, 6, 7)] + \
        [[(-1.0) ** k / (k + 1) for k in range(n)][::-1] for n in (3, 4, 5, 6, 7)]
    pad = [[c, m] for c in ser for m in (None, 1, 2, 3) if m is None or m <= len(c) - 1 - m + 1 and m < len(c) - 1]
    rat = [[n, d, a, b, f] for n in ([1.0, 2.0], [2.0, -1.0, 3.0], [0.5, 0.0, 1.0]) for d in ([0.25, 1.0], [0.1, -0.2, 1.0])
           for a, b in ((-1, 1), (0, 2)) for f in ('fun', 'roots', 50, 80)]
    return [Group('power-form', power, f_power), Group('matrices', matrix, f_matrix), Group('move-scale', move, f_move),
            Group('interval-shift', shift, f_shift), Group('strings', strs, f_str), Group('trim', trims, f_trim),
            Group('orthogonal', ort, f_ortho), Group('degree-choice', pd, f_polydeg), Group('chebyshev', cheb, f_cheb),
            Group('cheb1d', c1, f_cheb1d), Group('chebyshev-polynomials', cp, f_chebpoly), Group('chebyshev-nd', nd, f_chebnd),
            Group('dct', idc, f_idct), Group('pade', pad, f_pade), Group('rational-fit', rat, f_padelsq)]
