"""P24 Padua points: bivariate interpolation, evaluation and cubature."""
import itertools
import math
import numpy as np
from vk import Group, Fail, tick
from ref import close, require
import wafo.padua as pd

PROPERTY = 'P24'
ASSUMPTIONS = ['degrees up to 12 (20 thorough), rectangles from a grid of limits; the reference polynomials are products of Chebyshev polynomials '
               'and monomials, which span every polynomial of the stated total degree']

DOMS = [(-1, 1, -1, 1), (0, 1, 0, 1), (0, 2, 1, 4), (-3, -1, 2, 2.5), (10, 14, -5, 5), (-0.25, 0.5, 0, 8)]


def unit(v, a, b):
    return (2 * np.asarray(v, float) - (a + b)) / (b - a)


def cheb(k, t):
    """T_k(t) by the three term recurrence"""
    p0, p1 = np.ones_like(t), t
    if k == 0:
        return p0
    for _ in range(k - 1):
        p0, p1 = p1, 2 * t * p1 - p0
    return p1


def f_points(case):
    n, dom = case
    a, b, c, d = dom
    P = np.asarray(pd.padua_points(n, dom))
    N = (n + 1) * (n + 2) // 2
    require(P.shape == (2, N), 'degree %d gives %r points' % (n, P.shape))
    tick(N)
    x, y = unit(P[0], a, b), unit(P[1], c, d)
    require(np.all(np.abs(x) <= 1 + 1e-12) and np.all(np.abs(y) <= 1 + 1e-12), 'a point lies outside the domain')
    pts = sorted(zip(np.round(x, 9), np.round(y, 9)))
    require(len(set(pts)) == N, 'points are repeated')
    # the points are the self-intersections and boundary contacts of T_{n+1}(x) = +-T_n(y)-type curve:
    # every point is on the grid of n+1 by n+2 Chebyshev-Lobatto nodes
    if n > 0:
        gx = np.round(n * np.arccos(np.clip(x, -1, 1)) / np.pi, 6)
        gy = np.round((n + 1) * np.arccos(np.clip(y, -1, 1)) / np.pi, 6)
        # arccos is ill conditioned close to +-1, hence the tolerance
        require(np.all(np.abs(gx - np.round(gx)) < 1e-4) and np.all(np.abs(gy - np.round(gy)) < 1e-4), 'a point is not a node of the Chebyshev grid')
        par = (np.round(gx) + np.round(gy)).astype(int) % 2
        require(np.all(par == par[0]), 'the points do not form one Padua lattice')
    ref = np.asarray(pd.padua_points(n))
    close(P[0], (a + b) / 2.0 + (b - a) / 2.0 * ref[0], 'abscissae mapped from the square', 1e-12, 1e-12)
    close(P[1], (c + d) / 2.0 + (d - c) / 2.0 * ref[1], 'ordinates mapped from the square', 1e-12, 1e-12)


def probes(dom, m=4):
    a, b, c, d = dom
    t = np.array([0, 0.137, 0.5, 0.81, 1.0])[:m + 1]
    return np.meshgrid(a + (b - a) * t, c + (d - c) * t)


def chebint(k):
    return 0.0 if k % 2 else 2.0 / (1 - k * k)


def f_fit(case):
    n, i, j, di = case
    dom = DOMS[di]
    a, b, c, d = dom

    def fun(x, y):
        return cheb(i, unit(x, a, b)) * cheb(j, unit(y, c, d))
    P = pd.padua_points(n, dom)
    keep = P.copy()
    C, err = pd.padua_fit(P, fun)
    C = np.asarray(C)
    require(np.array_equal(P, keep), 'the points were changed')
    require(C.shape == (n + 1, n + 1), 'coefficients of degree %d have shape %r' % (n, C.shape))
    require(np.isfinite(err) and err >= 0, 'error estimate %r' % (err,))
    # interpolation at the points themselves, whatever the function
    close(pd.padua_val(P[0], P[1], C, dom), fun(P[0], P[1]), 'value at the nodes', 1e-7, 1e-7)
    tick(2)
    X, Y = probes(dom)
    if i + j <= n:
        want = fun(X, Y)
        got = pd.padua_val(X, Y, C, dom)
        require(np.shape(got) == X.shape, 'padua_val changed the shape')
        close(got, want, 'polynomial of degree %d reproduced by degree %d' % (i + j, n), 1e-8, 1e-8)
        xs, ys = X[0], Y[:3, 0]
        got = pd.padua_val(xs, ys, C, dom, use_meshgrid=True)
        xm, ym = np.meshgrid(xs, ys)
        close(got, fun(xm, ym), 'use_meshgrid', 1e-8, 1e-8)
        close(np.asarray(pd.padua_val(float(xs[1]), float(ys[1]), C, dom)).ravel(), [float(fun(xs[1], ys[1]))], 'scalar point', 1e-8, 1e-8)
        want = chebint(i) * chebint(j) * (b - a) * (d - c) / 4.0
        close(pd.padua_cubature(C, dom), want, 'cubature of degree %d' % (i + j), 1e-9, 1e-10 * (b - a) * (d - c))
        tick(3)
        # coefficient of the orthonormal Chebyshev product basis
        E = np.zeros((n + 1, n + 1))
        E[i, j] = (1 if i == 0 else 2 ** -0.5) * (1 if j == 0 else 2 ** -0.5)
        close(C, E, 'expansion coefficients of T%d(x)T%d(y)' % (i, j), 1e-9, 1e-10)
    else:
        # the interpolant is a polynomial of total degree n: refitting it gives it back
        C2, _ = pd.padua_fit(P, lambda x, y: pd.padua_val(x, y, C, dom))
        close(C2, C, 'interpolating the interpolant', 1e-7, 1e-8)
        tick(1)


def f_lin(case):
    """linearity, extra arguments, functions with other names"""
    n, di, ia, ib = case
    dom = DOMS[di]
    a, b, c, d = dom
    fs = [lambda x, y: np.exp(unit(x, a, b) * unit(y, c, d)), lambda x, y: np.sin(2 * unit(x, a, b)) + unit(y, c, d) ** 3,
          lambda x, y: np.abs(unit(x, a, b) - 0.1), lambda x, y: np.ones(np.shape(x))]
    P = pd.padua_points(n, dom)
    f, g = fs[ia], fs[ib]
    C1 = pd.padua_fit(P, f)[0]
    C2 = pd.padua_fit(P, g)[0]
    C3 = pd.padua_fit(P, lambda x, y, u, v: u * f(x, y) + v * g(x, y), 2.0, -0.75)[0]
    close(C3, 2.0 * np.asarray(C1) - 0.75 * np.asarray(C2), 'the fit is linear in the function', 1e-9, 1e-10)
    close(pd.padua_cubature(C3, dom), 2.0 * pd.padua_cubature(C1, dom) - 0.75 * pd.padua_cubature(C2, dom), 'cubature is linear', 1e-9, 1e-9)
    X, Y = probes(dom)
    V = pd.padua_val(X, Y, C3, dom)
    for k in np.ndindex(X.shape):
        close(np.ravel(pd.padua_val(X[k], Y[k], C3, dom)), [V[k]], 'one point at a time', 1e-10, 1e-10)
        tick(1)
    close(pd.padua_val(X.T, Y.T, C3, dom), V.T, 'order of the points', 1e-12, 1e-12)
    # splitting the rectangle in two: the degree n fits integrate a degree n polynomial the same
    if n >= 1:
        q = lambda x, y: unit(x, a, b) ** (n // 2) * unit(y, c, d) ** (n - n // 2) + 1
        whole = pd.padua_cubature(pd.padua_fit(P, q)[0], dom)
        m = a + 0.3 * (b - a)
        parts = 0.0
        for sub in ((a, m, c, d), (m, b, c, d)):
            parts += pd.padua_cubature(pd.padua_fit(pd.padua_points(n, sub), q)[0], sub)
        close(parts, whole, 'integral over the two parts of the domain', 1e-9, 1e-9)
        tick(2)


def f_conv(case):
    """convergence for entire functions and error shrinking with the degree"""
    k, di = case
    dom = DOMS[di]
    a, b, c, d = dom
    f, I = [(lambda u, v: np.exp(u + v), (math.e - 1 / math.e) ** 2), (lambda u, v: np.cos(u) * np.sin(v) ** 2, 2 * math.sin(1) * (1 - math.sin(2) / 2)),
            (lambda u, v: np.exp(u) * np.cos(v), (math.e - 1 / math.e) * 2 * math.sin(1)), (lambda u, v: 1 / (3 + u), 2 * math.log(2.0))][k]
    fun = lambda x, y: f(unit(x, a, b), unit(y, c, d))
    X, Y = probes(dom)
    prev = None
    for n in (2, 6, 12, 20):
        C, err = pd.padua_fit(pd.padua_points(n, dom), fun)
        e = float(np.max(np.abs(pd.padua_val(X, Y, C, dom) - fun(X, Y))))
        require(prev is None or e <= prev * 0.5 + 1e-12, 'degree %d: error %g after %r' % (n, e, prev))
        prev = e
        tick(1)
    require(prev < 1e-9, 'degree 20 error %g' % prev)
    close(pd.padua_cubature(C, dom), I * (b - a) * (d - c) / 4.0, 'integral', 1e-9, 1e-10)


def groups(tier):
    T = tier == 'thorough'
    N = 20 if T else 12
    G = [Group('points', [(n, dm) for n in range(0, 41 if T else 31) for dm in DOMS], f_points, chunk=8,
               note='degree 0..30 (40 thorough) x 6 rectangles: number, distinctness, containment, lattice')]
    cases = [(n, i, j, di) for n in range(N + 1) for i in range(n + 3) for j in range(n + 3) if i + j <= n + 2 for di in ((range(6)) if T or n <= 7 else (0, 2, 3))]
    G.append(Group('products', cases, f_fit, chunk=16, note='every Chebyshev product of total degree up to n+2 for every degree n: reproduction, nodes, coefficients, cubature'))
    G.append(Group('linear', [(n, di, i, j) for n in range(0, N + 1) for di in range(6) for i in range(4) for j in range(4)], f_lin, chunk=8,
                   note='linearity, extra arguments, pointwise evaluation, splitting of the domain'))
    G.append(Group('entire', [(k, di) for k in range(4) for di in range(6)], f_conv, chunk=4, note='analytic functions: decreasing error, integrals'))
    return G
