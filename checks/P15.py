"""P15 Kernel density estimation, kernel regression, binning and accumulation."""
import itertools
import math
import numpy as np
from scipy import optimize
from vk import Group, Fail, tick
from ref import close, require, rnd, words
from wafo.kdetools import gridding as wg
from wafo.kdetools import kernels as wk
from wafo.kdetools import KDE, TKDE, KRegression, BKRegression, Kernel

PROPERTY = 'P15'
ASSUMPTIONS = ['equidistant grids for the binned estimates',
               'bandwidth selectors on data with positive spread']


# ------------------------------------------------------------------ reference
def ball(d):
    return math.pi ** (d / 2.) / math.gamma(d / 2. + 1)


def kern(name, u):
    """normalised kernel at u (d x m)"""
    u = np.atleast_2d(np.asarray(u, float))
    d = u.shape[0]
    a = np.abs(u)
    if name in ('epan', 'biwe', 'triw'):
        p = {'e': 1, 'b': 2, 't': 3}[name[0]]
        c = 2.0 ** p * math.factorial(p) * ball(d) / np.prod([d + 2 * j for j in range(1, p + 1)])
        return np.maximum(1 - (u ** 2).sum(0), 0) ** p / c
    if name in ('p1ep', 'p1bi', 'p1tr'):
        p = {'e': 1, 'b': 2, 't': 3}[name[2]]
        c = {1: 4 / 3., 2: 16 / 15., 3: 32 / 35.}[p]
        return np.prod(np.maximum(1 - u ** 2, 0) ** p / c, axis=0)
    if name == 'rect':
        return np.prod((a <= 1) * 0.5, axis=0)
    if name == 'tria':
        return np.prod(np.maximum(1 - a, 0), axis=0)
    if name == 'lapl':
        return np.prod(0.5 * np.exp(-a), axis=0)
    if name == 'logi':
        return np.prod(0.25 / np.cosh(u / 2) ** 2, axis=0)
    return np.prod(np.exp(-0.5 * u ** 2) / math.sqrt(2 * np.pi), axis=0)


KN = ['epan', 'biwe', 'triw', 'p1ep', 'p1bi', 'p1tr', 'rect', 'tria', 'lapl', 'logi', 'gaus']
FULL = dict(epan='epanechnikov', biwe='biweight', triw='triweight', p1ep='p1epanechnikov', p1bi='p1biweight',
            p1tr='p1triweight', rect='rectangular', tria='triangular', lapl='laplace', logi='logistic', gaus='gaussian')
SUPP = dict(lapl=40.0, logi=45.0, gaus=10.0)


def kde_ref(name, X, h, pts, lam=None, w=None, r=0):
    """direct sum over the data; h scalar, vector or matrix"""
    X, pts = np.atleast_2d(np.asarray(X, float)), np.atleast_2d(np.asarray(pts, float))
    d, n = X.shape
    h = np.asarray(h, float)
    H = h if h.ndim == 2 else np.diag(h * np.ones(d))
    Hi = np.linalg.inv(H)
    lam = np.ones(n) if lam is None else lam
    w = np.ones(n) if w is None else np.asarray(w, float) * np.ones(n)
    out = np.zeros(pts.shape[1])
    for i in range(n):
        dx = pts - X[:, i:i + 1]
        mom = 1 if r == 0 else (dx ** r).sum(0)
        out += w[i] * mom * kern(name, Hi.dot(dx) / lam[i]) / lam[i] ** d
    return out / (n * np.linalg.det(H))


def bins(data, x, y):
    """linear binning on an equidistant grid; data d x n, x list of grids; axes swapped as meshgrid(indexing='xy')"""
    d, n = data.shape
    y = np.asarray(y, float) * np.ones(n)
    c = np.zeros([len(g) for g in x])
    for i in range(n):
        hats = []
        for k in range(d):
            hats.append(np.maximum(0, 1 - np.abs((data[k, i] - x[k]) / (x[k][1] - x[k][0]))))
        t = np.array(y[i])
        for hk in hats:
            t = np.multiply.outer(t, hk)
        c += t
    return np.swapaxes(c, 0, 1) if d > 1 else c


# ------------------------------------------------------------------ accumulation
FUN = dict(none=None, prod=np.prod, max=np.max, list_len=len, mean=np.mean)


def f_accum(case):
    idx, vals, fun, shape, fill = case
    accmap, a = np.array(idx), np.array(vals, float)
    keep = accmap.copy(), a.copy()
    m2 = accmap.reshape(a.shape + (-1,))
    k = m2.shape[-1]
    want_shape = tuple(shape) if shape else tuple(int(m2[..., j].max()) + 1 for j in range(k))
    F = FUN[fun] or np.sum
    want = np.full(want_shape, float(fill))
    groups_ = {}
    for pos in itertools.product(*[range(s) for s in a.shape]):
        groups_.setdefault(tuple(m2[pos]), []).append(a[pos])
    for key, v in groups_.items():
        want[key] = F(v)
    tick()
    got = wg.accum(accmap, a, func=FUN[fun], shape=shape, fill_value=fill)
    close(got, want, 'accum')
    require(np.array_equal(accmap, keep[0]) and np.array_equal(a, keep[1]), 'input modified')
    if fun == 'none' and fill == 0:
        if k == 1 and a.ndim == 1:
            tick()
            close(wg.accumsum(accmap, a, shape), want, 'accumsum')
        if k <= 2 and a.ndim == 1:
            tick()
            s = wg.accumsum_sparse(accmap, a, shape).toarray()
            close(s if k == 2 else s.ravel(), want, 'accumsum_sparse')
    return rnd(want)


def f_grid(case):
    data, grids, y, form = case
    D = np.array(data, float)
    D = D.reshape(len(grids), -1)
    x = [np.array(g, float) for g in grids]
    X = np.vstack(x)
    want = bins(D, x, y)
    if len(x) == 1:
        D = D.ravel() if 'd' in form else D
        X = X.ravel() if 'x' in form else X
    args = (D, X) + (() if y == 1 else (np.array(y, float) if isinstance(y, list) else y,))
    keep = [np.array(v) for v in args]
    tick()
    got = wg.gridcount(*args)
    require(all(np.shape(k) == np.shape(v) and np.array_equal(k, v) for k, v in zip(keep, args)), 'input modified')
    close(got, want, 'gridcount')
    tot = D.size // len(x) if y == 1 else float(np.sum(np.asarray(y) * np.ones(D.size // len(x))))
    close(np.sum(got), tot, 'mass')
    return rnd(want)


def f_gridbad(case):
    data, grid = case
    tick()
    try:
        wg.gridcount(np.array(data, float), np.array(grid, float))
    except ValueError:
        return 'ValueError'
    raise Fail('data outside the grid accepted')


# ------------------------------------------------------------------ kernels
XG, WG = np.polynomial.legendre.leggauss(60)


def quad(f, a, b, n=40):
    e = np.linspace(a, b, n + 1)
    h = 0.5 * np.diff(e)[:, None]
    x = e[:-1, None] + h * (1 + XG)
    return float(np.sum(f(x.ravel()).reshape(x.shape) * WG * h))


def f_kernel(case):
    name, d, spell = case
    K = Kernel(FULL[name] if spell == 'full' else name)
    g = np.array([-1.7, -1.0, -0.6, -0.25, 0, 0.1, 0.5, 0.999, 1.0, 2.5])
    P = np.vstack([v.ravel() for v in np.meshgrid(*[g] * d)])
    keep = P.copy()
    tick(2)
    v = K(P) / K.norm_factor(d, P.shape[1])
    close(v, kern(name, P), 'kernel values')
    close(K.kernel.norm_kernel(P), kern(name, P), 'normalised kernel')
    close(wk.mkernel(P, name) / K.norm_factor(d, 5), kern(name, P), 'mkernel')
    require(np.array_equal(P, keep), 'input modified')
    close(K(-P), K(P), 'symmetry')
    require(K.name.lower().startswith(FULL[name][:6]), 'name %s' % K.name)
    s = SUPP.get(name, 1.0)
    mu2, R = K.stats()[:2]
    one = lambda x: kern(name, x[None, :])
    close(2 * quad(one, 0, s), 1.0, 'reference', 1e-6, 1e-6)
    close(2 * quad(lambda x: x * x * one(x), 0, s), mu2, 'second moment', 1e-6, 1e-6)
    close(2 * quad(lambda x: one(x) ** 2, 0, s), R, 'roughness', 1e-6, 1e-6)
    lo, hi = K.effective_support()
    require(lo == -hi and (hi >= 4 or hi == 1), 'support')
    close(wk.sphere_volume(d), ball(d), 'volume of the ball')
    close(wk.sphere_volume(d, 2.0), ball(d) * 2 ** d, 'volume of the ball')
    return rnd(v)


def f_deriv(case):
    t, numout = case
    tick()
    got = wk._GAUSS_KERNEL.deriv4_6_8_10(np.array(t, float), numout)
    t = np.array(t, float)
    for k, g in enumerate(got):
        c = np.zeros(2 * k + 5)
        c[-1] = 1
        close(g, np.polynomial.hermite_e.hermeval(t, c) * np.exp(-0.5 * t ** 2) / math.sqrt(2 * np.pi), 'derivative %d' % (2 * k + 4))
    require(len(got) == numout, 'count')
    return rnd(got[-1])


# ------------------------------------------------------------------ density estimates
def f_kde(case):
    name, data, h, alpha, pts = case
    X = np.array(data, float)
    hs = np.array(h, float) if isinstance(h, list) else h
    keep = X.copy(), np.array(hs)
    k = KDE(X, hs=hs, kernel=Kernel(name), alpha=alpha)
    P = np.array(pts, float)
    kp = P.copy()
    tick(2)
    lam = None
    if alpha:
        f = kde_ref(name, X, h, X)
        lam = (f / np.exp(np.mean(np.log(f)))) ** (-alpha)
    want = kde_ref(name, X, h, P, lam)
    close(k.eval_points(P), want, 'density at points')
    # many points: the other loop
    n = np.atleast_2d(X).shape[1]
    Q = np.tile(np.atleast_2d(P), (1, n + 1))
    close(k.eval_points(Q), np.tile(want, n + 1), 'density at many points')
    y = 1.0 + np.arange(n)
    for r in (0, 1, 2):
        tick(2)
        w = kde_ref(name, X, h, P, lam, y, r)
        close(k.eval_points(P, y=y, r=r), w, 'weighted moment %d' % r)
        close(k.eval_points(Q, y=y, r=r), np.tile(w, n + 1), 'weighted moment %d at many points' % r)
    require(np.array_equal(X, keep[0]) and np.array_equal(np.array(hs), keep[1]) and np.array_equal(P, kp), 'input modified')
    return rnd(want)


def fast_ref(name, X, h, x, y=1.0, r=0):
    X = np.atleast_2d(np.asarray(X, float))
    d, n = X.shape
    c = bins(X, x, y)
    G = np.vstack([g.ravel() for g in np.meshgrid(*x)])
    w = c.ravel()
    # binned counts sit at the grid nodes
    out = np.zeros(G.shape[1])
    H = np.asarray(h, float)
    H = H if H.ndim == 2 else np.diag(H * np.ones(d))
    Hi = np.linalg.inv(H)
    for j in np.flatnonzero(w):
        dx = G - G[:, j:j + 1]
        out += w[j] * kern(name, Hi.dot(dx)) * (1 if r == 0 else (dx ** r).sum(0))
    out /= n * np.linalg.det(H)
    inc = len(x[0])
    dx = np.array([g[1] - g[0] for g in x])
    L = np.vstack([v.ravel() for v in np.meshgrid(*[np.arange(-inc, inc) * s for s in dx])])
    mass = kern(name, Hi.dot(L)).sum() * dx.prod() / np.linalg.det(H)
    if abs(mass - 1) > 0.05:
        out /= mass
    if r == 0:
        out = np.maximum(out, 0)
    return out.reshape(np.meshgrid(*x)[0].shape), abs(abs(mass - 1) - 0.05) > 1e-6


def f_fast(case):
    name, data, h, xs, y, r = case
    X = np.array(data, float)
    x = [np.linspace(*g) for g in xs]
    k = KDE(X, hs=np.array(h, float) if isinstance(h, list) else h, kernel=Kernel(name))
    kw = {}
    if y is not None:
        kw['y'] = np.array(y, float)
    if r:
        kw['r'] = r
    keep = [g.copy() for g in x]
    tick(3)
    want, sure = fast_ref(name, X, h, x, 1.0 if y is None else y, r)
    got = k.eval_grid_fast(*x, **kw)
    if sure:
        close(got, want, 'binned density', 1e-8, 1e-9)
    full = k.eval_grid(*x, **kw)
    pts = np.vstack([g.ravel() for g in np.meshgrid(*x)])
    exact = kde_ref(name, X, h, pts, None, y, r)
    close(full, exact.reshape(want.shape), 'density on a grid')
    close(k(*x, **kw), exact.reshape(want.shape), 'density on a grid (call)')
    obj = k.eval_grid_fast(*x, output='data', **kw)
    close(obj.data, got, 'density object')
    A = obj.args if len(x) > 1 else [obj.args]
    for u, v in zip(A, x):
        close(u, v, 'arguments of the density object')
    require(all(np.array_equal(u, v) for u, v in zip(keep, x)), 'grid modified')
    return rnd(got)


def require_levels(pdf, cell, levels, p, tol):
    """the region where the density exceeds a level holds that percentage of the mass"""
    o = np.argsort(-pdf.ravel(), kind='stable')
    z, c = pdf.ravel()[o], np.cumsum(cell.ravel()[o] * pdf.ravel()[o])
    c = c / c[-1] * 100
    tol += np.diff(c, prepend=0).max()          # sampling of the density
    require(np.all(np.diff(np.asarray(levels)[np.argsort(p)]) <= 1e-12), 'levels do not decrease')
    for lev, q in zip(levels, p):
        above, atleast = c[z > lev], c[z >= lev]
        lo, hi = (above[-1] if len(above) else 0.0), (atleast[-1] if len(atleast) else 0.0)
        require(lo - tol <= q <= hi + tol, 'the region above the level of %g %% holds %g to %g %%' % (q, lo, hi))


def f_levels(case):
    weights, grid, scale, p, dim = case
    n = 301
    u = np.linspace(-1, 1, n)
    x = 6 * (u if grid == 'even' else u * np.abs(u) if grid == 'dense' else (np.exp(u) - np.exp(-1)) / np.sinh(1) - 1)

    def bump(v):
        return sum(w * np.exp(-0.5 * ((v - m) / s) ** 2) / s for w, m, s in zip(weights, (-2.5, 0.0, 2.0), (0.5, 1.0, 0.8)))

    def cells(v):
        d = np.diff(v) / 2
        return np.r_[0, d] + np.r_[d, 0]
    keep = list(p)
    tick()
    if dim == 1:
        pdf, cell = scale * bump(x), cells(x)
        lev = wk.qlevels(pdf, p=p, xi=() if grid == 'even' else (x,))
        if grid == 'even':
            cell = np.ones(n)
    else:
        a, b = x[::5], x[::4] / 2
        A, B = np.meshgrid(a, b, indexing=dim)
        pdf = scale * bump(A) * np.exp(-B ** 2)
        cell = np.prod(np.meshgrid(cells(a), cells(b), indexing=dim), axis=0)
        lev = wk.qlevels(pdf, p=p, xi=(a, b), indexing=dim)
    require(p == keep, 'input modified')
    require_levels(pdf, cell, lev, p, 1.5 if dim == 1 else 0.8)
    return rnd(lev)


def f_contours(case):
    """a two-dimensional density object carries the levels enclosing 10 ... 99.9 percent"""
    data, h, inc, binned = case
    k = KDE(np.array(data, float), hs=h, inc=inc)
    tick()
    obj = (k.eval_grid_fast if binned else k.eval_grid)(output='data')
    require(obj.data.shape == (inc, inc) and len(obj.args) == 2, 'shape')
    require([float(v) for v in obj.plevels] == [10, 30, 50, 70, 95, 99, 99.9], 'percentages')
    require_levels(np.asarray(obj.data), np.ones((inc, inc)), obj.clevels, list(obj.plevels), 1.5)
    for extra in (0.0, 1.0, 2.5):
        tick(2)
        lo, hi = np.asarray(k.xmin) - extra, np.asarray(k.xmax) + extra
        for g, a, b in zip(k.get_args(lo, hi), lo, hi):
            close(g, np.linspace(a, b, inc), 'widened grid')
        for g, a, b in zip(k.get_args(lo + 2 * extra, hi - 2 * extra), k.xmin, k.xmax):
            close(g, np.linspace(a, b, inc), 'a grid is never narrowed')
    require(not hasattr(KDE(np.array(data[0], float), hs=h, inc=16).eval_grid(output='data'), 'clevels'), 'levels of a curve')
    return rnd(obj.clevels)


def f_grid_default(case):
    name, data, h, inc, xmin, xmax = case
    X = np.array(data, float)
    k = KDE(X, hs=h, kernel=Kernel(name), inc=inc, xmin=xmin, xmax=xmax)
    sg = min(np.std(X, ddof=1), (np.percentile(X, 75) - np.percentile(X, 25)) / 1.34)
    lo = X.min() - 2 * sg if xmin is None else xmin
    hi = X.max() + 2 * sg if xmax is None else xmax
    x = np.linspace(lo, hi, inc)
    tick(2)
    close(k.eval_grid(), kde_ref(name, X, h, x), 'density on the default grid')
    close(np.asarray(k.args).ravel(), x, 'default grid')
    close(k.eval_grid_fast(), fast_ref(name, X, h, [x])[0], 'binned density on the default grid', 1e-8, 1e-9)
    return rnd(k.eval_grid())


def trans(v, L):
    return np.log(v) if L == 0 else np.asarray(v, float) ** L


def f_tkde(case):
    name, data, h, L2, alpha, pts, integer = case
    X = np.array(data, int if integer else float)
    P = np.array(pts, float)
    keep = X.copy(), P.copy()
    k = TKDE(X, hs=h, kernel=Kernel(name), alpha=alpha, L2=L2)
    X2, P2 = np.atleast_2d(X).astype(float), np.atleast_2d(P)
    d = X2.shape[0]
    Ls = [1.0] * d if L2 is None else (np.atleast_1d(L2) * np.ones(d)).tolist()
    tX = np.vstack([trans(X2[i], Ls[i]) for i in range(d)])

    def dens(p, y=None, r=0):
        tp = np.vstack([trans(p[i], Ls[i]) for i in range(d)])
        lam = None
        if alpha:
            f = kde_ref(name, tX, h, tX)
            lam = (f / np.exp(np.mean(np.log(f)))) ** (-alpha)
        f = kde_ref(name, tX, h, tp, lam, y, r)
        for i in range(d):
            if Ls[i] != 1:
                f = f * p[i] ** (Ls[i] - 1) * (abs(Ls[i]) if Ls[i] else 1)
        return f
    tick(2)
    close(k.eval_points(P), dens(P2), 'transformed density at points')
    n = X2.shape[1]
    y = 1.0 + np.arange(n)
    close(k.eval_points(P, y=y), dens(P2, y), 'weighted transformed density')
    if d == 1:
        x = np.sort(P2.ravel())
        close(k.eval_grid(x), dens(x[None, :]), 'transformed density on a grid')
        if not alpha:
            kf = TKDE(X, hs=h, kernel=Kernel(name), alpha=alpha, L2=L2, inc=2048)
            tick()
            full = dens(x[None, :])
            if L2 is not None and name in ('gaus', 'triw') and max(abs(v) for v in Ls) <= 1 and len(x) > 2:
                close(kf.eval_grid_fast(x), full, 'binned transformed density', 0.03, 0.03 * full.max())
    else:
        g = [np.sort(v) for v in P2]
        G = np.meshgrid(*g)
        want = dens(np.vstack([v.ravel() for v in G])).reshape(G[0].shape)
        close(k.eval_grid(*g), want, 'transformed density on a grid')
    require(np.array_equal(X, keep[0]) and np.array_equal(P, keep[1]), 'input modified')
    return rnd(dens(P2))


def f_reg(case):
    name, data, y, p, h, L2, xs, how = case
    X, Y, x = np.array(data, float), np.array(y, float), np.linspace(*xs)
    k = KRegression(X, Y, p=p, hs=h, kernel=Kernel(name), L2=L2)
    keep = X.copy(), Y.copy(), x.copy()
    t = X if L2 is None else trans(X, L2)
    tx = x if L2 is None else trans(x, L2)
    s = lambda r, w=None: kde_ref(name, t, h, tx, None, w, r)
    if how == 'fast':
        f = lambda r, w=None: fast_ref(name, X, h, [x], 1.0 if w is None else w, r)[0]
        s0, t0, s1, s2, t1 = f(0), f(0, Y), f(1), f(2), f(1, Y)
        tick()
        got = k.eval_grid_fast(x)
    else:
        s0, t0, s1, s2, t1 = s(0), s(0, Y), s(1), s(2), s(1, Y)
        tick()
        got = k.eval_grid(x)
    if p == 0:
        ok = s0 > 1e-8 * s0.max()
        want = t0[ok] / s0[ok]
    else:
        den = s2 * s0 - s1 ** 2
        ok = den > 1e-6 * np.max(den)
        want = (s2 * t0 - s1 * t1)[ok] / den[ok]
    close(np.asarray(got)[ok], want, 'kernel regression', 1e-5, 1e-6)
    if p == 0 and np.all(Y == Y[0]):
        close(np.asarray(got)[ok], np.full(ok.sum(), Y[0]), 'constant data', 1e-6, 1e-6)
    if p == 1 and L2 is None and how != 'fast' and np.ptp(np.polyval(np.polyfit(X, Y, 1), X) - Y) < 1e-9:
        close(np.asarray(got)[ok], np.polyval(np.polyfit(X, Y, 1), x[ok]), 'affine data', 1e-6, 1e-6)
    require(np.array_equal(X, keep[0]) and np.array_equal(Y, keep[1]) and np.array_equal(x, keep[2]), 'input modified')
    return rnd(got[ok])


def f_regfast_t(case):
    """binned regression of transformed data agrees with the direct one up to discretisation"""
    data, y, L2, h = case
    X, Y = np.array(data, float), np.array(y, float)
    x = np.linspace(X.min(), X.max(), 9)[1:-1]
    k = KRegression(X, Y, p=0, hs=h, L2=L2, inc=1024)
    tick(2)
    a, b = k.eval_grid_fast(x), k.eval_grid(x)
    close(a, b, 'binned regression', 0.03, 0.03 * np.abs(Y).max())
    return rnd(b)


# ------------------------------------------------------------------ histories
def f_hist(case):
    """a sequence of operations on one estimator; every answer equals that of a fresh one with the current bandwidth"""
    cls, ops = case
    X = np.array([0.5, 1.0, 1.25, 2.0, 3.5, 4.0])
    mk = {'KDE': lambda h: KDE(X, hs=h), 'TKDE': lambda h: TKDE(X, hs=h, L2=0.5), 'TKDE0': lambda h: TKDE(X, hs=h)}[cls]
    k, h = mk(0.5), 0.5
    x = np.linspace(0.2, 5, 12)
    out = []
    for op in ops:
        tick()
        if op.startswith('h'):
            h = float(op[1:])
            k.hs = h
        else:
            f = mk(h)
            if op == 'p':
                a, b = k.eval_points(x), f.eval_points(x)
            elif op == 'g':
                a, b = k.eval_grid(x), f.eval_grid(x)
            elif op == 'f':
                a, b = k.eval_grid_fast(x), f.eval_grid_fast(x)
            else:
                a, b = k.eval_grid_fast(), f.eval_grid_fast()
            close(a, b, 'after %s' % ops)
            out.append(rnd(a))
        require(float(np.ravel(k.hs)[0]) == h, 'bandwidth')
    return out


# ------------------------------------------------------------------ bandwidth selection
def deriv(t, r):
    c = np.zeros(r + 1)
    c[-1] = 1
    return (-1) ** r * np.polynomial.hermite_e.hermeval(t, c) * np.exp(-0.5 * t ** 2) / math.sqrt(2 * np.pi)


def psi_ns(r, s):
    return (-1) ** (r // 2) * math.factorial(r) / ((2 * s) ** (r + 1) * math.factorial(r // 2) * math.sqrt(np.pi))


class BW(object):
    def __init__(self, name, data):
        self.name, self.a = name, np.asarray(data, float)
        self.n = n = len(self.a)
        st = {'epan': (1 / 5., 3 / 5.), 'biwe': (1 / 7., 5 / 7.), 'triw': (1 / 9., 350 / 429.), 'rect': (1 / 3., 1 / 2.),
              'tria': (1 / 6., 2 / 3.), 'lapl': (2, 1 / 4.), 'logi': (np.pi ** 2 / 3, 1 / 6.), 'gaus': (1, 1 / (2 * math.sqrt(np.pi)))}
        mu2, R = st[name[:4] if name[0] != 'p' else {'e': 'epan', 'b': 'biwe', 't': 'triw'}[name[2]]]
        self.ste, self.amise = R / (n * mu2 ** 2), (8 * math.sqrt(np.pi) * R / (3 * mu2 ** 2 * n)) ** 0.2
        self.ste2 = 1 / (2 * math.sqrt(np.pi)) / n
        sd, iq = np.std(self.a, ddof=1), np.percentile(self.a, 75) - np.percentile(self.a, 25)
        self.s = min(sd, iq / 1.349) if iq > 0 else sd
        off = (self.a.max() - self.a.min()) / 8
        self.lo, self.hi = self.a.min() - off, self.a.max() + off

    def grid(self, inc):
        x = np.linspace(self.lo, self.hi, inc)
        return x, bins(self.a[None, :], [x], 1)

    def psi(self, x, c, g, r):
        return c.dot(deriv((x[:, None] - x) / g, r)).dot(c) / (self.n ** 2 * g ** (r + 1))

    def g(self, k, psi, order):
        return (-2 * k / (psi * self.n)) ** (1. / (order + 1))

    def hns(self):
        return self.s * self.amise

    def hos(self):
        return self.hns() / 0.93

    def hldpi(self, L=2):
        x, c = self.grid(128)
        psi = psi_ns(2 * L + 4, self.s)
        for ix in range(L, 0, -1):
            psi = self.psi(x, c, self.g(deriv(0., 2 * ix + 2), psi, 2 * ix + 4), 2 * ix + 2)
        return (self.ste / psi) ** 0.2

    def hste(self):
        x, c = self.grid(128)
        p4 = self.psi(x, c, self.g(deriv(0., 4), psi_ns(6, self.s), 6), 4)
        p6 = self.psi(x, c, self.g(deriv(0., 6), psi_ns(8, self.s), 8), 6)
        h1, old, cnt = self.hns(), 0, 0
        while abs(old - h1) > 0.01 * h1 and cnt < 100:
            cnt, old = cnt + 1, h1
            gam = (2 * deriv(0., 4) * p4 * h1 ** 5 / (-p6 / (2 * math.sqrt(np.pi)))) ** (1 / 7.)
            h1 = (self.ste2 / self.psi(x, c, gam, 4)) ** 0.2
        return h1 * (self.ste / self.ste2) ** 0.2

    def hstt(self):
        s, n, inc = self.s, self.n, 128
        x = np.linspace(self.lo / s, self.hi / s, inc)
        c = bins(self.a[None, :] / s, [x], 1)
        h1, old, cnt = self.amise, 0, 1
        dl = x[1] - x[0]
        while abs(old - h1) > 0.01 * h1 and cnt < 100:
            cnt, old = cnt + 1, h1
            f = kern(self.name, ((x[:, None] - x) / h1).ravel()[None, :]).reshape(inc, inc).dot(c) / (n * h1)
            h1 = (self.ste / (dl * np.sum((np.diff(f, 2) / dl ** 2) ** 2))) ** 0.2
        return h1 * s

    def hscv(self):
        n, s = self.n, self.s
        H = self.amise / 0.93
        hv = np.linspace(0.25 * H, H, 100) * (self.ste2 / self.ste) ** 0.2
        x = np.linspace(self.lo / s, self.hi / s, 128)
        c = bins(self.a[None, :] / s, [x], 1)
        g1 = self.g(deriv(0., 6), 105 / (32 * math.sqrt(np.pi)), 8)
        g2 = self.g(deriv(0., 10), 3465. / (512 * math.sqrt(np.pi)), 12)
        g3 = self.g(deriv(0., 4), self.psi(x, c, g1, 6), 6)
        g4 = self.g(deriv(0., 8), self.psi(x, c, g2, 10), 10)
        p4, p8 = self.psi(x, c, g3, 4), self.psi(x, c, g4, 8)
        const = (441. / (64 * np.pi)) ** (1 / 18.) * (4 * np.pi) ** (-.2) * p4 ** (-.4) * p8 ** (-1 / 9.)
        Y = (self.a[:, None] - self.a).ravel() / s
        sc = []
        ph = lambda t, sg: np.exp(-0.5 * (t / sg) ** 2) / sg
        for h in hv:
            g = const * n ** (-23. / 45) / h ** 2
            sc.append(1 / (n * h * 2 * math.sqrt(np.pi)) + np.sum(
                ph(Y, math.sqrt(2 * h * h + 2 * g * g)) - 2 * ph(Y, math.sqrt(h * h + 2 * g * g)) + ph(Y, math.sqrt(2 * g * g))) / n ** 2)
        sc = np.array(sc)
        i = sc.argmin()
        if np.sum(sc - sc[i] < 1e-9 * abs(sc[i])) > 1:
            return None
        return hv[i] * (self.ste / self.ste2) ** 0.2 * s


    def check_hisj(self, h):
        """t = (h/R)^2 is the first solution of Botev's fixed point equation t = xi * gamma^[7](t) below 0.1"""
        x, c = self.grid(512)
        n = len(x)
        k = np.arange(1, n)
        a2 = (np.cos(np.pi * np.outer(k, 2 * np.arange(n) + 1) / (2 * n)).dot(c / self.n)) ** 2
        N = len(set(self.a.tolist()))

        def norm2(s, t):
            """squared norm of the s-th derivative of the density smoothed by t"""
            return 2 * np.pi ** (2 * s) * np.sum(np.exp(s * np.log(k ** 2.) - k ** 2. * np.pi ** 2 * t) * a2)

        def res(t):
            f = norm2(7, t)
            for s in range(6, 1, -1):
                odd = np.prod(np.arange(1., 2 * s, 2))
                f = norm2(s, (2 * (1 + 0.5 ** (s + 0.5)) / 3 * odd / math.sqrt(2 * np.pi) / N / f) ** (2. / (3 + 2 * s)))
            return t - (2 * N * math.sqrt(np.pi) * f) ** -0.4
        t = (h / (self.ste / self.ste2) ** 0.2 / (self.hi - self.lo)) ** 2
        tg = np.linspace(0, 0.1, 150)
        r = np.array([res(v) for v in tg])
        i = np.flatnonzero(r[1:] * r[0] <= 0)
        if len(i) == 0:
            close(t, 0.28 * N ** -0.4, 'hisj without a solution', 1e-9)
            return 0
        require(tg[i[0]] - 1e-12 <= t <= tg[i[0] + 1] + 1e-12, 'hisj: not the first solution')
        require(res(t * (1 - 1e-6)) * res(t * (1 + 1e-6)) <= 0 or abs(res(t)) < 1e-10, 'hisj: %g is not a solution, residual %g' % (t, res(t)))
        return 1


def f_bw(case):
    name, fun, data = case
    a = np.array(data, float)
    keep = a.copy()
    K = Kernel(name)
    tick(4)
    h = np.ravel(getattr(K, fun)(a))
    require(h.shape == (1,) and h[0] > 0 and np.isfinite(h[0]), 'bandwidth %s' % h)
    require(np.array_equal(a, keep), 'data modified')
    b = BW(name, a)
    if hasattr(b, fun):
        want = getattr(b, fun)()
        if want is not None:
            close(h[0], want, fun, 1e-5, 1e-9)
    if fun == 'hisj':
        b.check_hisj(h[0])
    # equivariance under scale, order and dimension
    f = getattr(K, fun)
    close(np.ravel(f(a[::-1])), h, fun + ' of reordered data', 1e-7, 1e-10)
    close(np.ravel(f(4 * a)), 4 * h, fun + ' of scaled data', 1e-6, 1e-9)
    two = np.ravel(f(np.vstack([a, 3 + 2 * a])))
    close(two[0], h[0], fun + ' per dimension', 1e-7, 1e-10)
    close(two[1], 2 * h[0], fun + ' per dimension', 0.02, 1e-9)
    k = KDE(a, kernel=Kernel(name, fun=fun))
    close(np.ravel(k.hs), h, 'default bandwidth of the estimator')
    k = KDE(np.vstack([a, a]), hs=[0.3, -1], kernel=Kernel(name, fun=fun))
    close(np.ravel(k.hs), [0.3, h[0]], 'negative bandwidth')
    return rnd(h)


def f_h0(case):
    fun, h0, data = case
    h = np.array(h0)
    keep = h.copy()
    tick()
    v = getattr(Kernel('gaus'), fun)(np.array(data, float), h0=h)
    require(np.array_equal(h, keep), 'starting value overwritten')
    return rnd(v)


def f_ci(case):
    method, n, p, alpha = case
    b = BKRegression(np.arange(6.0), np.array([0, 0, 1, 0, 1, 1]), method=method, hs_e=1.0, hs=1.0)
    tick()
    lo, hi = b.prb_ci(np.array([n]), np.array([p]), alpha)
    lo, hi = float(lo[0]), float(hi[0])
    require(-1e-12 <= lo <= hi <= 1 + 1e-12, 'interval [%s, %s]' % (lo, hi))
    require(lo - 1e-9 <= p <= hi + 1e-9 or method == 'beta', 'interval excludes the estimate')
    if method == 'wilson':
        from scipy.special import ndtri
        z = -ndtri(alpha / 2)
        for q in (lo, hi):
            if 0 < q < 1:
                close(abs(p - q), z * math.sqrt(q * (1 - q) / n), 'score equation', 1e-6, 1e-9)
    else:
        from scipy.special import betainc
        if 0 < p < 1:
            close(betainc(n * p + .05, n * (1 - p) + .05, lo), alpha / 2, 'lower tail', 1e-6, 1e-9)
            close(1 - betainc(n * p + .05, n * (1 - p) + .05, hi), alpha / 2, 'upper tail', 1e-6, 1e-9)
    return rnd([lo, hi])


def f_emp(case):
    y, m = case
    x = np.array([0.0, 0.5, 1.0, 1.25, 2.5, 3.0])[:len(y)]
    b = BKRegression(x, np.array(y), hs_e=1.0, hs=0.7, method=m)
    xi = np.linspace(-1, 4, 6)
    tick()
    e = b.prb_empirical(xi=xi)
    c = bins(x[None, :], [xi], 1)
    c1 = bins(x[None, :], [xi], np.array(y, float))
    close(e.count, c, 'count')
    close(e.data, np.where(c == 0, 0, c1 / np.where(c == 0, 1, c)), 'empirical probability')
    lo, hi = b.prb_ci(c, e.data, 0.05)
    close(e.dataCI, np.vstack([lo, hi]).T, 'intervals')
    return rnd(e.data)


def f_smooth(case):
    """smoothed binomial probabilities: the clipped regression with the interval of the expected number of data;
    the best one is the best of those compared"""
    y, m, p = case
    y = np.array(y)
    x = np.array([0.0, 0.5, 1.0, 1.25, 2.5, 3.0, 3.25, 4.5])[:len(y)]
    mk = lambda: BKRegression(x.copy(), y.copy(), hs_e=1.0, hs=0.7, method=m, p=p, a=0.3, b=0.4)
    b = mk()
    tick(4)
    close(b.get_grid(), np.linspace(x[0] - 1, x[-1] + 1, max(2 * int(x[-1] - x[0]) + 3, 5)), 'grid')
    close(b.get_grid(0.5), np.linspace(x[0] - .5, x[-1] + .5, max(2 * int((x[-1] - x[0]) / 0.5) + 3, 5)), 'grid of a given bin width')
    e = b.prb_empirical()
    close(e.args, b.get_grid(), 'abscissae of the empirical probability')
    ebin = e.data.copy()
    hv = [0.4, 0.8, 1.6]
    sm = {}
    for h in hv + [1.6 + 0.1]:
        s = b.prb_smoothed(e, h, alpha=0.1, label='q')
        sm[h] = s
        require(b.hs == h, 'smoothing parameter %s set to %s' % (b.hs, h))
        xs = np.linspace(e.args[0], e.args[-1], 10 * len(e.args) + 1)
        close(s.args, xs, 'abscissae')
        k = KRegression(x, y, p=p, hs=h)
        want = np.clip(np.nan_to_num(k(xs), nan=0.0), 0, 1)
        close(s.data, want, 'smoothed probability', 1e-9, 1e-9)
        cnt = KDE(x, hs=h).eval_grid_fast(xs) * (e.args[1] - e.args[0]) * len(x)
        lo, up = mk().prb_ci(cnt, want, 0.1)
        close(s.dataCI, np.vstack([lo, up]).T, 'interval of the expected number of data', 1e-6, 1e-7)
        w = (xs[1] - xs[0]) * (np.sum(up - lo) - 0.5 * (up - lo)[0] - 0.5 * (up - lo)[-1])
        close(s.prediction_error_avg, w / (xs[-1] - xs[0]), 'mean width of the interval', 1e-6, 1e-7)
        close(s.children[0].data, [lo, up], 'child: the interval', 1e-6, 1e-7)
        require(s.children[1] is e and s.plot_kwds['label'] == 'q', 'child: the empirical probability')
    best = b.prb_search_best(e, hsvec=np.array(hv), alpha=0.1)
    aicc = [sm[h].aicc for h in hv]
    close(best.score.data, aicc, 'score of every smoothing parameter')
    close(best.score.args, hv, 'smoothing parameters compared')
    lowest = min(aicc + [sm[1.6 + 0.1].aicc])
    close(best.aicc, lowest, 'best score', 1e-9, 1e-9)
    require(best.hs in hv + [1.6 + 0.1], 'best smoothing parameter %s' % best.hs)
    close(sm[[h for h in hv + [1.6 + 0.1] if h == best.hs][0]].aicc, lowest, 'score of the best', 1e-9, 1e-9)
    close(best.data, sm[[h for h in hv + [1.6 + 0.1] if h == best.hs][0]].data, 'best probability')
    require(b.hs == best.hs, 'smoothing parameter left')
    require(np.array_equal(e.data, ebin), 'empirical probability changed')
    return rnd(best.data[::7])


def f_bwmax(case):
    """default bin width: geometric mean of the largest smoothing parameters, each of all data and of the successes"""
    y, kern_ = case
    x = np.array([0.0, 0.5, 1.0, 1.25, 2.5, 3.0, 3.25, 4.5])[:len(y)]
    y = np.array(y)
    tick()
    k = Kernel(kern_)
    b = BKRegression(x, y, hs=0.7, kernel=Kernel(kern_))
    one = lambda f, v: float(np.ravel(f(v))[0])
    hm = []
    for f in (k.hste, k.hos):
        h1 = one(f, x)
        hm.append(math.sqrt(h1 * (one(f, x[y == 1]) if y.any() else 4 * h1)))
    close(float(np.ravel(b.hs_e)[0]), math.sqrt(hm[0] * hm[1]), 'default bin width', 1e-9, 1e-12)
    return rnd(hm)


def f_hmns(case):
    """normal scale rule in several dimensions: the root of the covariance times the constant that is optimal for normal data"""
    name, d, flat, n = case
    rows = [[((flat + 3) * (i + 1) * (i + j + 2) * (j + 1) + 7 * i * j) % (11 + 2 * j) for i in range(n)] for j in range(d)]
    a = np.array(rows, float)
    k = Kernel(name)
    tick()
    if d == 1:
        close(k.hmns(a), k.hns(a), 'one dimension', 1e-12, 1e-12)
        return 'one'
    if d > 2 and name in ('biwe', 'triw') or name in ('rect', 'lapl', 'logi', 'tria'):
        try:
            k.hmns(a)
        except NotImplementedError:
            return 'refused'
        raise Fail('%s in %d dimensions' % (name, d))
    if name == 'gaus':
        rk, mu2 = (2 * math.sqrt(math.pi)) ** -d, 1.0
    else:
        p = {'e': 1, 'b': 2, 't': 3}[name[0]]

        def mom(q, s):
            """integral of |u|^s (1-|u|^2)^q over the ball"""
            return ball(d) * d / 2 * math.gamma((d + s) / 2.0) * math.gamma(q + 1) / math.gamma((d + s) / 2.0 + q + 1)
        rk, mu2 = mom(2 * p, 0) / mom(p, 0) ** 2, mom(p, 2) / mom(p, 0) / d
    curv = (2 * math.sqrt(math.pi)) ** -d * (d / 2.0 + d * d / 4.0)
    c = (d * rk / (mu2 ** 2 * curv * n)) ** (1.0 / (d + 4))
    h = np.asarray(k.hmns(a.copy()), float)
    require(h.shape == (d, d) and np.allclose(h, h.T) and np.linalg.eigvalsh(h).min() > -1e-9, 'bandwidth matrix %s' % h)
    close(h @ h, c * c * np.cov(a), 'bandwidth matrix', 6e-3, 1e-9)
    return name, d


def groups(tier):
    t = tier == 'thorough'
    acc = []
    for n in (1, 2, 3, 4):
        for idx in itertools.product(range(3), repeat=n):
            for fun in FUN:
                for shape, fill in ((None, 0), ([3], 0), ([4], -1)):
                    acc.append([list(idx), [2.0, 3.0, -5.0, 7.0][:n], fun, shape, fill])
    for n in (1, 2, 3):
        for idx in itertools.product(list(itertools.product(range(2), repeat=2)), repeat=n):
            for shape in (None, [2, 3]):
                acc.append([[list(i) for i in idx], [2.0, 3.0, -5.0][:n], 'none', shape, 0])
    for idx in itertools.product(range(2), repeat=4):
        acc.append([[list(idx[:2]), list(idx[2:])], [[1.0, 2.0], [4.0, 8.0]], 'none', None, 0])
    pos = [0, 0.25, 0.5, 1, 1.75, 2, 3]
    grd = []
    for gr, sc in (([0, 1, 2, 3], 1), ([-1, 0.5, 2, 3.5], None), ([0, 0.5, 1, 1.5, 2, 2.5, 3], 1), ([0, 3], 1)):
        for n in (1, 2, 3):
            for d in itertools.product(pos, repeat=n):
                for y, form in ((1, 'dx'), ([1, 2, -3][:n], 'dx'), (1, ''), (2.5, 'x')):
                    if n == 3 and not t and form != 'dx':
                        continue
                    grd.append([list(d), [gr], y, form])
    p2 = [0, 0.4, 1, 2]
    for a in itertools.product(p2, repeat=2):
        for b in itertools.product(p2, repeat=2):
            grd.append([[[a[0], b[0]], [a[1], b[1]]], [[0, 1, 2], [-1, 1, 3]], [1, 3], ''])
    for a in itertools.product(p2, repeat=3):
        grd.append([[[a[0]], [a[1]], [a[2]]], [[0, 1, 2, 3], [-1, 1, 3, 5], [0, .5, 1, 2 - .5 + .5 - .5 + .5]][:2] + [[0, 1, 2, 3]], 1, ''])
        grd.append([[[a[0], 1], [a[1], .5], [a[2], .25]], [[0, 1, 2], [-1, 1, 3], [0, 2, 4]], 1, ''])
    for a in itertools.product(p2[:3], repeat=4):
        grd.append([[[v] for v in a], [[0, 1, 2], [-1, 1, 3], [0, 2, 4], [0, .5, 1]], 2, ''])
    for a in itertools.product((0.25, 1), repeat=5):
        grd.append([[[v, 0.5] for v in a], [[0, 1]] * 4 + [[0, 2]], [1, 3], ''])
    bad = [[d, [0, 1, 2]] for d in ([-0.1], [2.1], [1, 2.5], [0, -1e-3, 1])]
    ker = [[n, d, s] for n in KN for d in (1, 2, 3) for s in ('short', 'full')]
    der = [[[0.0], m] for m in (1, 2, 3, 4)] + [[[-3, -1.5, 0, .2, 2, 4], m] for m in (1, 2, 3, 4)]
    base = [0, 0.5, 1.5, 3]
    kde = []
    for n in (1, 2, 3):
        for d in itertools.combinations_with_replacement(base, n):
            for name in KN:
                for h in (0.4, 1.3):
                    for al in (0, 0.5):
                        kde.append([name, list(d), h, al, [-0.3, 0.7]])
    for name in KN:
        for d in ([[0, 1, 2.5], [1, 0, 3]], [[0.5, 0.5], [1, 2]]):
            for h in (0.8, [0.5, 1.5], [[1.0, 0.3], [0.3, 0.7]]):
                for al in (0, 0.4):
                    kde.append([name, d, h, al, [[0.2, 1.1], [0.9, 1.4]]])
    fast = []
    for name in KN:
        for d in ([1.0], [0, 1, 2.5], [0.1, 0.7, 0.7, 3], [4, 0, 2]):
            for h in (0.5, 1.2, 0.05):
                for gr in ([-2, 6, 33], [-1, 5, 25], [0, 4, 64]):
                    for y in (None, 'y'):
                        for r in (0, 1, 2):
                            fast.append([name, d, h, [gr], None if y is None else [2.0, -1, 3, 0.5][:len(d)], r])
        for h in (0.8, [0.5, 1.0], [[1.0, 0.2], [0.2, 0.6]]):
            fast.append([name, [[0, 1, 2.5], [1, 0, 3]], h, [[-2, 5, 12], [-3, 6, 12]], None, 0])
            fast.append([name, [[0, 1, 2.5], [1, 0, 3]], h, [[-2, 5, 12], [-3, 6, 12]], [1, 2, 3], 0])
    dg = [[n, d, h, inc, lo, hi] for n in ('gaus', 'epan', 'lapl') for d in ([0, 1, 2, 4], [5, 1, 1, 2, 7]) for h in (0.5, 2.0)
          for inc in (16, 41) for lo, hi in ((None, None), (-3, None), (-1, 12.0))]
    tk = []
    for name in ('gaus', 'epan', 'triw', 'lapl'):
        for d in ([1, 2, 5], [3, 3, 4, 9], [0.5, 1.5, 2.0, 8.0]):
            for L2 in (None, 0, 0.5, 1, 0.25, 2.0, -1.0, -0.5):
                for al in (0, 0.3):
                    for ii in (False, True):
                        if ii and 0.5 in d:
                            continue
                        tk.append([name, d, 0.4, L2, al, [1.2, 2.0, 3.7], ii])
        for L2 in (None, 0.5, [0, 1], [1, 0.5]):
            tk.append([name, [[1, 2, 4.0], [3, 1, 2.0]], 0.6, L2, 0, [[1.5, 2.5], [1, 2.2]], False])
            tk.append([name, [[1, 2, 4], [3, 1, 2]], 0.6, L2, 0.2, [[1.5, 2.5], [1, 2.2]], True])
    reg = []
    for name in ('gaus', 'epan', 'triw', 'logi'):
        for d in ([1, 2, 3, 5], [1, 1.5, 4, 4.5]):
            for y in ([2, 2, 2, 2], [1, 2, 3, 5], [0, 1, 0, 1], [4, -1, 2, 3]):
                for p in (0, 1):
                    for h in (0.8, 2.0):
                        for L2 in (None, 0.5, 0):
                            reg.append([name, d, y, p, h, L2, [1.0, 5.0, 17], 'slow'])
                        reg.append([name, d, y, p, h, None, [1.0, 5.0, 17], 'fast'])
            reg.append([name, d, [2 + 3 * v for v in d], 1, 2.0, None, [1.0, 5.0, 9], 'slow'])
    rt = [[d, y, L2, h] for d in ([1, 2, 3, 5], [1, 1.5, 4, 4.5]) for y in ([2, 2, 2, 2], [1, 2, 3, 5], [4, -1, 2, 3])
          for L2 in (0.5, 0) for h in (0.4, 0.8)]
    ops = ['h0.5', 'h0.8', 'h2', 'p', 'g', 'f', 'F']
    hist = [[c, list(o)] for c in ('KDE', 'TKDE', 'TKDE0') for n in (1, 2, 3, 4) for o in itertools.product(ops, repeat=n)
            if o[-1][0] != 'h' and (n < 4 or t or c == 'TKDE')]
    sets = [list(c) for c in itertools.combinations([0, 1, 2, 3.5, 5, 6, 9, 10], 5)]
    long_ = [[round((i * 37 % 101) ** 0.5, 3) for i in range(1, 31)], [round(math.log(1 + i * 17 % 53 + .1), 4) for i in range(24)]]
    bw = []
    for fun in ('hns', 'hos', 'hste', 'hldpi', 'hstt', 'hscv', 'hisj'):
        for name in ('gaus', 'epan', 'biwe', 'triw', 'tria', 'logi', 'lapl', 'rect'):
            for i, d in enumerate(sets + long_):
                if t or name == 'gaus' or i >= len(sets) or fun in ('hns', 'hos') or i % 8 == 0:
                    bw.append([name, fun, d])
    # selectors whose reference needs a smooth kernel second difference
    bw = [b for b in bw if not (b[1] == 'hstt' and (b[0] in ('rect', 'lapl', 'tria') or
                                               (b[0] not in ('gaus', 'logi') and b[2] not in long_)))]
    bw += [[k, 'hstt', d] for k in ('tria',) for d in long_]
    G0 = Group('bandwidth-several-dimensions', [[k, d, f, n] for k in ('gaus', 'epan', 'biwe', 'triw', 'rect', 'lapl', 'logi', 'tria') for d in (1, 2, 3, 4)
               for f in range(4) for n in (7, 12, 30)], f_hmns)
    h0 = [[f, [h], sets[0]] for f in ('hste', 'hstt') for h in (0.5, 1.0, 3.0)]
    ci = [[m, n, p, a] for m in ('wilson', 'beta') for n in (0.5, 1, 3, 10, 100) for p in (0, 0.1, 0.5, 0.8, 1.0) for a in (0.05, 0.3)]
    emp = [[list(y), m] for n in (4, 5, 6) for y in itertools.product((0, 1), repeat=n) for m in ('beta', 'wilson')]
    lev = [[w, g, s, p, d] for w in itertools.product((0, 1, 3), repeat=3) if any(w) for g in ('even', 'dense', 'skew')
           for s in (1, 0.2, 7.0) for p in ([10, 30, 50, 70, 90, 95, 99], [50], [90, 20, 60]) for d in (1, 'xy', 'ij')]
    con = [[d, h, inc, b] for d in ([[0, 1, 2.5, 4], [1, 0, 3, 2]], [[0, 0.1, 5, 5.2, 5.1], [1, 2, 3, 9, 1]])
           for h in (0.7, 1.5) for inc in (32, 65) for b in (False, True)]
    return [G0, Group('contour-levels', lev, f_levels), Group('contours', con, f_contours), Group('accumulate', acc, f_accum), Group('gridcount', grd, f_grid), Group('gridcount-outside', bad, f_gridbad),
            Group('kernels', ker, f_kernel), Group('gauss-derivatives', der, f_deriv), Group('kde-points', kde, f_kde),
            Group('kde-grid', fast, f_fast), Group('kde-default-grid', dg, f_grid_default), Group('tkde', tk, f_tkde),
            Group('regression', reg, f_reg), Group('regression-binned-transformed', rt, f_regfast_t),
            Group('histories', hist, f_hist), Group('bandwidth', bw, f_bw), Group('start-values', h0, f_h0),
            Group('intervals', ci, f_ci), Group('empirical', emp, f_emp),
            Group('binomial-smoothed', [(list(y), m, p) for y in itertools.product((0, 1), repeat=8 if t else 6) for m in ('beta', 'wilson') for p in ((0, 1) if t else (0,))] +
                  [(list(y), 'beta', 1) for y in itertools.product((0, 1), repeat=4)], f_smooth, chunk=4, note='every word of successes and failures'),
            Group('largest-smoothing', [(list(y), f) for y in itertools.product((0, 1), repeat=6) if sum(y) != 1 for f in ('gauss', 'epan')], f_bwmax, chunk=8)]
