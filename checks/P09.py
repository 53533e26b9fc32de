"""P09 Transformations between the Gaussian and the real world are increasing and mutually inverse."""
import itertools
import warnings
import numpy as np
from vk import Group, Fail, tick
from ref import close, require, rnd, words
import wafo.misc as wm
import wafo.transform.models as tm
import wafo.transform.core as tc

PROPERTY = 'P09'
ASSUMPTIONS = ['skewness and kurtosis inside the validity range of the model (no warning issued)',
               'piecewise linear transforms have at least two points']

AFF = [(0.0, 1.0, 0.0, 1.0), (2.0, 3.0, 0.0, 1.0), (-1.5, 0.25, 1.0, 2.0), (0.0, 1.0, -3.0, 0.5)]
Y = np.array([-4.0, -2.5, -1.0, -0.125, 0.0, 0.3, 1.0, 2.0, 3.5])


def interp_ext(x, f, x0):
    """straight line through the neighbouring points, end segments extended"""
    out = []
    for v in x0:
        k = 0
        while k < len(x) - 2 and v > x[k + 1]:
            k += 1
        out.append(f[k] + (f[k + 1] - f[k]) * (v - x[k]) / (x[k + 1] - x[k]))
    return np.array(out)


def forms(v):
    return [v, v.reshape(-1, 1), v.reshape(3, 3), v[::-1].copy(), float(v[2])]


def check_model(g, gfun, tol=1e-8, y=Y, shapes=True):
    """gfun: reference g: x -> y"""
    mean, sigma = g.mean, g.sigma
    yy = y * g.ysigma + g.ymean
    tick(2)
    keep = yy.copy()
    x = g.gauss2dat(yy)
    require(np.array_equal(keep, yy), 'gauss2dat changed its input')
    require(np.shape(x) == yy.shape, 'shape of gauss2dat')
    require(np.all(np.diff(x) > 0), 'gauss2dat is increasing')
    keep = x.copy()
    close(g.dat2gauss(x), yy, 'dat2gauss(gauss2dat(y)) == y', tol, tol)
    require(np.array_equal(keep, x), 'dat2gauss changed its input')
    close(gfun(x), yy, 'documented g', tol, tol)
    close(g(x), yy, 'call', tol, tol)
    if shapes:
        for form in forms(yy):
            xf = g.gauss2dat(form)
            want = np.interp(np.atleast_1d(form), yy, x)
            tick(2)
            close(xf, want, 'gauss2dat for shape %s' % (np.shape(form),), tol, tol)
            close(g.dat2gauss(xf), np.atleast_1d(form), 'round trip for shape %s' % (np.shape(form),), tol, tol)
    return rnd(x)


def f_linear(case):
    mean, sigma, ym, ys = case
    g = tm.TrLinear(mean=mean, sigma=sigma, ymean=ym, ysigma=ys)
    out = check_model(g, lambda x: (x - mean) / sigma * ys + ym)
    g2 = tm.TrLinear(mean=mean, var=sigma ** 2, ymean=ym, ysigma=ys)
    close(g2.dat2gauss(Y), g.dat2gauss(Y), 'var instead of sigma')
    xs = [Y, Y * 2, Y - 1]
    for f, s in ((g.dat2gauss, ys / sigma), (g.gauss2dat, sigma / ys)):
        r = f(*xs)
        tick()
        require(len(r) == 3, 'derivatives')
        close(r[0], f(Y), 'value beside derivatives')
        close(r[1], Y * 2 * s, 'first derivative')
        close(r[2], (Y - 1) * s, 'second derivative')
    require(abs(g.dist2gauss()) < 1e-18, 'linear transform is Gaussian')
    return out


def hermite_coefs(skew, kurt, pardef):
    e = kurt - 3.0
    if e < 0:
        return skew / 6, e / 24
    if pardef == 2:
        c4 = (np.sqrt(1 + 1.5 * e) - 1) / 18
        return skew / (6 * (1 + 6 * c4)), c4
    c3 = skew / 6 * (1 - 0.015 * abs(skew) + 0.3 * skew ** 2) / (1 + 0.2 * e)
    c41 = (1 - 1.43 * skew ** 2 / e) ** (1 - 0.1 * kurt ** 0.8) if e > 0 else 0.0
    return c3, 0.1 * ((1 + 1.25 * e) ** (1. / 3) - 1) * c41


def hermite_ref(skew, kurt, pardef, mean, sigma, ym, ys):
    """reference G on a fine basis, by formula; returns function x -> y found by bisection or formula"""
    c3, c4 = hermite_coefs(skew, kurt, pardef)
    if kurt < 3.0:
        def g(x):
            xn = (x - mean) / sigma
            return (xn - c3 * (xn ** 2 - 1) - c4 * (xn ** 3 - 3 * xn)) * ys + ym
        return g, None
    k = 1 / np.sqrt(1 + 2 * c3 ** 2 + 6 * c4 ** 2)

    def G(y):
        yn = (y - ym) / ys
        return mean + k * sigma * (yn + c3 * (yn ** 2 - 1) + c4 * (yn ** 3 - 3 * yn))
    return None, G


HSKEW = [-0.6, -0.3, -0.1, 0.0, 0.16, 0.25, 0.5]
HEK = [-1.2, -0.5, -0.2, -0.05, 0.04, 0.1, 0.3, 0.6, 1.0, 3.0, 8.0]


def hermite_cases():
    out = []
    for s, e, pd in itertools.product(HSKEW, HEK, (1, 2)):
        if e < 0:
            c3, c4 = s / 6, e / 24
            p = np.poly1d([-c4, -c3, 1 + 3 * c4, c3])
            if (p.deriv().r.imag == 0).any() or pd == 2:
                continue
        else:
            if s * s > 0.66 * e:
                continue
            c3, c4 = hermite_coefs(s, 3 + e, pd)
            p = np.poly1d([c4, c3, 1 - 3 * c4, -c3])
            if (p.deriv().r.imag == 0).any():
                continue
        for aff in AFF:
            out.append([s, 3 + e, pd] + list(aff))
    return out


def f_hermite(case):
    s, ku, pd, mean, sigma, ym, ys = case
    g = tm.TrHermite(mean=mean, sigma=sigma, skew=s, kurt=ku, ymean=ym, ysigma=ys, pardef=pd)
    gf, G = hermite_ref(s, ku, pd, mean, sigma, ym, ys)
    if G is not None:
        close(g.gauss2dat(Y * ys + ym), G(Y * ys + ym), 'documented G', 1e-9, 1e-9)
        yref = Y * ys + ym
        gf = lambda x: np.interp(x, G(yref), yref)
    out = check_model(g, gf)
    # the tabulated transform agrees with the model at the tabulated points
    td = g.trdata(n=9)
    tick(2)
    xs = sigma * np.linspace(-5, 5, 9) + mean
    close(td.args, xs, 'trdata grid')
    close(td.data, (g.dat2gauss(xs) - ym) / ys, 'trdata values')
    xn = np.linspace(-5, 5, 513)
    yn = (g.dat2gauss(sigma * xn + mean) - ym) / ys
    d = (xn - yn) ** 2
    close(g.dist2gauss(), ((d[1:] + d[:-1]) * np.diff(xn) / 2).sum(), 'departure from the Gaussian model')
    return out


def f_hermite_fold(case):
    """cubics that are not monotone everywhere still invert on the branch around the mean"""
    s, ku, n, k = case
    mean, sigma = 1.0, 2.0
    g = tm.TrHermite(mean=mean, sigma=sigma, skew=s, kurt=ku, pardef=2)
    y = np.linspace(-1.8, 1.8, 7)[k:k + n]
    tick(2)
    x = g.gauss2dat(y)
    close(g.dat2gauss(x), y, 'round trip', 1e-7, 1e-7)
    gf, G = hermite_ref(s, ku, 2, mean, sigma, 0.0, 1.0)
    if G is not None:
        close(x, G(y), 'documented G')
    else:
        close(gf(x), y, 'documented g', 1e-7, 1e-7)
    return rnd(x)


def f_hermite_history(case):
    """changing the parameter set and rebuilding equals building afresh"""
    g = tm.TrHermite(skew=0.1, kurt=3.2)
    p = dict(skew=0.1, kurt=3.2, pardef=1)
    vals = dict(s0=('skew', 0.0), s1=('skew', -0.2), k0=('kurt', 3.5), k1=('kurt', 2.9), p1=('pardef', 1),
                p2=('pardef', 2))
    for op in case:
        name, v = vals[op]
        setattr(g, name, v)
        p[name] = v
        g.set_poly()
        tick()
    fresh = tm.TrHermite(**p)
    close(g.gauss2dat(Y / 2), fresh.gauss2dat(Y / 2), 'history', 1e-12, 1e-12)
    close(g.dat2gauss(Y / 2), fresh.dat2gauss(Y / 2), 'history', 1e-12, 1e-12)
    return rnd(fresh.gauss2dat(Y / 2))


def f_hermite_warn(case):
    """the model warns exactly when its cubic has a turning point, and refuses intervals that contain one"""
    skew, kurt, mean, sigma = case
    ek = kurt - 3.0
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter('always')
        g = tm.TrHermite(mean=mean, sigma=sigma, skew=skew, kurt=kurt, pardef=2)
    tick()
    if kurt <= 3:
        c4, c3 = ek / 24, skew / 6
        p = np.poly1d([-c4, -c3, 1 + 3 * c4, c3])
    else:
        c4 = (np.sqrt(1 + 1.5 * ek) - 1) / 18
        c3 = skew / (6 * (1 + 6 * c4))
        K = 1 / np.sqrt(1 + 2 * c3 ** 2 + 6 * c4 ** 2)
        p = np.poly1d([c4, c3, 1 - 3 * c4, -c3]) * K
    r = p.deriv().r
    if r.size and np.abs(np.imag(r)).max() > 0 and np.abs(np.imag(r)).max() < 1e-4 or r.size == 2 and abs(r[0] - r[1]) < 1e-4:
        return 'touching'
    r = np.sort(np.real(r[np.abs(np.imag(r)) == 0]))
    require(bool(got) == bool(r.size), 'warnings %s, turning points %s' % ([str(m.message) for m in got], r))
    lim = np.sort(mean + sigma * (r if kurt <= 3 else p(r)))
    out = [rnd(lim)]
    grid = mean + sigma * np.array([-9.3, -4.1, -1.7, -0.2, 0.3, 1.9, 4.4, 9.6])
    for a, b in itertools.combinations(grid, 2):
        tick()
        try:
            y = g.dat2gauss(np.linspace(a, b, 3))
            ok = bool(np.all(np.isfinite(y)))
        except ValueError:
            ok = None
        inside = bool(np.any((a <= lim) & (lim <= b)))
        require((ok is None) == inside, 'interval [%s, %s] with turning points %s %s' % (a, b, lim, 'accepted' if inside else 'refused'))
        out.append(ok)
    return out


def ochi_ref(skew):
    """a, sigma2**2 of the two documented equations by bisection on sigma2**2"""
    if skew == 0:
        return 0.0, 1.0

    def h(s2):
        a = np.sqrt((s2 - 1) / 2) / s2
        return 2 * a * s2 ** 2 * (3 - 8 * a * a * s2) - abs(skew)
    # left side grows from 0 to its maximum over [1, 2]: take the first crossing
    grid = np.linspace(1, 2, 20001)
    v = h(grid)
    k = int(np.argmax(v >= 0))
    lo, hi = grid[k - 1], grid[k]
    for _ in range(200):
        m = 0.5 * (lo + hi)
        if h(m) < 0:
            lo = m
        else:
            hi = m
    s2 = 0.5 * (lo + hi)
    return np.sign(skew) * np.sqrt((s2 - 1) / 2) / s2, s2


def f_ochi(case):
    skew, mean, sigma, ym, ys = case
    g = tm.TrOchi(mean=mean, sigma=sigma, skew=skew, ymean=ym, ysigma=ys)
    a, s2 = ochi_ref(skew)

    def hfun(x):
        xn = (np.asarray(x, float) - mean) / sigma
        out = []
        for v in np.ravel(xn):
            gam = 1.28 * a if v >= 0 else 3 * a
            out.append(v if gam == 0 else (1 - np.exp(-gam * v)) / gam)
        return np.array(out).reshape(np.shape(xn))
    # g and h/sigma2 differ by one constant (the normalising mean)
    xs = mean + sigma * np.array([-2.0, -1.0, -0.25, 0.0, 0.25, 1.0, 2.0])
    tick()
    d = (g.dat2gauss(xs) - ym) / ys * np.sqrt(s2) - hfun(xs)
    require(np.ptp(d) < 1e-8, 'shape of the Ochi transform: %s' % d)
    if skew == 0:
        close(d, 0 * d, 'no skewness')
    c = d[0]
    lim = Y if abs(skew) < 0.5 else Y[2:7]
    y = lim if lim.size == 9 else np.linspace(-1, 1.5, 9)
    # keep arguments where the exponential stays invertible
    return check_model(g, lambda x: (hfun(x) + c) / np.sqrt(s2) * ys + ym, 1e-7, y=y if abs(skew) <= 0.2 else y / 3)


def f_ochi_history(case):
    g = tm.TrOchi(skew=0.16)
    p = dict(skew=0.16, mean=0.0, sigma=1.0)
    vals = dict(s0=('skew', 0.0), s1=('skew', 0.1), s2=('skew', -0.2), m1=('mean', 1.0), g2=('sigma', 2.0),
                call=None)
    for op in case:
        if vals[op] is None:
            g.dat2gauss(Y / 4)
        else:
            setattr(g, *vals[op])
            p[vals[op][0]] = vals[op][1]
        tick()
    fresh = tm.TrOchi(**p)
    close(g.gauss2dat(Y / 4), fresh.gauss2dat(Y / 4), 'history', 1e-10, 1e-10)
    close(g.dat2gauss(Y / 4), fresh.dat2gauss(Y / 4), 'history', 1e-10, 1e-10)
    return rnd(fresh.gauss2dat(Y / 4))


def f_ochi_norm(case):
    """documented: a*(sigma2**2 + mean2**2) + mean2 = 0"""
    skew, = case
    a, s2 = ochi_ref(skew)
    g = tm.TrOchi(skew=skew)
    tick()
    m2 = -float(g.dat2gauss(0.0)[0]) * np.sqrt(s2)
    close(a * (s2 + m2 ** 2) + m2, 0.0, 'normalising mean', 0, 1e-8)
    return rnd(m2)


XQ = [0.0, 0.4, 0.5, 1.0, 1.125, 1.5, 1.75, 2.0]


def f_tran(case):
    """linear interpolation inside, linear extension outside, for every subset pattern of query points"""
    steps, x0s, h = case
    f = np.concatenate([[0.0], np.cumsum(steps)]).astype(float)
    x = np.arange(len(f)) * h
    q = np.array(x0s) * h
    keep = (x.copy(), f.copy(), q.copy())
    tick()
    got = wm.tranproc(x, f, q)
    close(got, interp_ext(x, f, q), 'tranproc')
    require(all(np.array_equal(u, v) for u, v in zip(keep, (x, f, q))), 'input modified')
    # points may be given in any order
    r = np.arange(len(x))[::-1]
    tick()
    close(wm.tranproc(x[r], f[r], q), interp_ext(x, f, q), 'tranproc, unsorted points')
    return rnd(got)


def f_trangood(case):
    xs, lo, hi, mn, mx = case
    x = np.array(xs, dtype=float)
    f = x ** 2 + 0.5 * x
    kw = {}
    if lo is not None:
        kw['min_x'] = lo
    if hi is not None:
        kw['max_x'] = hi
    if mn is not None:
        kw['min_n'] = mn
    if mx is not None:
        kw['max_n'] = mx
    tick()
    xo, fo = wm.trangood(x, f, **kw)
    require(xo.shape == fo.shape and xo.size >= 2, 'shape')
    d = np.diff(xo)
    require(np.all(d > 0) and np.ptp(d) < 1e-9, 'uniform spacing: %s' % xo)
    require(xo[0] <= min(x[0], x[0] if lo is None else lo) + 1e-9, 'covers the lower end')
    require(xo[-1] >= max(x[-1], x[-1] if hi is None else hi) - 1e-9, 'covers the upper end')
    require(xo[0] > min(x[0], x[0] if lo is None else lo) - d[0] - 1e-9, 'not longer than needed (low)')
    require(xo[-1] < max(x[-1], x[-1] if hi is None else hi) + d[0] + 1e-9, 'not longer than needed (high)')
    inside = (xo >= x[0] - 1e-9) & (xo <= x[-1] + 1e-9)
    close(fo[inside], np.interp(xo[inside], x, f), 'values inside')
    xi, fi = xo[inside], fo[inside]
    close(fo, interp_ext(xi, fi, xo), 'values outside')
    if mn is not None:
        require(inside.sum() >= min(mn, mx or 1e9), 'at least min_n points')
    if mx is not None:
        require(inside.sum() <= max(mx, 2), 'at most max_n points')
    return rnd(np.r_[xo, fo])


def f_tran_der(case):
    """derivatives by the chain rule; polynomial transforms of low order are differentiated exactly at nodes of the
    difference grid"""
    name, nder, k, d = case
    h = 0.125
    x = np.arange(-16, 17) * h
    fs = dict(lin=(lambda u: 2 * u + 1, [lambda u: 2 + 0 * u, lambda u: 0 * u, lambda u: 0 * u, lambda u: 0 * u]),
              sq=(lambda u: u * u, [lambda u: 2 * u, lambda u: 2 + 0 * u, lambda u: 0 * u, lambda u: 0 * u]),
              cub=(lambda u: u ** 3, [lambda u: 3 * u ** 2, lambda u: 6 * u, lambda u: 6 + 0 * u, lambda u: 0 * u]),
              qua=(lambda u: u ** 4, [lambda u: 4 * u ** 3, lambda u: 12 * u ** 2, lambda u: 24 * u,
                                      lambda u: 24 + 0 * u]))
    fun, ders = fs[name]
    x0 = np.array(k, float)
    X = [x0] + [np.array(v, float) for v in d[:nder]]
    tick()
    got = wm.tranproc(x, fun(x), *X)
    D = [g(x0) for g in ders]
    x1, x2, x3, x4 = (X[1:] + [0, 0, 0, 0])[:4]
    want = [fun(x0), D[0] * x1, D[1] * x1 ** 2 + D[0] * x2,
            D[2] * x1 ** 3 + D[0] * x3 + 3 * D[1] * x1 * x2,
            D[3] * x1 ** 4 + D[0] * x4 + 6 * D[2] * x1 ** 2 * x2 + D[1] * (3 * x2 ** 2 + 4 * x1 * x3)]
    require(len(got) == nder + 1, 'number of derivatives')
    for j in range(nder + 1):
        scale = 1 + np.max(np.abs(x1)) ** j
        # interpolation and difference errors are O(h**2) (0.016) of the next two derivatives
        tol = {'lin': 1e-8, 'sq': 0.01, 'cub': 0.1, 'qua': 0.6}[name] * scale * 2
        close(got[j], want[j], 'derivative %d' % j, 1e-7, tol)
    return rnd(np.concatenate([np.atleast_1d(v) for v in got]))


def f_trdata(case):
    steps, ym, ys, given = case
    y = np.concatenate([[0.0], np.cumsum(steps)]).astype(float) * 0.5 - 1.0
    x = np.arange(len(y)) * 2.0 - 3.0
    kw = dict(ymean=ym, ysigma=ys)
    if given:
        kw.update(mean=0.5, sigma=1.5)
    g = tc.TrData(y, x, **kw)
    tick(3)
    xq = np.array([-3.0, -2.5, -1.0, 0.3, 1.0, 4.0, 5.0])
    close(g.dat2gauss(xq), interp_ext(x, y, xq), 'dat2gauss')
    if len(set(steps)) == 1:
        s = (y[1] - y[0]) / 2.0
        close(g.gauss2dat(g.dat2gauss(xq)), xq, 'round trip')
        if not given:
            close(np.ravel(g.mean), [(ym - y[0]) / s + x[0]], 'default mean')
            close(np.ravel(g.sigma), [ys / s], 'default sigma')
    if given:
        require(g.mean == 0.5 and g.sigma == 1.5, 'given moments')
    require(g.trdata() is g, 'trdata of tabulated transform')
    close(np.ravel(g.children[0].data), (x - np.ravel(g.mean)[0]) / np.ravel(g.sigma)[0], 'Gaussian line drawn with it')
    return rnd(g.dat2gauss(xq))


def groups(tier):
    t = tier == 'thorough'
    skews = [-1.0, -0.5, -0.2, -0.05, 0.0, 0.01, 0.1, 0.16, 0.3, 0.7, 1.5]
    tran = []
    for steps in itertools.product((1, 2, 5), repeat=2):
        for n in (1, 2, 3) + ((4,) if t else ()):
            for q in itertools.combinations(XQ, n):
                for h in (1.0, 0.25):
                    tran.append([list(steps), list(q), h])
    for steps in itertools.product((1, 3), repeat=4):
        for q in itertools.permutations([0.0, 0.5, 2.25, 3.9, 4.0], 3):
            tran.append([list(steps), list(q), 0.5])
    tg = [[xs, lo, hi, mn, mx]
          for xs in ([0, 1], [0, 1, 2], [0, 1, 3], [-1, 0, 0.5, 2], [0, 1, 2, 3, 4], [0, .1, 3])
          for lo in (None, 0, 0.5) for hi in (None, 3.5, 5, 9, 1.0)
          for mn in (None, 2, 5, 9) for mx in (None, 3, 100)]
    der = []
    for name in ('lin', 'sq', 'cub', 'qua'):
        for nder in (1, 2, 3, 4):
            for d in itertools.product((-1.0, 0.0, 2.0), repeat=nder):
                der.append([name, nder, [0.0, 0.5, -1.0], [[v, 1.0, -v] for v in d]])
    ops = ['s0', 's1', 'k0', 'k1', 'p1', 'p2']
    return [
        Group('tranproc', tran, f_tran),
        Group('trangood', tg, f_trangood),
        Group('tran-outside', [[[1, 2], [-1.0, 1.0], 1.0], [[1, 2], [1.0, 3.5], 1.0]], f_tran),
        Group('derivatives', der, f_tran_der),
        Group('linear', [list(a) for a in AFF], f_linear),
        Group('hermite', hermite_cases(), f_hermite),
        Group('hermite-fold', [[s, k, n, j] for s in (0.2, -0.2, 0.3, -0.6) for k in (3.00001, 3.001, 3.02, 2.999, 2.99)
                               for n in (1, 2, 5, 7) for j in range(0, 8 - n)], f_hermite_fold),
        Group('hermite-turning-points', [[s, k, m, sg] for s in (-0.8, -0.4, -0.15, 0.0, 0.1, 0.3, 0.6) for k in (2.5, 2.8, 2.95, 3.0, 3.05, 3.2, 3.6, 4.5)
                                         for m, sg in ((0.0, 1.0), (2.0, 3.0))], f_hermite_warn),
        Group('hermite-history', [list(w) for n in range(1, 5 if t else 4) for w in itertools.product(ops, repeat=n)],
              f_hermite_history),
        Group('ochi', [[s] + list(a) for s in skews for a in AFF], f_ochi),
        Group('ochi-history', [list(w) for n in range(1, 5 if t else 4)
                               for w in itertools.product(['s0', 's1', 's2', 'm1', 'g2', 'call'], repeat=n)],
              f_ochi_history),
        Group('ochi-norm', [[0.16], [0.0]], f_ochi_norm),
        Group('trdata', [[list(s), ym, ys, gv] for s in itertools.product((1, 2), repeat=4)
                         for ym, ys in ((0.0, 1.0), (0.25, 0.5)) for gv in (0, 1)], f_trdata),
    ]
