"""P26 Transformations estimated from records and crossing spectra; extrapolated and simulated crossing spectra."""
import itertools
import math
import warnings
import numpy as np
from scipy.special import ndtri
from vk import Group, Fail, tick
from ref import close, require, rnd
from P17 import smooth, spline
import wafo.objects as wo
import wafo.transform.models as wtm

PROPERTY = 'P26'
ASSUMPTIONS = ['crossing spectra over at most 41 levels with small integer counts, records of at most 4000 points',
               'simulated crossing spectra are judged over fixed lists of seeds of the global numpy.random generator']


def area(x, y):
    """integral of the piecewise linear function from x[0] to each x"""
    return np.r_[0, np.cumsum(np.diff(x) * (y[1:] + y[:-1]) / 2)]


def quiet(f):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        r = f()
    return r, any('strictly' in str(i.message) for i in w)


def gvars(gvar, n):
    if np.ndim(gvar) == 0:
        return gvar * np.ones(n)
    return np.interp(np.linspace(0, 1, n), np.linspace(0, 1, len(gvar)), gvar)


# ---- from crossings -------------------------------------------------------------------------------------------------
def f_lc(case):
    lev, cnt, mean, sigma, gsm, ne, gvar, inten, lin = case
    lev, cnt = np.array(lev, float), np.array(cnt, float)
    lc = wo.LevelCrossings(cnt.copy(), lev.copy(), mean=0.25, sigma=2.0, intensity=inten)
    kw = dict(gsm=gsm, ne=ne, gvar=gvar, linextrap=lin, param=(-4, 4, 41))
    mkw = {} if mean is None else dict(mean=mean, sigma=sigma)
    tick(3)
    (g, ge), warned = quiet(lambda: lc.trdata(chkder=True, **dict(mkw, **kw)))
    g0, ge0 = quiet(lambda: lc.trdata(chkder=False, **dict(mkw, **kw)))[0]
    require(np.array_equal(lc.data, cnt) and np.array_equal(lc.args, lev), 'the crossing spectrum was changed')
    m, s = (0.25, 2.0) if mean is None else (mean, sigma)
    n = len(lev)
    a, d = area(lev, cnt), (1.0 / n if inten else 1.0)
    y = ndtri((a + d / 2) / (a[-1] + d))
    for e in (ge, ge0):
        close(e.args, lev, 'levels of the empirical transformation', 0, 0)
        close(e.data, y, 'empirical transformation', 1e-10, 1e-10)
        require(e.mean == m and e.sigma == s, 'mean and standard deviation')
    u = np.linspace(-4, 4, 41)
    k = slice(ne, n - ne)
    xn = (lev[k] - m) / s
    f, dd = smooth(xn, y[k], gsm, gvars(gvar, n)[k])
    want = np.array([spline(xn, f, dd, t, lin) for t in u])
    close(g0.args, m + s * u, 'levels of the smoothed transformation', 1e-12, 1e-12)
    close(g0.data, want, 'smoothed transformation', 1e-6, 1e-6)
    close(g.args, m + s * u, 'levels of the checked transformation', 1e-12, 1e-12)
    dif = np.diff(want)
    if (dif > 1e-7).all():
        require(not warned, 'warned about an increasing transformation')
        close(g.data, want, 'an increasing transformation is kept', 1e-6, 1e-6)
    require(warned or (np.diff(g.data) > 0).all(), 'a transformation that is not increasing was returned without a warning')
    require(np.isfinite(g.data).all(), 'values %s' % g.data)
    for o in (g, g0):
        require(o.mean == m and o.sigma == s, 'mean and standard deviation')
        close(o.dat2gauss(o.args), o.data, 'values at the levels', 1e-6, 1e-6)
    # shifting the levels shifts the transformation
    lb = wo.LevelCrossings(cnt.copy(), lev + 10, mean=10.25, sigma=2.0, intensity=inten)
    (gb, _e), wb = quiet(lambda: lb.trdata(chkder=True, **dict(mkw and dict(mean=mean + 10, sigma=sigma), **kw)))
    close(gb.args, g.args + 10, 'shifted levels', 1e-12, 1e-12)
    close(gb.data, g.data, 'transformation of shifted levels', 1e-5, 1e-5)
    require(wb == warned, 'warning for shifted levels')
    return rnd(g.data, 4)


def f_thin(case):
    """more levels than ntr: the spectrum is interpolated without losing accuracy"""
    n, ntr, ne, mu, inten = case
    lev = np.linspace(-4, 4, n)
    cnt = 50 * np.exp(-0.5 * (lev - mu) ** 2) * (1 + 0.1 * np.sin(lev))
    lc = wo.LevelCrossings(cnt.copy(), lev.copy(), mean=mu, sigma=1.0, intensity=inten)
    tick(2)
    g, ge = lc.trdata(ntr=ntr, ne=ne, gsm=0.9)
    a = area(lev, cnt)
    close([ge.args[0], ge.args[-1]], [lev[ne], lev[-1 - ne]], 'range of the thinned levels', 1e-12, 1e-12)
    require(len(ge.args) == ntr, '%d levels for ntr=%d' % (len(ge.args), ntr))
    d = 1.0 / ntr if inten else 1.0
    want = (np.interp(ge.args, lev, a) + d / 2) / (a[-1] + d)
    p = 0.5 * np.array([math.erfc(-v / math.sqrt(2)) for v in ge.data])
    close(p, want, 'fraction of the crossings below each level', 0, 4e-3)
    require((np.abs(np.log(p[:3]) - np.log(want[:3])) < 0.05).all(), 'lower tail %s, want %s' % (p[:3], want[:3]))
    require((np.abs(np.log(1 - p[-3:]) - np.log(1 - want[-3:])) < 0.05).all(), 'upper tail')
    g1, _e = lc.trdata(ntr=0, ne=ne, gsm=0.9)
    t = np.linspace(-2, 2, 9)
    close(g.dat2gauss(t), g1.dat2gauss(t), 'thinned and full spectrum', 0, 0.05)
    return rnd(g.data[::64], 3)


# ---- from records ---------------------------------------------------------------------------------------------------
def record(kind, n):
    t = np.arange(n) * 0.1
    x = np.sin(t) + 0.5 * np.sin(2.3 * t + 1) + 0.4 * np.sin(5.1 * t + .3) + 0.3 * np.cos(0.37 * t)
    return {'even': x, 'steep': x + 0.15 * x ** 2, 'flat': x - 0.12 * x ** 2, 'ties': np.round(20 * x) / 20,
            'heavy': x + 0.1 * x ** 3, 'light': np.tanh(x)}[kind]


def f_record(case):
    kind, n, shift, scale = case
    x = shift + scale * record(kind, n)
    ts = wo.TimeSeries(x.copy(), np.arange(n) * 0.1)
    m, s = x.mean(), x.std()
    z = (x - m) / s
    sk, ku = (z ** 3).mean(), (z ** 4).mean() - 3
    t = m + s * np.linspace(-2, 2, 9)
    out = []
    tick(8)
    for o in ts.trdata('linear'):
        close(o.dat2gauss(t), (t - m) / s, 'linear', 1e-12, 1e-12)
    tr = ts.trdata('hermite')
    kurt = min(min(4 * (4 * sk / 3) ** 2, 13), max(ku, 1.5 * sk ** 2)) + 3
    want = wtm.TrHermite(mean=m, var=s * s, skew=sk, kurt=kurt)
    require(len(tr) == 2, 'two transformations')
    for o in tr:
        close([o.mean, o.sigma, o.skew, o.kurt], [m, s, sk, kurt], 'hermite moments', 1e-9, 1e-12)
        close(o.dat2gauss(t), want.dat2gauss(t), 'hermite', 1e-9, 1e-9)
    tr = ts.trdata('ochi')
    want = wtm.TrOchi(mean=m, var=s * s, skew=sk)
    require(len(tr) == 2, 'two transformations')
    for o in tr:
        close([o.mean, o.sigma, o.skew], [m, s, sk], 'ochi moments', 1e-9, 1e-12)
        close(o.dat2gauss(t), want.dat2gauss(t), 'ochi', 1e-9, 1e-9)
    for cd in ('uM', 1, 2):
        g, ge = ts.trdata('nonlinear', gsm=0.9, crossdef=cd)
        lc = ts.turning_points().cycle_pairs().level_crossings(cd)
        h, he = lc.trdata(mean=m, sigma=s, gsm=0.9)
        close(g.data, h.data, 'from the crossings of the record', 1e-9, 1e-9)
        close(ge.data, he.data, 'empirical, from the crossings of the record', 1e-9, 1e-9)
        close([g.mean, g.sigma, ge.mean, ge.sigma], [m, s, m, s], 'moments', 1e-9, 1e-12)
        out.append(g.data[::100])
    d = ts.trdata()
    g, ge = ts.trdata('nonlinear')
    close(d[0].data, g.data, 'the default method', 0, 0)
    # marginal distribution
    for gsm, ne, gvar in ((0.9, 7, 1), (1.0, 0, 1), (0.99, 3, (3.5, 0.5, 3.5))):
        (g, ge), w = quiet(lambda: ts.trdata('mnonlinear', gsm=gsm, ne=ne, gvar=gvar, param=(-3, 3, 31), chkder=False))
        xs = np.sort(x)
        at = np.array([(xs <= v).sum() for v in ge.args]) / (n + 1.0)
        close(ge.data, ndtri(at), 'empirical distribution at the data', 1e-9, 1e-9)
        uq = np.unique(xs)
        require(set(uq[:-1]) <= set(ge.args) <= set(uq), 'every distinct value takes part')
        k = slice(ne, len(ge.args) - ne)
        idx = np.array([(xs <= v).sum() - 1 for v in ge.args])
        v = gvars(gvar, n)[idx]
        close(g.args, m + s * np.linspace(-3, 3, 31), 'levels', 1e-12, 1e-12)
        if gsm == 1.0 or n <= 300:
            f, dd = smooth(ge.args[k], ge.data[k], gsm, v[k])
            close(g.data, [spline(ge.args[k], f, dd, q, True) for q in g.args], 'smoothed distribution', 1e-4, 1e-4 * (1 + np.abs(ge.data).max()))
        (gc, _e), w = quiet(lambda: ts.trdata('mnonlinear', gsm=gsm, ne=ne, gvar=gvar, param=(-3, 3, 31)))
        require(w or (np.diff(gc.data) > 0).all(), 'not increasing and no warning')
    require(np.array_equal(ts.data, x), 'the record was changed')
    return rnd(np.ravel(out), 3)


def f_cdfthin(case):
    kind, n, ntr = case
    x = record(kind, n)
    ts = wo.TimeSeries(x, np.arange(n) * 0.1)
    tick()
    g, ge = ts.trdata('mnonlinear', gsm=0.9, ntr=ntr)
    require(len(ge.args) <= ntr, '%d points for ntr=%d' % (len(ge.args), ntr))
    xs = np.sort(x)
    want = np.interp(ge.args, xs, np.arange(1, n + 1) / (n + 1.0))
    close([0.5 * math.erfc(-v / math.sqrt(2)) for v in ge.data], want, 'thinned distribution', 0, 1e-6)
    g1, _e = ts.trdata('mnonlinear', gsm=0.9, ntr=0)
    t = x.mean() + x.std() * np.linspace(-1.5, 1.5, 9)
    close(g.dat2gauss(t), g1.dat2gauss(t), 'thinned and full', 0, 0.1)
    return rnd(g.data[::64], 3)


# ---- extrapolation --------------------------------------------------------------------------------------------------
def tail(lev, cnt, u):
    """exceedances whose number above each level is the largest count at or above that level"""
    s = [(a, c) for a, c in zip(lev, cnt) if a > u]
    out, top = [], 0
    for a, c in reversed(s):
        if c > top:
            out += [a - u] * int(c - top)
            top = c
    return np.array(out)


def f_extra(case):
    lev, cnt, lo, hi, dist, sgn = case
    lev, cnt = np.array(lev, float), np.array(cnt, float)
    if sgn < 0:
        lev, cnt, lo, hi = -lev[::-1], cnt[::-1].copy(), None if hi is None else -hi, None if lo is None else -lo
    lc = wo.LevelCrossings(cnt.copy(), lev.copy(), mean=0.0, sigma=1.0)
    kw = {}
    if lo is not None:
        kw['u_min'] = lo
    if hi is not None:
        kw['u_max'] = hi
    tick()
    r = lc.extrapolate(dist=dist, **kw)
    require(np.array_equal(lc.data, cnt) and np.array_equal(lc.args, lev), 'the crossing spectrum was changed')
    big = np.flatnonzero(cnt > math.sqrt(cnt.max()))
    lo = lev[big[0]] if lo is None else lo
    hi = lev[big[-1]] if hi is None else hi
    require((np.diff(r.args) >= 0).all(), 'levels in order')
    require(r.mean == 0.0 and r.sigma == 1.0, 'moments are handed on')
    mid = (r.args > lo) & (r.args < hi)
    own = (lev > lo) & (lev < hi)
    close(r.args[mid], lev[own], 'levels between the limits', 0, 0)
    close(r.data[mid], cnt[own], 'counts between the limits', 0, 0)
    for side, u, ph, L, C in ((1, hi, r.phat_high, lev, cnt), (-1, lo, r.phat_low, -lev[::-1], cnt[::-1])):
        k = (side * r.args >= side * u)
        x = side * (r.args[k] - u)
        y = r.data[k]
        if side < 0:
            x, y = x[::-1], y[::-1]
        require(x[0] == 0 and x[-1] >= 4 - 1e-9, 'extrapolated range %s' % x)
        e = tail(L, C, side * u)
        close(np.sort(ph.data), np.sort(e), 'exceedances', 1e-12, 1e-12)
        top = np.interp(side * u, L, C) + 1
        p = ph.par
        if dist == 'expon':
            close(p, [0, e.mean()], 'mean exceedance', 1e-3, 1e-9)
            sf = np.exp(-x / p[-1])
        elif dist == 'genpar':
            c, s = p[0], p[-1]
            require(p[1] == 0, 'location %s' % p[1])
            with np.errstate(divide='ignore', invalid='ignore'):
                sf = np.where(1 + c * x / s < 1e-9, 0.0, np.abs(1 + c * x / s) ** (-1 / c)) if abs(c) > 1e-12 else np.exp(-x / s)
            if c < 0:
                near = np.abs(x + s / c) < 1e-6 * s / -c      # the very end point is decided by rounding
                x, y, sf = x[~near], y[~near], sf[~near]
            lim = getattr(ph, 'upperlimit', None)
            if c < 0:
                require(lim is not None, 'a bounded tail without an upper limit')
                close(lim, side * u - s / c, 'upper limit', 1e-9, 1e-9)
            else:
                require(lim is None or lim == np.inf, 'upper limit %s of an unbounded tail' % lim)
            ll = lambda c, s: (-math.inf if (1 + c * e / s <= 0).any() else -len(e) * math.log(s) - (1 + 1 / c) * np.log1p(c * e / s).sum()) if abs(c) > 1e-9 else -len(e) * math.log(s) - e.sum() / s
            best = ll(c, s)
            if c > -0.8:
                for dc, ds in itertools.product((-0.1, 0, 0.1), (0.9, 1, 1.1)):
                    require(ll(c + dc, s * ds) <= best + 1e-3 * (1 + abs(best)), 'better parameters (%g, %g) than (%g, %g)' % (c + dc, s * ds, c, s))
        else:
            c, s = p[0], p[-1]
            require(p[1] == 0, 'location %s' % p[1])
            sf = np.exp(-((x / s + c) ** 2 - c * c) / 2)
        close(y, top * sf, 'tail', 1e-8, 1e-10 * top)
    return rnd(np.r_[r.phat_high.par, r.phat_low.par], 3)


# ---- simulation -----------------------------------------------------------------------------------------------------
def spectrum(kind, n=61):
    lev = np.linspace(-4.5, 4.5, n)
    c = {'gauss': np.exp(-lev ** 2 / 2), 'skew': np.exp(-np.where(lev < 0, lev * 1.4, lev) ** 2 / 2)}[kind]
    return lev, 1000 * c


def f_sim(case):
    kind, alpha, n, seeds = case
    lev, cnt = spectrum(kind, 801)
    lc = wo.LevelCrossings(cnt.copy(), lev.copy())
    sel = np.flatnonzero(cnt > 0.15 * cnt.max())[::10]
    u, want = lev[sel], cnt[sel] / cnt.max()
    got, top, mx = np.zeros(len(u)), 0, 0
    for seed in range(1, seeds + 1):
        np.random.seed(seed)
        tick()
        r = lc.sim(n, alpha)
        require(r.shape == (n, 2) and np.isfinite(r).all(), 'shape %s' % (r.shape,))
        close(r[:, 0], np.arange(n), 'time column', 0, 0)
        if seed < 4:
            np.random.seed(seed)
            require(np.array_equal(r, lc.sim(n, alpha)), 'the same seed gives the same process')
        x = r[:, 1]
        got += [((x[:-1] <= v) & (x[1:] > v)).sum() for v in u]
        top += ((x[:-1] <= 0) & (x[1:] > 0)).sum()
        mx += ((x[1:-1] > x[:-2]) & (x[1:-1] >= x[2:])).sum()
    require(np.array_equal(lc.data, cnt), 'the crossing spectrum was changed')
    close(top / mx, alpha, 'irregularity factor', 0, 0.03)
    close(got / top, want, 'relative crossing spectrum', 0, 0.08 if kind == 'gauss' else 0.14)
    return rnd(got / top, 2)


def f_start(case):
    """the first values have the same distribution as later ones"""
    kind, alpha, n = case
    lev, cnt = spectrum(kind)
    lc = wo.LevelCrossings(cnt.copy(), lev.copy(), mean=0.0, sigma=1.0)
    s = np.zeros((n, 6))
    for k in range(n):
        np.random.seed(k + 1)
        s[k] = lc.sim(6, alpha)[:, 1]
        tick()
    v = (s ** 2).mean(axis=0)
    require((np.abs(v / v[0] - 1) < 0.1).all(), 'mean squares of the first values %s' % rnd(v, 3))
    c = [(s[:, i] * s[:, i + 1]).mean() / v[0] for i in range(5)]
    require(np.ptp(c) < 0.1, 'correlation of successive values %s' % rnd(c, 3))
    return rnd(v, 2)


def groups(tier):
    t = tier == 'thorough'
    lcs, K = [], 0
    for c in itertools.product((1, 9, 40), repeat=5):
        for lev in ([-3, -2, -1, 0, 1, 2, 3], [-4, -2.5, -0.5, 0, 1, 2.5, 3.5]):
            K += 1
            for gsm in ((1.0, 0.9, 0.3) if t else ((1.0, 0.9, 0.3)[K % 3], 1.0)):
                for ne, mean, inten in (((0, None, False), (1, 0.5, False), (0, -2.0, True)) if t else (((0, None, False), (1, 0.5, False), (0, -2.0, True), (1, None, True))[K % 4],)):
                    lcs.append([lev, [1] + list(c) + [1], mean, 1.5, gsm, ne, (1, 0.5, [3.5, 0.5, 3.5])[K % 3], inten, K % 5 > 0 or gsm == 1.0])
    ex = []
    base = [-4 + 0.25 * i for i in range(33)]
    for f in ('gauss', 'exp', 'flat', 'bumpy'):
        for top in (60, 400, 2000):
            c = [int(round(top * {'gauss': math.exp(-v * v / 2), 'exp': math.exp(-1.3 * abs(v)), 'flat': max(0, 1 - v * v / 16.5),
                                  'bumpy': math.exp(-v * v / 3) * (1 + 0.4 * math.sin(5 * v))}[f])) for v in base]
            for lo, hi in ((-2, 2), (-1.6, 1.1), (None, None), (None, 1.5), (-1, None)):
                for d in ('genpar', 'expon', 'rayleigh'):
                    for sgn in (1, -1):
                        need = np.array(c)
                        big = [v for v, q in zip(base, c) if q > math.sqrt(max(c))]
                        if all(len(set(tail(base if s > 0 else [-v for v in base[::-1]], c if s > 0 else c[::-1], b))) >= 3
                               for s, b in ((1, big[-1] if hi is None else hi), (-1, -(big[0] if lo is None else lo)))):
                            ex.append([base, c, lo, hi, d, sgn])
    return [
        Group('from-crossings', lcs, f_lc, note='crossing spectra x smoothing x trimmed levels x variances'),
        Group('thinned-crossings', [[n, q, ne, mu, i] for n in (81, 121, 301) for q in (41, 71) for ne in (0,) for mu in (0.0, 0.7, -1.0) for i in (False, True)], f_thin),
        Group('thinned-trimmed-crossings', [[301, 71, 20, 0.0, False]], f_thin),
        Group('from-records', [[k, n, sh, sc] for k in ('even', 'steep', 'flat', 'ties', 'heavy', 'light') for n in ((300, 1000, 2000) if t else (300, 800)) for sh, sc in ((0, 1), (5, 1), (-3, 2.5))], f_record, chunk=1),
        Group('thinned-records', [[k, n, q] for k in ('even', 'steep', 'heavy') for n in (600, 1500) for q in (200, 400)], f_cdfthin, chunk=1),
        Group('extrapolated', ex if t else ex[::2] + ex[1::4], f_extra),
        Group('simulated', [[k, a, 100, 800 if t else 400] for k in ('gauss', 'skew') for a in (0.2, 0.35, 0.5, 0.65, 0.8, 0.95)], f_sim, chunk=1),
        Group('simulated-start', [['gauss', a, 4000 if t else 2000] for a in (0.3, 0.45, 0.6, 0.8, 0.95)], f_start, chunk=1),
    ]
