"""P25 Preprocessing of records: trends, outliers, Fourier coefficients, histograms and small catalogues."""
import itertools
import math
import re
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from vk import Group, Fail, tick
from ref import close, require
import wafo.misc as wm

PROPERTY = 'P25'
ASSUMPTIONS = ['records of at most 7 values over small alphabets, windows up to 4 points on either side; trapezoidal sums computed directly']


# ---------------------------------------------------------------- moving average
def ma(x, L):
    """the trend as WAFO defines it (and the existing tests pin): the mean of the first window, advanced by
    (x[i+L]-x[i-L])/(2L) from point to point, held constant over the first and last L points"""
    n = len(x)
    if n < 2 * L + 1:
        return [sum(x) / n] * n
    mn = sum(x[:2 * L + 1]) / (2 * L + 1)
    y = [mn] * (L + 1)
    for i in range(L + 1, n - L):
        y.append(y[-1] + (x[i + L] - x[i - L]) / (2.0 * L))
    return y + [y[-1]] * (n - len(y))


def f_ma(case):
    x, L, kind = case
    d = list(x) if kind == 'list' else np.array(x, dtype=kind)
    keep = list(d)
    got = np.asarray(wm.moving_average(d, L))
    want = ma(x, L)
    close(got, want, 'moving average, L=%d, %s' % (L, kind), 1e-12, 1e-12)
    close(wm.detrendma(d, L), [a - b for a, b in zip(x, want)], 'detrendma', 1e-12, 1e-12)
    require(list(d) == keep, 'the record was changed')
    tick(2)
    if kind == 'float':
        n = len(x)
        lin = [2 + 3 * v for v in range(n)]
        t = np.asarray(wm.moving_average(np.array(lin, float), L))
        if n >= 2 * L + 1:
            close(t[L:n - L], lin[L:n - L], 'a straight line is its own trend', 1e-12, 1e-12)
        close(wm.detrendma(np.array(x) * 2 + 5, L), 2 * np.asarray(wm.detrendma(np.array(x), L)), 'detrending removes the level', 1e-10, 1e-10)
        for y, ax in ((np.vstack((x, lin)), 1), (np.vstack((x, lin)).T, 0), (np.vstack((x, lin)), -1)):
            w = np.vstack((want, ma(lin, L)))
            close(wm.moving_average(y, L, axis=ax), w if ax else w.T, 'matrix, axis %d' % ax, 1e-12, 1e-12)
            z = y - (w if ax else w.T)
            close(wm.detrendma(y, L, axis=ax), z, 'detrendma of a matrix, axis %d' % ax, 1e-12, 1e-12)
            tick(2)
        cube = np.array(x, float).reshape(1, -1, 1) * np.array([1., -2.])
        close(np.asarray(wm.moving_average(cube, L, axis=1))[0, :, 1], [-2 * v for v in want], 'three dimensional array', 1e-12, 1e-12)


def f_ma_window(case):
    x, L = case
    n = len(x)
    got = np.asarray(wm.moving_average(np.array(x, float), L))
    tick(1)
    close(got[L:n - L], [sum(x[i - L:i + L + 1]) / (2 * L + 1.0) for i in range(L, n - L)], 'mean over the window of 2L+1 points', 1e-12, 1e-12)


def f_ma_bad(case):
    L, = case
    for f in (wm.moving_average, wm.detrendma):
        tick(1)
        try:
            f(np.arange(6.), L)
        except (ValueError, AssertionError, TypeError):
            continue
        raise Fail('L=%r is accepted' % (L,))


# ---------------------------------------------------------------- outliers
def f_out(case):
    x, zcrit, dcrit, ddcrit = case
    a = np.array(x, float)
    keep = a.copy()
    ind, good = wm.findoutliers(a, zcrit, dcrit, ddcrit)
    tick(1)
    require(np.array_equal(a, keep, equal_nan=True), 'the record was changed')
    ind, good = [int(v) for v in ind], [int(v) for v in good]
    n = len(x)
    require(sorted(ind + good) == list(range(n)), 'spurious %r and good %r do not share out the %d points' % (ind, good, n))
    require(ind == sorted(ind) and good == sorted(good), 'indices out of order')
    bad = set(ind)
    z = [0.0 if math.isnan(v) else v for v in x]
    dx = [z[k + 1] - z[k] for k in range(n - 1)]
    dd = [dx[k + 1] - dx[k] for k in range(n - 2)]
    why = set()
    for k, v in enumerate(x):
        if math.isnan(v):
            require(k in bad, 'missing value %d is reported as good' % k)
            why.add(k)
    for k, d in enumerate(dx):
        if abs(d) > dcrit:
            q = k + 1 if d > 0 else k           # the point after a jump up, the point before a jump down
            require(q in bad, 'jump of %g from %d to %d: point %d is reported as good' % (d, k, k + 1, q))
            why.add(q)
        if abs(d) <= zcrit:
            for q in (k - 1, k, k + 1, k + 2):
                if 0 <= q < n:
                    require(q in bad, 'point %d beside equal values %d,%d is reported as good' % (q, k, k + 1))
                    why.add(q)
    for k, d in enumerate(dd):
        if abs(d) > ddcrit:
            q = k + 1 if d > 0 else k
            require(q in bad, 'second difference %g at %d: point %d is reported as good' % (d, k, q))
            why.add(q)
            if abs(dx[k]) > dcrit and abs(dx[k + 1]) > dcrit and dx[k] * dx[k + 1] < 0:
                require(k + 1 in bad, 'the spike at %d is reported as good' % (k + 1))
    require(bad <= why, 'points %r are reported without reason' % sorted(bad - why))
    # mirror images: the direction of the values is irrelevant to missing and constant stretches; a shift never matters
    if not any(math.isnan(v) for v in x):
        i2, _ = wm.findoutliers(a + 3.0, zcrit, dcrit, ddcrit)
        require([int(v) for v in i2] == ind, 'a change of level changes the outliers')
        i3, _ = wm.findoutliers([int(4 * v) for v in x], 4 * zcrit, 4 * dcrit, 4 * ddcrit)
        require([int(v) for v in i3] == ind, 'a change of unit changes the outliers')
        tick(2)


def f_out_default(case):
    x, = case
    s = float(np.std(x))
    got = wm.findoutliers(np.array(x, float))
    want = wm.findoutliers(np.array(x, float), 0.0, 1.5 * s, 1.5 * s)
    require(np.array_equal(got[0], want[0]) and np.array_equal(got[1], want[1]), 'default limits are not 1.5 standard deviations')
    tick(2)


# ---------------------------------------------------------------- Fourier coefficients
def trapz(f, t):
    return sum((t[k + 1] - t[k]) * (f[k] + f[k + 1]) / 2.0 for k in range(len(t) - 1))


def f_fourier(case):
    coef, T, nper, t0 = case
    a0, a1, b1, a2, b2 = coef
    n = 24 * nper + 1
    t = t0 + T * nper * np.arange(n) / (n - 1.0)
    w = 2 * math.pi / T
    x = 0.5 * a0 + a1 * np.cos(w * t) + b1 * np.sin(w * t) + a2 * np.cos(2 * w * t) + b2 * np.sin(2 * w * t)
    tk, xk = t.copy(), x.copy()
    a, b = wm.fourier(x, t, period=T, m=5)
    tick(1)
    require(a.shape == (5, 1) and b.shape == (5, 1), 'shape of the coefficients')
    # the integral runs over the whole record of nper periods
    close(a.ravel() / nper, [a0, a1, a2, 0, 0], 'cosine coefficients for period %g' % T, 1e-9, 1e-9)
    close(b.ravel() / nper, [0, b1, b2, 0, 0], 'sine coefficients for period %g' % T, 1e-9, 1e-9)
    require(t.shape == tk.shape and np.array_equal(t, tk) and np.array_equal(x, xk), 'the record was changed')
    if nper == 1:
        A, B = wm.fourier(np.vstack((x, 2 * x - 1)), t, m=4)
        close(A[:, 0], a[:4, 0], 'default period', 1e-9, 1e-9)
        close(A[:, 1], 2 * a[:4, 0] - np.array([2., 0, 0, 0]), 'second row', 1e-9, 1e-9)
        close(B[:, 1], 2 * b[:4, 0], 'second row', 1e-9, 1e-9)
        s, _ = wm.fourier(x, t, period=T, m=4, method='simps')
        close(s.ravel(), [a0, a1, a2, 0], "Simpson's rule", 1e-3, 1e-3)
        tick(2)


def f_fourier_any(case):
    x, = case
    n = len(x)
    a, b = wm.fourier(np.array(x, float))
    T = n - 1.0
    tick(1)
    for k in range(n):
        close(a[k, 0], 2 / T * trapz([v * math.cos(2 * math.pi * k * i / T) for i, v in enumerate(x)], range(n)), 'a[%d]' % k, 1e-9, 1e-9)
        close(b[k, 0], 2 / T * trapz([v * math.sin(2 * math.pi * k * i / T) for i, v in enumerate(x)], range(n)), 'b[%d]' % k, 1e-9, 1e-9)


# ---------------------------------------------------------------- histograms
def f_bins(case):
    lo, width, nb, odd, loose = case
    hi = lo + width
    g = np.asarray(wm.good_bins(range=(lo, hi), num_bins=nb, odd=odd, loose=loose))
    d = np.diff(g)
    tick(1)
    require(g.ndim == 1 and len(g) >= 2, 'bins %r' % (g,))
    require(np.all(d > 0) and np.allclose(d, d[0], rtol=1e-6), 'bins of unequal width')
    step = float(d[0])
    m = step / 10.0 ** math.floor(math.log10(step) + 1e-9)
    require(min(abs(m - q) for q in (1, 2, 5)) < 1e-6, 'bin width %g is not 1, 2 or 5 times a power of ten' % step)
    require(step <= 2.0 * width / nb * (1 + 1e-9), 'bins of %g for %d bins of %g' % (step, nb, width))
    tol = 1e-9 * (abs(lo) + abs(hi) + step)
    require(g[0] <= lo + tol and g[-1] >= hi - tol, 'the bins %g..%g do not cover %g..%g' % (g[0], g[-1], lo, hi))
    extra = (1 if loose else 0) + (0.5 if odd else 0)
    require(g[0] > lo - (1 + extra) * step - tol and g[-1] < hi + (1 + extra) * step + tol, 'needless bins')
    if loose:
        require(g[0] <= lo - step * 0.999 and g[-1] >= hi + step * 0.999, 'no empty bin at the ends')
    frac = (g[0] / step) % 1
    require(abs(g[0] / step) > 1e4 or min(abs(frac - (0.5 if odd else 0)), abs(frac - (1 if not odd else 0.5))) < 1e-6, 'bins are not placed at multiples of the width')
    x = np.linspace(lo, hi, 16)
    close(wm.good_bins(x, num_bins=nb, odd=odd, loose=loose), g, 'range of the data', 1e-9, tol)
    close(wm.good_bins(x, odd=odd, loose=loose), wm.good_bins(range=(lo, hi), num_bins=8, odd=odd, loose=loose), 'default number of bins', 1e-9, tol)


def f_hist(case):
    data, bins, dens = case
    x = np.array(data, float)
    b = np.array(bins, float)
    lines = wm.plot_histgrm(x, bins=b, density=dens)
    xx, yy = lines[0].get_data()
    lim = lines[1].get_xdata()
    plt.cla()
    tick(1)
    require(b.shape == (len(bins),) and list(b) == list(bins), 'the bins were changed: shape %r' % (b.shape,))
    require(list(x) == list(data), 'the data were changed')
    cnt = []
    for k in range(len(bins) - 1):
        last = k == len(bins) - 2
        cnt.append(sum(1 for v in data if bins[k] <= v < bins[k + 1] or (last and v == bins[k + 1])))
    tot = float(sum(cnt))
    h = [c / tot / (bins[k + 1] - bins[k]) if dens else c for k, c in enumerate(cnt)]
    close(np.ravel(lim), bins, 'limits', 0, 0)
    # outline: up at the left edge, along the top, down at the right edge of every bar
    wx, wy = [bins[0]], [0.0]
    wx = []
    for v in bins:
        wx += [v, v, v]
    wx = wx[1:-1]
    wy = []
    for v in h:
        wy += [0, v, v]
    wy += [0]
    close(xx, wx, 'abscissae of the outline', 1e-12, 0)
    close(yy, wy, 'heights of the outline', 1e-12, 0)


# ---------------------------------------------------------------- catalogues and small tools
REL = dict(length=lambda w: 3.45 * w ** 0.40, beam=lambda w: 1.78 * w ** 0.27, draught=lambda w: 0.8 * w ** 0.24, service_speed=lambda w: 1.14 * w ** 0.21,
           max_deadweight=lambda w: w)
ROUND = dict(length=1.0, beam=0.1, draught=0.1, service_speed=0.1, max_deadweight=1.0)


def f_ship(case):
    w, prop = case
    true = dict((k, f(w)) for k, f in REL.items())
    true['propeller_diameter'] = 0.12 * true['length'] ** 0.75
    sc = wm.getshipchar(**{prop: true[prop]})
    tick(1)
    names = set(true)
    require(set(sc) == names | set(k + 'STD' for k in names), 'characteristics %r' % sorted(sc))
    for k in names:
        tol = ROUND.get(k, 0.12 * 0.75 * true['length'] ** -0.25 * 1.0) * 0.5001 + 1e-9 * true[k]
        require(abs(float(sc[k]) - true[k]) <= tol, '%s of a ship with %s=%g: %g instead of %g' % (k, prop, true[prop], sc[k], true[k]))
        if k == prop:
            require(sc[k + 'STD'] == 0, 'the given %s has a deviation' % k)
        else:
            require(sc[k + 'STD'] > 0, '%s has no deviation' % k)
            # the deviations of the worked example are 10, 22 and 10 per cent, and length ** 0.13
            e = float(sc[k + 'STD'])
            L = float(sc['length']) ** 0.13
            close(e, L if k == 'length' else 0.12 * L ** 0.75 if k == 'propeller_diameter' else float(sc[k]) * (0.22 if k == 'draught' else 0.1), 'deviation of the %s' % k, 1e-12, 0)
    for bad in ({}, {'length': 100, 'beam': 10}):
        try:
            wm.getshipchar(**bad)
        except (ValueError, AssertionError):
            continue
        raise Fail('%r is accepted' % bad)


def f_pistr(case):
    p, q = case
    x = math.pi * p / q
    txt = wm.num2pistr(x)
    tick(1)
    f = p / q
    m = re.fullmatch(r'(-?\d*)\\pi(?:/(\d+))?', txt)
    if m:
        num = {'': 1, '-': -1}.get(m.group(1))
        num = int(m.group(1)) if num is None else num
        den = int(m.group(2)) if m.group(2) else 1
        require(num * q == p * den, '%d/%d pi is written %s' % (p, q, txt))
        require(math.gcd(abs(num), den) == 1, 'fraction %s not reduced' % txt)
    else:
        g = math.gcd(abs(p), q)
        require(p == 0 or abs(p // g) >= 10 or q // g >= 10, '%d/%d pi is written %s' % (p, q, txt))
        require(abs(float(txt) - x) <= 5.1e-3 * abs(x), '%g is written %s' % (x, txt))
    require(wm.num2pistr(0.25 + p) == '{:0.3g}'.format(0.25 + p), 'a number that is no fraction of pi')


def f_small(case):
    k, = case
    if k == 'gravity':
        prev = None
        for phi in range(0, 91):
            g = float(wm.gravity(phi))
            s = math.sin(math.radians(phi)) ** 2
            close(g, 9.780318 * (1 + 0.0053024 * s - 5.9e-6 * math.sin(2 * math.radians(phi)) ** 2), 'gravity at %d degrees (GRS formula)' % phi, 5e-5, 0)
            close(g, 9.78049 * (1 + 0.0052884 * s - 0.0000059 * math.sin(2 * math.radians(phi)) ** 2), 'gravity at %d degrees (stated formula)' % phi, 1e-13, 0)
            require(prev is None or g > prev, 'gravity does not grow towards the pole')
            prev = g
            close(wm.gravity(-phi), g, 'southern latitudes', 1e-14, 0)
            tick(2)
        close(wm.gravity(np.arange(91)), [float(wm.gravity(v)) for v in range(91)], 'array of latitudes', 1e-14, 0)
    elif k == 'random':
        for seed in range(20):
            a = wm.check_random_state(seed).uniform(size=4)
            require(np.array_equal(a, np.random.RandomState(seed).uniform(size=4)), 'seed %d' % seed)
            require(np.array_equal(a, wm.check_random_state(np.int64(seed)).uniform(size=4)), 'seed %d of numpy type' % seed)
            r = np.random.RandomState(seed)
            require(wm.check_random_state(r) is r, 'a generator is passed on')
            tick(3)
        require(wm.check_random_state(None) is np.random.mtrand._rand and wm.check_random_state(np.random) is np.random.mtrand._rand, 'global generator')
        for bad in ('a', 1.5, [1]):
            try:
                wm.check_random_state(bad)
            except ValueError:
                continue
            raise Fail('seed %r is accepted' % (bad,))
    elif k == 'containers':
        d = wm.DotDict(a=1, b=2)
        d['c'] = 3
        require((d.a, d.b, d.c) == (1, 2, 3), 'DotDict')
        try:
            d.missing
            raise Fail('a missing key of DotDict is found')
        except (KeyError, AttributeError):
            pass
        b = wm.Bunch(x=1)
        b.y = 2
        b.update(x=5, z=7)
        require(sorted(b.keys()) == ['x', 'y', 'z'] and (b.x, b.y, b.z) == (5, 2, 7), 'Bunch')
        j = wm.JITImport('math')
        require(j.gcd(12, 18) == 6 and j.pi == math.pi, 'JITImport')
        try:
            j.no_such_name
            raise Fail('JITImport invents names')
        except AttributeError:
            pass
        for o, r in ((1, True), (1.5, True), (np.zeros(2), True), ('a', False), ([1], False), (None, False)):
            require(bool(wm.is_numlike(o)) == r, 'is_numlike(%r)' % (o,))
        for sh in ((2,), (2, 3), ()):
            v = wm.valarray(sh, 2.5)
            require(np.shape(v) == sh and np.all(v == 2.5), 'valarray')
            require(np.all(np.isnan(wm.valarray(sh))), 'valarray default')
            require(wm.valarray(sh, 1, int).dtype == int, 'valarray type')
        tick(12)


def groups(tier):
    T = tier == 'thorough'
    A = (0., 1., -2.)
    G = []
    c = [(list(x), L, k) for n in range(1, 9 if T else 8) for x in itertools.product(A, repeat=n) for L in (1, 2, 3) for k in (('float',) if n > 5 else ('float', 'int', 'list'))]
    G.append(Group('trend', c, f_ma, chunk=128, note='every record over {0,1,-2} of up to 7 values (8 thorough), L=1..3, arrays, lists, integers, matrices'))
    G.append(Group('trend-window', [([1, 0, 0, 0, 0], 1)], f_ma_window, chunk=1, note='documented window mean (known finding)'))
    G.append(Group('trend-refusals', [(0,), (-1,), (1.5,)], f_ma_bad, chunk=1, note='windows refused'))
    nan = float('nan')
    B = (0., 1., 5., nan)
    c = [(list(x), z, d, dd) for n in range(3, 7 if T else 6) for x in itertools.product(B, repeat=n) for z, d, dd in ((0., 2., 2.), (0., 3., 100.), (0., 100., 3.), (-1., 2., 3.), (1., 3., 3.), (-1., 100., 100.))]
    c += [(list(x), 0., 2., 2.) for n in (6, 7) for x in itertools.product((0., 1., 5.), repeat=n)]
    G.append(Group('outliers', c, f_out, chunk=128, note='every record over {0,1,5,missing} of 3..5 values (6 thorough) and over {0,1,5} of 6..7 values, six sets of limits'))
    G.append(Group('outlier-defaults', [(list(x),) for n in (3, 4, 5) for x in itertools.product((0., 1., 5., -2.), repeat=n)], f_out_default, chunk=128, note='default limits'))
    G.append(Group('fourier', [(cf, Tp, np_, t0) for cf in itertools.product((0., 1.), (0., -2.), (0., 1.5), (0., 1.), (0., 3.)) for Tp in (2 * math.pi, 1., 5., 0.1) for np_ in (1, 2, 3) for t0 in (0., )],
                   f_fourier, chunk=16, note='trigonometric polynomials of every coefficient pattern, periods, number of periods'))
    G.append(Group('fourier-any', [(list(x),) for n in (2, 3, 4, 5) for x in itertools.product((0., 1., -2.), repeat=n)], f_fourier_any, chunk=32, note='coefficients of arbitrary records'))
    G.append(Group('bins', [(lo, w, nb, o, l) for lo in (0., -1., 0.3, -7.7, 100., 1e-3) for w in (1., 0.5, 3., 7.3, 1e-3, 250., 1e4, 0.99, 2.5) for nb in range(1, 25) for o in (False, True) for l in (False, True)],
                   f_bins, chunk=64, note='range x number of bins x options'))
    G.append(Group('histogram', [(list(x), b, d) for n in (1, 2, 3, 4) for x in itertools.product((0., 1., 2.5, 4.), repeat=n) for b in ([0., 1., 2., 4.], [-1., 2.5, 5.], [0., 4.]) for d in (False, True)],
                   f_hist, chunk=128, note='outline of every histogram'))
    G.append(Group('ships', [(w, p) for w in (100., 500., 1000., 5000., 12345., 30969., 80000., 200000.) for p in ('length', 'beam', 'draught', 'service_speed', 'max_deadweight', 'propeller_diameter')], f_ship, chunk=4, note='every characteristic from every other'))
    G.append(Group('pi-text', [(p, q) for p in range(-30, 31) for q in range(1, 15)], f_pistr, chunk=64, note='fractions of pi'))
    G.append(Group('small', [('gravity',), ('random',), ('containers',)], f_small, chunk=1, note='gravity, random states, containers'))
    return G
