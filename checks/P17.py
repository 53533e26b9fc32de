"""P17 Piecewise polynomials, smoothing splines, slope estimates, shape preserving interpolation and polynomial smoothing."""
import itertools
import math
import numpy as np
from vk import Group, Fail, tick
from ref import close, require, rnd
import wafo.interpolate as wi

PROPERTY = 'P17'
ASSUMPTIONS = ['data over small value lattices, up to 7 nodes; at a jump of a piecewise polynomial either one-sided value is accepted']


def untouched(pairs):
    for a, b in pairs:
        require(np.array_equal(a, b), 'the caller\'s data were changed: %s -> %s' % (a, b))


# ---- piecewise polynomials ------------------------------------------------------------------------------------------
def pieces(c, br, x):
    """values of the pieces that apply at x (two at an inner break)"""
    out = []
    for j in range(len(br) - 1):
        if br[j] <= x <= br[j + 1]:
            out.append(float(np.polyval([r[j] for r in c], x - br[j])))
    return out


def match(pp, c, br, x, what, fill=0.0, extra=None):
    got = pp(x)
    require(np.shape(got) == np.shape(x), '%s: shape %s for argument of shape %s' % (what, np.shape(got), np.shape(x)))
    for g, t in zip(np.ravel(got), np.ravel(x)):
        w = pieces(c, br, t) or [fill if extra is None else extra(t)]
        if not any(abs(g - v) <= 1e-9 * (1 + abs(v)) for v in w):
            raise Fail('%s at %s: got %r, want %r' % (what, t, g, w))
    return got


def f_pp(case):
    c, br, fill = case
    C, B = np.array(c, float), np.array(br, float)
    keep = C.copy(), B.copy()
    lo, hi = br[0], br[-1]
    x = np.array(sorted(set(list(br) + [lo - 1, lo - 0.25, hi + 0.5, hi + 2] + [a + f * (b - a) for a, b in zip(br, br[1:]) for f in (0.2, 0.7)])))
    xi = np.arange(int(lo) - 2, int(hi) + 3)
    pp = wi.PPform(C, B, fill=fill)
    tick(8)
    out = match(pp, c, br, x, 'value', fill)
    match(pp, c, br, xi, 'value at integers', fill)
    match(pp, c, br, x.reshape(1, -1), 'value', fill)
    match(wi.PPform(np.array(c, int) if all(float(v).is_integer() for r in c for v in r) else C, list(br), fill=fill), c, br, x, 'value for integer coefficients', fill)
    order, n = len(c), len(br) - 1
    if order > 1:
        dc = [[r[j] * (order - 1 - i) for j in range(n)] for i, r in enumerate(c[:-1])]
        match(pp.derivative(), dc, br, x, 'derivative', fill)
    ic, s = [[r[j] / (order - i) for j in range(n)] for i, r in enumerate(c)] + [[0.0] * n], 0.0
    for j in range(n):
        ic[-1][j] = s
        s = float(np.polyval([r[j] for r in ic], br[j + 1] - br[j]))
    match(pp.integrate(), ic, br, x, 'integral from the first break', fill)
    vl, vr = c[-1][0], float(np.polyval([r[-1] for r in c], br[-1] - br[-2]))
    sl = c[-2][0] if order > 1 else 0.0
    sr = float(np.polyval(np.polyder([r[-1] for r in c]), br[-1] - br[-2])) if order > 1 else 0.0

    def ext(t):
        return vl + sl * (t - lo) if t < lo else vr + sr * (t - hi)
    e = pp.linear_extrapolate()
    match(e, c, br, x, 'linear extrapolation', extra=ext)
    match(pp, c, br, x, 'value after extrapolating a copy', fill)
    if order > 1:
        match(e.derivative(), dc, br, x, 'derivative of the extrapolation', extra=lambda t: sl if t < lo else sr)
    pp.linear_extrapolate(output=False)
    match(pp, c, br, x, 'linear extrapolation in place', extra=ext)
    untouched(zip(keep, (C, B)))
    return rnd(out)


# ---- smoothing spline -----------------------------------------------------------------------------------------------
def smooth(x, y, p, var):
    """fitted values and second derivatives of the minimiser of p*sum((y-s)**2/var) + (1-p)*int s''**2"""
    n = len(x)
    h = np.diff(x)
    if n == 2:
        return y.copy(), np.zeros(2)
    Q, R = np.zeros((n, n - 2)), np.zeros((n - 2, n - 2))
    for j in range(n - 2):
        Q[j, j], Q[j + 1, j], Q[j + 2, j] = 1 / h[j], -1 / h[j] - 1 / h[j + 1], 1 / h[j + 1]
        R[j, j] = (h[j] + h[j + 1]) / 3
        if j:
            R[j, j - 1] = R[j - 1, j] = h[j] / 6
    D = np.diag(var)
    if p is None:
        QDQ = Q.T.dot(D).dot(Q)
        p = 1.0 / (1.0 + np.trace(QDQ) / (100.0 * (6 * np.trace(R)) ** 2))
    # (6(1-p)Q'DQ + 6pR) u = Q'y ; s'' = 6 p u ; s = y - 6(1-p) D Q u
    u = np.linalg.solve(6 * (1 - p) * Q.T.dot(D).dot(Q) + 6 * p * R, Q.T.dot(y))
    return y - 6 * (1 - p) * D.dot(Q).dot(u), np.r_[0, 6 * p * u, 0]


def spline(x, g, m, t, lin):
    if t < x[0] or t > x[-1]:
        if not lin:
            return 0.0
        if t < x[0]:
            h = x[1] - x[0]
            return g[0] + (t - x[0]) * ((g[1] - g[0]) / h - h * m[1] / 6)
        h = x[-1] - x[-2]
        return g[-1] + (t - x[-1]) * ((g[-1] - g[-2]) / h + h * m[-2] / 6)
    i = min(max(int(np.searchsorted(x, t)) - 1, 0), len(x) - 2)
    h = x[i + 1] - x[i]
    a, b = (x[i + 1] - t) / h, (t - x[i]) / h
    return a * g[i] + b * g[i + 1] + ((a ** 3 - a) * m[i] + (b ** 3 - b) * m[i + 1]) * h * h / 6


def f_smooth(case):
    x, y, p, var, lin = case
    X, Y = np.array(x, float), np.array(y, float)
    V = np.ones(len(x)) * var if np.isscalar(var) else np.array(var, float)
    keep = X.copy(), Y.copy()
    o = np.argsort(X)
    g, m = smooth(X[o], Y[o], p, V[o])
    t = np.r_[X.min() - 1.7, X.min() - 0.3, np.sort(X), 0.5 * (np.sort(X)[1:] + np.sort(X)[:-1]), X.max() + 0.4, X.max() + 3]
    s = wi.SmoothSpline(X, Y, p, lin_extrap=lin, var=var if np.isscalar(var) else V)
    tick(2)
    close(s(t), [spline(X[o], g, m, v, lin) for v in t], 'smoothing spline p=%s' % p, 1e-7, 1e-7)
    if p == 1:
        close(s(X), Y, 'p=1 interpolates', 1e-8, 1e-8)
    if p == 0 and len(x) > 2:
        w = 1 / np.sqrt(V)
        c = np.polyfit(X, Y, 1, w=w)
        close(s(X), np.polyval(c, X), 'p=0 is the least squares line', 1e-7, 1e-7)
    ti = np.arange(int(X.min()), int(X.max()) + 1)
    close(s(ti), [spline(X[o], g, m, float(v), lin) for v in ti], 'at integers', 1e-7, 1e-7)
    untouched(zip(keep, (X, Y)))
    return rnd(s(t), 4)


# ---- slopes ---------------------------------------------------------------------------------------------------------
METHODS = ('parabola', 'secant', 'cardinal', 'Catmull-Rom', 'akima', 'pchip', 'stineman', 'steffen', 'fritsch')
sg = lambda v: (v > 0) - (v < 0)


def slope_ref(x, y, method, tension=0.0):
    n = len(x)
    h = [b - a for a, b in zip(x, x[1:])]
    d = [(y[i + 1] - y[i]) / h[i] for i in range(n - 1)]
    if n == 2:
        return [d[0] * (1 - tension if method == 'cardinal' else 1)] * 2
    m = [0.0] * n
    if method in ('secant', 'cardinal', 'Catmull-Rom'):
        for i in range(1, n - 1):
            m[i] = 0.5 * (d[i - 1] + d[i]) if method == 'secant' else (y[i + 1] - y[i - 1]) / (x[i + 1] - x[i - 1])
        m[0], m[-1] = d[0], d[-1]
        return [(1 - tension) * v for v in m] if method == 'cardinal' else m
    if method == 'parabola':
        for i in range(1, n - 1):
            m[i] = (d[i - 1] * h[i] + d[i] * h[i - 1]) / (h[i] + h[i - 1])
        m[0], m[-1] = 2 * d[0] - m[1], 2 * d[-1] - m[-2]
    elif method == 'akima':
        e = [0, 0] + d + [0, 0]
        e[1] = 2 * e[2] - e[3]
        e[0] = 2 * e[1] - e[2]
        e[-2] = 2 * e[-3] - e[-4]
        e[-1] = 2 * e[-2] - e[-3]
        w = [abs(e[i + 1] - e[i]) for i in range(len(e) - 1)]
        top = max(w[i] + w[i + 2] for i in range(n))
        for i in range(n):
            s = w[i] + w[i + 2]
            m[i] = (w[i + 2] * e[i + 1] + w[i] * e[i + 2]) / s if s > 1e-9 * top else 0.5 * (e[i] + e[i + 3])
    elif method in ('pchip', 'fritsch'):
        for i in range(1, n - 1):
            if d[i - 1] * d[i] > 0:
                a, b = 2 * h[i] + h[i - 1], h[i] + 2 * h[i - 1]
                m[i] = (a + b) / (a / d[i - 1] + b / d[i])
        if method == 'fritsch':
            m[0], m[-1] = 2 * d[0] - m[1], 2 * d[-1] - m[-2]
        else:
            def edge(h0, h1, m0, m1):
                v = ((2 * h0 + h1) * m0 - h0 * m1) / (h0 + h1)
                if sg(v) != sg(m0):
                    return 0.0
                if sg(m0) != sg(m1) and abs(v) > 3 * abs(m0):
                    return 3 * m0
                return v
            m[0], m[-1] = edge(h[0], h[1], d[0], d[1]), edge(h[-1], h[-2], d[-1], d[-2])
    elif method == 'steffen':
        for i in range(1, n - 1):
            p = (d[i - 1] * h[i] + d[i] * h[i - 1]) / (h[i] + h[i - 1])
            m[i] = (sg(d[i - 1]) + sg(d[i])) * min(abs(d[i - 1]), abs(d[i]), 0.5 * abs(p))
        for i, j, k in ((0, 0, 1), (-1, -1, -2)):
            p = d[j] * (1 + h[j] / (h[j] + h[k])) - d[k] * h[j] / (h[j] + h[k])
            m[i] = (sg(p) + sg(d[j])) * min(abs(d[j]), 0.5 * abs(p))
    else:
        for i in range(1, n - 1):
            a, b = h[i - 1] ** 2 * (1 + d[i - 1] ** 2), h[i] ** 2 * (1 + d[i] ** 2)   # squared chord lengths
            m[i] = (h[i - 1] * d[i - 1] * b + h[i] * d[i] * a) / (h[i - 1] * b + h[i] * a)
        for i, j, k in ((0, 0, 1), (-1, -1, -2)):
            q = d[j] - m[k]
            m[i] = 2 * d[j] - m[k] if sg(d[j]) * q >= 0 else d[j] + abs(d[j]) * q / (abs(d[j]) + abs(q))
    return m


def f_slopes(case):
    x, y, method, tension = case
    X, Y = np.array(x, float), np.array(y, float)
    keep = X.copy(), Y.copy()
    tick(5)
    kw = dict(tension=tension) if tension else {}
    got = wi.slopes(X, Y, method, **kw)
    close(got, slope_ref(x, y, method, tension), 'slopes by %s' % method)
    close(wi.slopes(x, y, method, **kw), got, 'lists')
    close(wi.slopes(X, -Y, method, **kw), -got, 'slopes of -y', 1e-9, 1e-9)
    close(wi.slopes(-X[::-1], Y[::-1], method, **kw), -got[::-1], 'slopes of the mirrored data', 1e-8, 1e-9)
    close(wi.slopes(X + 3, Y - 2, method, **kw), got, 'slopes of the shifted data', 1e-8, 1e-9)
    sx, sy = X.max() - X.min(), (Y.max() - Y.min()) or 1.0
    close(wi.slopes(X, Y, method, scale=True, **kw), np.array(slope_ref((X / sx).tolist(), (Y / sy).tolist(), method, tension)) * sy / sx,
          'slopes of the scaled data')
    Z = np.column_stack((Y, np.arange(len(Y)) ** 2, -2 * Y))
    tick()
    M = wi.slopes(X, Z, method, **kw)
    close(M[:, 0], got, 'slopes of the first column', 1e-9, 1e-9)
    close(M[:, 1], wi.slopes(X, Z[:, 1], method, **kw), 'slopes of the second column', 1e-9, 1e-9)
    untouched(zip(keep, (X, Y)))
    return rnd(got)


def f_mono(case):
    x, y, method = case
    X, Y = np.array(x, float), np.array(y, float)
    yp = wi.slopes(X, Y, method, monotone=True)
    tick(2)
    d = np.diff(Y) / np.diff(X)
    require(np.all(yp[:-1] * d >= -1e-12) and np.all(yp[1:] * d >= -1e-12), 'sign of the monotone slopes %s' % yp)
    f = wi.CubicHermiteSpline(X, Y, yp)
    for i in range(len(x) - 1):
        t = np.linspace(x[i], x[i + 1], 41)
        v = f(t) * (1 if y[i + 1] >= y[i] else -1)
        require(np.all(np.diff(v) >= -1e-9), 'monotone between nodes %d and %d' % (i, i + 1))
    # slopes that need no correction are kept
    m = np.array(slope_ref(x, y, method))
    ok = np.ones(len(x), bool)
    for i in range(len(x) - 1):
        if d[i] == 0 or m[i] * d[i] < 0 or m[i + 1] * d[i] < 0 or m[i] ** 2 + m[i + 1] ** 2 > 9 * d[i] ** 2:
            ok[i] = ok[i + 1] = False
    close(yp[ok], m[ok], 'slopes that are already admissible')
    return rnd(yp)


# ---- interpolants ---------------------------------------------------------------------------------------------------
def hermite(x, y, m, t):
    i = min(max(int(np.searchsorted(x, t)) - 1, 0), len(x) - 2)
    h = x[i + 1] - x[i]
    s = (t - x[i]) / h
    return ((1 + 2 * s) * (1 - s) ** 2 * y[i] + s * (1 - s) ** 2 * h * m[i] + s * s * (3 - 2 * s) * y[i + 1] + s * s * (s - 1) * h * m[i + 1])


def stine(x, y, m, t):
    i = min(max(int(np.searchsorted(x, t)) - 1, 0), len(x) - 2)
    s = (y[i + 1] - y[i]) / (x[i + 1] - x[i])
    o = y[i] + s * (t - x[i])
    a = y[i] + m[i] * (t - x[i]) - o
    b = y[i + 1] + m[i + 1] * (t - x[i + 1]) - o
    if abs(a * b) < 1e-14:
        return o
    if a * b > 0:
        return o + a * b / (a + b)
    return o + a * b * (2 * t - x[i] - x[i + 1]) / ((a - b) * (x[i + 1] - x[i]))


def f_interp(case):
    x, y, method = case
    X, Y = np.array(x, float), np.array(y, float)
    keep = X.copy(), Y.copy()
    m = slope_ref(x, y, method)
    t = np.r_[X, 0.5 * (X[1:] + X[:-1]), 0.9 * X[1:] + 0.1 * X[:-1]]
    wh, ws = [hermite(X, Y, m, v) for v in t], [stine(X, Y, m, v) for v in t]
    tick(6)
    close(wi.CubicHermiteSpline(X, Y, m)(t), wh, 'cubic Hermite spline of given slopes')
    close(wi.CubicHermiteSpline(X, Y, method=method)(t), wh, 'cubic Hermite spline by %s' % method)
    close(wi.Pchip(X, Y, m)(t), wh, 'Pchip of given slopes')
    close(wi.Pchip(X, Y, method=method)(t), wh, 'Pchip by %s' % method)
    close(wi.StinemanInterp(X, Y, m)(t), ws, 'Stineman interpolant of given slopes')
    close(wi.StinemanInterp(X, Y, method=method)(t), ws, 'Stineman interpolant by %s' % method)
    close(wi.stineman_interp(t, X, Y, m), ws, 'stineman_interp')
    close(wi.stineman_interp(t.reshape(1, -1), x, y, m), np.array([ws]), 'stineman_interp of lists')
    close(wi.Pchip(X, Y, method=method).derivative()(X[:-1]), m[:-1], 'slopes of the interpolant', 1e-8, 1e-8)
    if method == 'stineman':
        close(wi.stineman_interp(t, X, Y), ws, 'stineman_interp with default slopes')
        close(wi.StinemanInterp(X, Y)(t), ws, 'StinemanInterp with default slopes')
    if method == 'pchip':
        tt = np.linspace(x[0], x[-1], 50 * (len(x) - 1) + 1)
        v = wi.Pchip(X, Y)(tt)
        close(v, [hermite(X, Y, m, w) for w in tt], 'Pchip default')
        for i in range(len(x) - 1):
            seg = v[50 * 0:0] if False else v[(tt >= x[i]) & (tt <= x[i + 1])]
            require(seg.min() >= min(y[i], y[i + 1]) - 1e-9 and seg.max() <= max(y[i], y[i + 1]) + 1e-9, 'Pchip does not overshoot')
    untouched(zip(keep, (X, Y)))
    return rnd(wh) + rnd(ws)


# ---- polynomial smoothing -------------------------------------------------------------------------------------------
def sgval(seg, order, deriv):
    k = (len(seg) - 1) // 2
    c = np.linalg.lstsq(np.vander(np.arange(-k, k + 1), order + 1, increasing=True).astype(float), np.asarray(seg, float), rcond=None)[0]
    return c[deriv] * math.factorial(deriv)


def sg_ref(y, w, order, deriv):
    k = (w - 1) // 2
    first = [y[0] - abs(v - y[0]) for v in y[1:k + 1]][::-1]
    last = [y[-1] + abs(v - y[-1]) for v in y[-k - 1:-1]][::-1] if k else []
    z = first + list(y) + last
    return np.array([sgval(z[i:i + w], order, deriv) for i in range(len(y))])


def f_sg(case):
    y, w, order, deriv = case
    Y = np.array(y, float)
    keep = Y.copy()
    tick()
    got = wi.savitzky_golay(Y, w, order, deriv)
    close(got, sg_ref(y, w, order, deriv), 'local least squares polynomial (window %d, order %d, derivative %d)' % (w, order, deriv), 1e-7, 1e-8)
    close(wi.savitzky_golay(np.array(y, int), w, order, deriv), got, 'integer data')
    untouched([(keep, Y)])
    return rnd(got)


def f_sgbad(case):
    w, order = case
    tick()
    try:
        wi.savitzky_golay(np.arange(20.0), w, order)
    except (TypeError, ValueError):
        return True
    raise Fail('window %s accepted for order %s' % (w, order))


def f_sgpoly(case):
    coef, w, order, deriv, n = case
    x = np.arange(n)
    got = wi.savitzky_golay(np.polyval(coef, x).astype(float), w, order, deriv)
    tick()
    k = w // 2
    close(got[k:n - k], np.polyval(np.polyder(np.poly1d(coef), deriv), x)[k:n - k] * np.ones(n - 2 * k), 'polynomials of the order are reproduced', 1e-6, 1e-6)
    return rnd(got, 3)


def f_piece(case):
    lens, w, order, up = case
    x, y = [], []
    for j, n in enumerate(lens):
        s = list(range(n))
        x += s if (j + up) % 2 else s[::-1]
        y += [(i * i * 7 + 3 * j) % 5 for i in range(n)]
    # remove repeated turning values so that the pieces are strictly monotone
    X, Y = np.array(x, float), np.array(y, float)
    X = X + 0.01 * np.arange(len(X)) * 0
    cuts, i = [0], 0
    tick()
    sgn = 1 if X[0] < X[1] else -1
    i = 1
    while i < len(X):
        if sgn * (X[i] - X[i - 1]) < 0:
            cuts.append(i)
            if i + 1 < len(X):
                sgn = 1 if X[i] < X[i + 1] else -1
        i += 1
    cuts.append(len(X))
    if min(np.diff(cuts)) <= w:
        return None
    want = np.concatenate([sg_ref(y[a:b], w, order, 0) for a, b in zip(cuts, cuts[1:])])
    close(wi.savitzky_golay_piecewise(X, Y, w, order), want, 'smoothed piece by piece', 1e-7, 1e-8)
    return rnd(want)


def f_sg2(case):
    i, j, w, order, shape = case
    Z = np.zeros(shape)
    Z[i, j] = 1.0
    k = w // 2
    keep = Z.copy()
    exps = [(a, b) for a in range(order + 1) for b in range(order + 1 - a)]
    I, J = np.meshgrid(np.arange(-k, k + 1), np.arange(-k, k + 1), indexing='ij')
    A = np.array([(I ** a * J ** b).ravel() for a, b in exps], float).T
    P = np.linalg.pinv(A)
    inner = (slice(k, shape[0] - k), slice(k, shape[1] - k))

    def want(e):
        r = P[exps.index(e)]
        return np.array([[r.dot(Z[a - k:a + k + 1, b - k:b + k + 1].ravel()) for b in range(k, shape[1] - k)] for a in range(k, shape[0] - k)])
    tick(4)
    close(wi.sgolay2d(Z, w, order)[inner], want((0, 0)), 'smoothed surface', 1e-8, 1e-8)
    if order:
        close(wi.sgolay2d(Z, w, order, 'col')[inner], want((1, 0)), 'derivative down the columns', 1e-8, 1e-8)
        close(wi.sgolay2d(Z, w, order, 'row')[inner], want((0, 1)), 'derivative along the rows', 1e-8, 1e-8)
        c, r = wi.sgolay2d(Z, w, order, 'both')
        close(c[inner], want((1, 0)), 'both: columns', 1e-8, 1e-8)
        close(r[inner], want((0, 1)), 'both: rows', 1e-8, 1e-8)
    # up to the edge: the surface continued by its mirror image, below the edge value at the first and above it at the last
    # row and column (the corners that are both: below the continued edge)
    n, m = shape

    def ext(F, a, b):
        ra, rb = (-a if a < 0 else 2 * (n - 1) - a if a >= n else a), (-b if b < 0 else 2 * (m - 1) - b if b >= m else b)
        va, vb = -1 if a < 0 else int(a >= n), -1 if b < 0 else int(b >= m)
        if not va and not vb:
            return F[a, b]
        if va * vb >= 0:
            e = F[0 if va < 0 else n - 1 if va > 0 else a, 0 if vb < 0 else m - 1 if vb > 0 else b]
            return e + (va or vb) * abs(F[ra, rb] - e)
        e, v = (ext(F, 0, b), ext(F, ra, b)) if va < 0 else (ext(F, a, 0), ext(F, a, rb))
        return e - abs(v - e)
    base = np.cos(1.3 * np.arange(n)[:, None] + 0.7 * np.arange(m))
    for F in (Z, -Z, base + Z):
        E = np.array([[ext(F, a, b) for b in range(-k, m + k)] for a in range(-k, n + k)])
        for e, opt in (((0, 0), None), ((1, 0), 'col'), ((0, 1), 'row'))[:3 if order else 1]:
            r = P[exps.index(e)]
            close(wi.sgolay2d(F, w, order, opt), [[r.dot(E[a:a + w, b:b + w].ravel()) for b in range(m)] for a in range(n)], 'edges %s' % (opt,), 1e-8, 1e-8)
    C = np.full(shape, 2.5)
    close(wi.sgolay2d(C, w, order), C, 'a constant surface is reproduced up to the edge', 1e-8, 1e-8)
    untouched([(keep, Z)])
    if order:
        a, b = np.meshgrid(np.arange(shape[0]), np.arange(shape[1]), indexing='ij')
        F = 2.0 * a + 3 * b + 1
        close(wi.sgolay2d(F, w, order), F, 'a rising plane is reproduced up to the edge', 1e-8, 1e-8)
        c, r = wi.sgolay2d(F, w, order, 'both')
        close(c, 0 * F + 2, 'slope of a rising plane down the columns up to the edge', 1e-8, 1e-8)
        close(r, 0 * F + 3, 'slope of a rising plane along the rows up to the edge', 1e-8, 1e-8)
    return rnd(want((0, 0)))


def f_interp3(case):
    a, b, c, n, kind = case
    g = [np.linspace(0, 1 + i, n + i) for i in range(3)]
    e = (a, b, c)
    V = g[0][:, None, None] ** a * g[1][None, :, None] ** b * g[2][None, None, :] ** c
    q = [np.array([0.0, 0.17, 0.5, 1.0]), np.array([0.3, 2.0]), np.array([0.0, 1.1, 2.9])]
    want = q[0][:, None, None] ** a * q[1][None, :, None] ** b * q[2][None, None, :] ** c
    tick()
    close(wi.interp3(g[0], g[1], g[2], V, q[0], q[1], q[2], method=kind), want, 'interp3', 1e-8, 1e-8)
    return rnd(want)


def groups(tier):
    t = tier == 'thorough'
    pp = []
    for order in (1, 2, 3, 4):
        for br in ([0, 1], [-1, 0.5, 2], [0, 1, 3], [-2.5, -1, 0, 4]):
            n = len(br) - 1
            cells = order * n
            # unit coefficient matrices (evaluation is linear), their sum, and all 0/1 patterns for small sizes
            mats = [[[1.0 if i * n + j == k else 0.0 for j in range(n)] for i in range(order)] for k in range(cells)]
            mats.append([[float(1 + i + 2 * j) for j in range(n)] for i in range(order)])
            mats.append([[(-1.0) ** (i + j) * (2 + i - 0.5 * j) for j in range(n)] for i in range(order)])
            if cells <= (8 if t else 6):
                mats += [[list(map(float, c[i * n:(i + 1) * n])) for i in range(order)] for c in itertools.product((0, 1, -2), repeat=cells)]
            pp += [[m, br, f] for m in mats for f in (0.0, -7.0)]
    sm = []
    for x in ([0, 1], [3, 1], [0, 1, 2], [0, 2, 3], [2, 0, 1], [0, 1, 2, 4], [3, 0, 1.5, 1], [0, 1, 2, 3, 5], [5, 1, 3, 0, 2]):
        n = len(x)
        ys = [[float(i == k) for i in range(n)] for k in range(n)] + [[1.0] * n, [2.0 * v - 1 for v in x]]
        if t:
            ys += [list(map(float, c)) for c in itertools.product((0, 1, -2), repeat=n)]
        for y in ys:
            for p in (1, 0.9, 0.5, 0.01, 0, None):
                for var in (1, 0.25, [1.0 + 0.5 * i for i in range(n)]):
                    for lin in (True, False):
                        sm.append([x, y, p, var, lin])
    xs = {n: [list(range(n)), [0, 0.3, 2, 2.5, 5, 5.25][:n], [-3, -2, 1, 1.5, 1.75, 4][:n]] for n in (2, 3, 4, 5, 6)}
    sl, mono, itp = [], [], []
    for n in (2, 3, 4, 5):
        for x in xs[n]:
            for y in itertools.product((0, 1, 3) if n < 5 or t else (0, 1, 4), repeat=n):
                for meth in METHODS:
                    if n < 5 or t or x == xs[n][1]:
                        sl.append([x, list(y), meth, 0])
                        if meth == 'cardinal':
                            sl.append([x, list(y), meth, 0.4])
                    if n <= 4 or t:
                        itp.append([x, list(y), meth])
    for n in (3, 4, 5, 6):
        for x in xs[n]:
            vals = (0, 1, 2, 5, 9) if n <= 4 or t else ((0, 1, 5) if n == 5 else (0, 1))
            for y in itertools.product(vals, repeat=n):
                for meth in METHODS:
                    mono.append([x, list(y), meth])
    sg1 = [[list(y), w, o, d] for n in (6, 7) for y in itertools.product((0, 1, 3) if n == 6 else (0, 2), repeat=n)
           for w, o in ((3, 1), (5, 1), (5, 2), (5, 3), (7, 4)) for d in range(0, min(o, 2) + 1) if n > w // 2]
    bad = [[w, o] for w in (2, 4, 6, 3, 5) for o in (0, 1, 2, 3, 4) if w % 2 == 0 or w < o + 2]
    sgp = [[list(c), w, o, d, 16] for c in itertools.product((0, 1, -2), repeat=4) if any(c) for w in (5, 7, 9) for o in (3, 4, 5) if w >= o + 2 for d in range(0, 4)]
    pcs = [[list(l), w, o, up] for k in (1, 2, 3) for l in itertools.product((8, 9, 12), repeat=k) for w, o in ((5, 2), (7, 3)) for up in (0, 1)]
    sg2 = [[i, j, w, o, [9, 10]] for w, o in ((3, 0), (3, 1), (5, 1), (5, 2), (5, 3)) for i in range(9) for j in range(10)]
    i3 = [[a, b, c, n, k] for a in range(4) for b in range(4) for c in range(4) for n in (5, 6) for k in ('cubic', 'linear')
          if k == 'cubic' or max(a, b, c) <= 1]
    return [Group('pp-form', pp, f_pp), Group('smoothing-spline', sm, f_smooth), Group('slopes', sl, f_slopes),
            Group('monotone-slopes', mono, f_mono), Group('interpolants', itp, f_interp), Group('savitzky-golay', sg1, f_sg),
            Group('savitzky-golay-rejects', bad, f_sgbad), Group('savitzky-golay-polynomials', sgp, f_sgpoly),
            Group('piecewise-smoothing', pcs, f_piece), Group('surface-smoothing', sg2, f_sg2), Group('interp3', i3, f_interp3)]
