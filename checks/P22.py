"""P22 Smoothing filters: SavitzkyGolay, smoothn/SmoothNd, HodrickPrescott, Kalman, HampelFilter."""
import itertools
import math
import warnings
import numpy as np
from vk import Group, Fail, tick
from ref import close, require, rnd
import wafo.sg_filter as sg

PROPERTY = 'P22'
ASSUMPTIONS = ['signals of at most 9 values per axis over small alphabets, windows up to 7 points, degrees up to 4; the smoothing '
               'equations are solved directly as dense linear systems by the reference; iterative solutions are compared with tolz=1e-11']


def quiet(f, *a, **k):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return f(*a, **k)


def kinds(x, kind):
    return list(x) if kind == 'list' else np.array(x, dtype={'int': int, 'float': float}[kind])


# ---------------------------------------------------------------- Savitzky-Golay
def lsq(win, t, degree, deriv, delta, at):
    """derivative at `at` of the least squares polynomial through (t, win)"""
    V = np.vander(np.array(t, float), degree + 1, increasing=True)
    c = np.linalg.lstsq(V, np.array(win, float), rcond=None)[0]
    tot = 0.0
    for k in range(deriv, degree + 1):
        tot += c[k] * math.factorial(k) / math.factorial(k - deriv) * at ** (k - deriv)
    return tot / delta ** deriv


def pad(x, n, mode, cval):
    m = len(x)
    out = []
    for i in range(-n, m + n):
        if 0 <= i < m:
            out.append(x[i])
        elif mode == 'constant':
            out.append(cval)
        elif mode == 'nearest':
            out.append(x[min(max(i, 0), m - 1)])
        elif mode == 'wrap':
            out.append(x[i % m])
        else:                                     # mirror
            p = 2 * (m - 1)
            k = i % p
            out.append(x[k if k < m else p - k])
    return out


def sgref(x, n, degree, deriv, delta, mode, cval):
    m = len(x)
    if mode != 'interp':
        p = pad(x, n, mode, cval)
        return [lsq(p[i:i + 2 * n + 1], range(-n, n + 1), degree, deriv, delta, 0) for i in range(m)]
    w = 2 * n + 1
    out = []
    for i in range(m):
        s = min(max(i - n, 0), m - w)
        out.append(lsq(x[s:s + w], range(-n, n + 1), degree, deriv, delta, i - s - n))
    return out


def f_sg(case):
    x, n, degree, deriv, delta, mode, kind = case
    F = sg.SavitzkyGolay(n, degree, diff_order=deriv, delta=delta, mode=mode, cval=0.5)
    d = kinds(x, kind)
    keep = list(d)
    tick(2)
    got = F(d)
    want = sgref(x, n, degree, deriv, delta, mode, 0.5)
    close(got, want, 'window %d, degree %d, derivative %d, %s' % (2 * n + 1, degree, deriv, mode), 1e-8, 1e-9)
    require(list(d) == keep, 'the signal was changed')
    close(F.smooth(np.array(x, float)), got, 'second call', 1e-13, 1e-13)
    if n > 0 and len(x) >= 2 * n + 1:
        p = [x[0] - abs(x[i] - x[0]) for i in range(n, 0, -1)] + list(x) + [x[-1] + abs(x[-1 - i] - x[-1]) for i in range(1, n + 1)]
        for k in range(1, len(x)):
            i = len(x) - 1 - k
            close(F.smooth_last(np.array(x, float), k=k), lsq(p[i:i + 2 * n + 1], range(-n, n + 1), degree, deriv, delta, 0),
                  'smooth_last(k=%d)' % k, 1e-8, 1e-9)
    return rnd(got)


def f_sgmat(case):
    shape, axis, n, degree, deriv = case
    A = np.array([((3 * k * k + 7 * k) % 11) - 4.0 for k in range(int(np.prod(shape)))]).reshape(shape)
    keep = A.copy()
    tick()
    got = sg.SavitzkyGolay(n, degree, diff_order=deriv, axis=axis)(A)
    want = np.apply_along_axis(lambda v: sgref(list(v), n, degree, deriv, 1.0, 'interp', 0), axis, A)
    close(got, want, 'axis %d of %s' % (axis, shape), 1e-8, 1e-9)
    require(np.array_equal(A, keep), 'the signal was changed')
    return rnd(np.sum(got))


_SX = [0.0, 2.0, -1.0, 3.0, 5.0, 1.0, 4.0, -2.0, 0.5]
_SM = np.array([_SX, _SX[::-1]]).T


def f_sghist(case):
    deriv, seq = case
    F = sg.SavitzkyGolay(2, 3, diff_order=deriv)
    want = sgref(_SX, 2, 3, deriv, 1.0, 'interp', 0)
    wr = sgref(_SX[::-1], 2, 3, deriv, 1.0, 'interp', 0)
    for op in seq:
        tick()
        if op == 's':
            close(F(np.array(_SX)), want, 'smooth after %s' % (seq,), 1e-9, 1e-9)
        elif op == 'l':
            close(F.smooth_last(np.array(_SX), k=3), want[-4], 'smooth_last after %s' % (seq,), 1e-9, 1e-9)
        elif op == 'm':
            close(F.smooth_last(_SM, k=2), [want[-3], wr[-3]], 'smooth_last of columns after %s' % (seq,), 1e-9, 1e-9)
        else:
            close(F(_SM.T), [want, wr], 'smooth of rows after %s' % (seq,), 1e-9, 1e-9)
    return 'ok'


# ---------------------------------------------------------------- smoothn
def lap(shape):
    tot = 0
    for k in range(len(shape)):
        M = np.eye(1)
        for j, m in enumerate(shape):
            if j == k:
                D = np.zeros((m, m))
                for i in range(m):
                    for q in (i - 1, i + 1):
                        if 0 <= q < m:
                            D[i, q] += 1
                            D[i, i] -= 1
                M = np.kron(M, D)
            else:
                M = np.kron(M, np.eye(m))
        tot = tot + M
    return tot


def sref(y, s, W):
    L = lap(y.shape)
    W = np.ravel(W).astype(float)
    yy = np.where(np.isfinite(y), y, 0).ravel()
    return np.linalg.solve(np.diag(W) + s * np.dot(L, L), W * yy).reshape(y.shape)


def f_smooth(case):
    vals, shape, s, kind = case
    y = np.array(vals, float).reshape(shape)
    d = y.tolist() if kind == 'list' else y.astype(int) if kind == 'int' else y.copy()
    tick()
    got = quiet(sg.smoothn, d, s=s)
    close(got, sref(y, s, np.ones(shape)), 'smoothing with s=%s' % s, 1e-9, 1e-10)
    require(np.array_equal(np.array(d), y), 'the data was changed')
    close(np.mean(got), np.mean(y), 'mean', 1e-10, 1e-10)
    return rnd(got)


def f_smoothkeep(case):
    return f_smoothw(case, True)


def f_smoothw(case, strict=False):
    vals, shape, s, wts, miss = case
    y = np.array(vals, float).reshape(shape)
    for k in miss:
        y.flat[k] = np.nan
    W = None if wts is None else np.array(wts, float).reshape(shape)
    eff = (np.ones(shape) if W is None else W) * np.isfinite(y)
    d = y.copy()
    wk = None if W is None else W.copy()
    tick()
    got = quiet(sg.smoothn, d, s=s, weight=W, tolz=1e-11, maxiter=20000)
    close(got, sref(y, s, eff / eff.max()), 'weights %s missing %s' % (wts, miss), 1e-6, 1e-7)
    require((miss and not strict) or np.array_equal(d, y, equal_nan=True), 'the data was changed: %s' % d)
    require(W is None or np.array_equal(W, wk), 'the weights were changed')
    return rnd(got)


def robust_w(name, r, I, h):
    u = np.abs(r / (1.4826 * np.median(np.abs(r[I] - np.median(r[I])))) / math.sqrt(1 - h))
    if name == 'cauchy':
        return 1 / (1 + (u / 2.385) ** 2)
    if name == 'talworth':
        return (u < 2.795) * 1.0
    return np.where(u < 4.685, (1 - (u / 4.685) ** 2) ** 2, 0)


def f_robust(case):
    vals, s, name, miss, shape = case
    y = np.array(vals, float).reshape(shape)
    for k in miss:
        y.flat[k] = np.nan
    I = np.isfinite(y)
    y0 = np.where(I, y, 0)
    h = math.sqrt(1 + math.sqrt(1 + 16 * s)) / math.sqrt(2) / math.sqrt(1 + 16 * s)
    h = h ** sum(n > 1 for n in shape)
    W = w = I * 1.0
    for step in range(3):
        z = sref(y, s, w)
        r = y0 - z
        if np.median(np.abs(r[I] - np.median(r[I]))) < 1e-6:
            return 'degenerate'
        w = W * robust_w(name, r, I, h)
        u = np.abs(r[I]) / (1.4826 * np.median(np.abs(r[I] - np.median(r[I])))) / math.sqrt(1 - h)
        if np.min(np.abs(u - 2.795)) < 1e-4 or np.sum(w > 1e-3) < 3:
            return 'degenerate'
    tick()
    got = quiet(sg.smoothn, y.copy(), s=s, weight=name, robust=True, tolz=1e-11, maxiter=50000)
    close(got, z, 'robust smoothing with %s weights' % name, 1e-4, 1e-5)
    return rnd(got)


def f_auto(case):
    vals, shape = case
    y = np.array(vals, float).reshape(shape)
    tick()
    z, s = quiet(sg.smoothn, y.copy(), fulloutput=True)
    close(z, sref(y, s, np.ones(shape)), 'result does not belong to s=%s' % s, 1e-6, 1e-7) if s < 1e8 else None
    L = lap(shape)
    ev, U = np.linalg.eigh(L)
    c = np.dot(U.T, y.ravel())

    def gcv(p):
        g = 1 / (1 + 10 ** p * ev ** 2)
        return np.sum((c * (g - 1)) ** 2) / (1 - np.sum(g) / y.size) ** 2
    N = sum(1 for v in shape if v != 1)
    par = lambda h: (((1 + math.sqrt(1 + 8 * h)) / 4.0 / h) ** 2 - 1) / 16
    lo, hi = math.log10(par(0.99 ** (2.0 / N))), math.log10(par(1e-6 ** (2.0 / N)))
    p = math.log10(s)
    require(lo - 1e-9 <= p <= hi + 1e-9, 's=%s outside the limits' % s)
    for q in (p - 0.6, p + 0.6):
        if lo <= q <= hi:
            require(gcv(p) <= gcv(q) * (1 + 1e-3) + 1e-9, 'the smoothing parameter %s does not minimise the generalised cross validation score' % s)
    # a plain bounded search of the same score never does better
    from scipy.optimize import fminbound
    q = float(fminbound(gcv, lo, hi, xtol=0.1))
    require(gcv(p) <= gcv(q) * (1 + 1e-2) + 1e-9, 'the smoothing parameter %s scores %s, %s scores %s' % (s, gcv(p), 10 ** q, gcv(q)))
    return rnd(p, 1)


# ---------------------------------------------------------------- Hodrick-Prescott, Kalman, Hampel
def f_hp(case):
    x, w, kind = case
    d = kinds(x, kind)
    keep = list(d)
    tick()
    got = quiet(sg.HodrickPrescott(w=w), d)
    require(list(d) == keep, 'the signal was changed')
    n = len(x)
    if n < 4:
        close(got, x, 'short signals are returned as they are')
        return 'short'
    D = np.diff(np.eye(n), n=2, axis=0)
    close(got, np.linalg.solve(np.eye(n) + w * np.dot(D.T, D), np.array(x, float)), 'trend for w=%s' % w, 1e-8, 1e-9)
    return rnd(got)


MODELS = {
    'scalar': dict(A=[[1.0]], H=[[1.0]], Q=[[0.5]], R=[[2.0]]),
    'decay': dict(A=[[0.8]], H=[[2.0]], Q=[[0.1]], R=[[1.0]]),
    'static': dict(A=[[1.0]], H=[[1.0]], Q=[[0.0]], R=[[4.0]]),
    'velocity': dict(A=[[1.0, 1.0], [0.0, 1.0]], H=[[1.0, 0.0]], Q=[[0.1, 0.05], [0.05, 0.2]], R=[[1.5]]),
    'both': dict(A=[[1.0, 0.5], [-0.2, 0.9]], H=[[1.0, 0.0], [0.5, 2.0]], Q=[[0.3, 0.0], [0.0, 0.1]], R=[[1.0, 0.2], [0.2, 2.0]]),
}


def f_kalman(case):
    name, zs, ctl = case
    M = {k: np.array(v) for k, v in MODELS[name].items()}
    n, m = M['A'].shape[0], M['H'].shape[0]
    P0 = np.eye(n) * 3 + 0.5
    x0 = np.array([0.5, -1.0][:n])
    B = np.array([1.0, 0.5][:n]).reshape(n, 1) if ctl else 0
    K = sg.Kalman(R=M['R'], x=x0.copy(), P=P0.copy(), A=M['A'], B=B, Q=M['Q'], H=M['H'])
    # batch posterior of the joint Gaussian vector of states and observations
    mean, cov = [x0], None
    T = len(zs)
    big = np.zeros((n * (T + 1), n * (T + 1)))
    big[:n, :n] = P0
    mu = [x0]
    for t in range(T):
        u = np.array([1.0 + t]) if ctl else 0
        mu.append(np.dot(M['A'], mu[-1]) + (np.dot(B, u) if ctl else 0))
        r = slice(n * (t + 1), n * (t + 2))
        p = slice(n * t, n * (t + 1))
        big[r, :n * (t + 1)] = np.dot(M['A'], big[p, :n * (t + 1)])
        big[:n * (t + 1), r] = big[r, :n * (t + 1)].T
        big[r, r] = np.dot(np.dot(M['A'], big[p, p]), M['A'].T) + M['Q']
        z = np.array(zs[t][:m])
        tick()
        got = K(z, u) if ctl else K(z)
        HH = np.zeros((m * (t + 1), n * (t + 2)))
        RR = np.zeros((m * (t + 1), m * (t + 1)))
        for j in range(t + 1):
            HH[m * j:m * (j + 1), n * (j + 1):n * (j + 2)] = M['H']
            RR[m * j:m * (j + 1), m * j:m * (j + 1)] = M['R']
        C = big[:n * (t + 2), :n * (t + 2)]
        G = np.dot(np.dot(C, HH.T), np.linalg.inv(np.dot(np.dot(HH, C), HH.T) + RR))
        res = np.hstack([np.array(zs[j][:m]) - np.dot(M['H'], mu[j + 1]) for j in range(t + 1)])
        post = np.hstack(mu) + np.dot(G, res)
        pc = C - np.dot(G, np.dot(HH, C))
        close(np.ravel(got), post[-n:], 'state after %d observations' % (t + 1), 1e-8, 1e-9)
        close(K.P, pc[-n:, -n:], 'covariance after %d observations' % (t + 1), 1e-8, 1e-9)
        close(np.ravel(K.x), np.ravel(got), 'stored state')
    return rnd(got)


def f_kalman1(case):
    """no initial state: it is taken from the first observation"""
    zs, R, Q, H = case
    K = sg.Kalman(R=R, Q=Q, H=H)
    x = P = None
    for z in zs:
        tick()
        got = float(np.ravel(K(z))[0])
        if x is None:
            x, P = z / H, R / H ** 2
        else:
            P = P + Q
            g = P * H / (H * H * P + R)
            x, P = x + g * (z - H * x), P - g * H * P
        close(got, x, 'state after %s' % (zs,), 1e-10, 1e-12)
        close(float(np.ravel(K.P)[0]), P, 'covariance', 1e-10, 1e-12)
    return rnd(x)


def f_hampel(case):
    y, x, dx, t, kind = case
    d = kinds(y, kind)
    X = None if x is None else list(x)
    keep = list(d)
    F = sg.HampelFilter(dx=dx, t=t, fulloutput=True)
    tick(2)
    got, res = F(d) if X is None else F(d, X)
    xs = list(range(len(y))) if x is None else list(x)
    ddx = 3 * np.median(np.diff(xs)) if dx is None else dx
    want, out, lb, ub = [], [], [], []
    for i in range(len(y)):
        w = [y[j] for j in range(len(y)) if xs[i] - ddx <= xs[j] <= xs[i] + ddx]
        m = float(np.median(w))
        s = 1.4826 * float(np.median([abs(v - m) for v in w]))
        if abs(abs(y[i] - m) - t * s) < 1e-9 and s > 0:
            o = None
        else:
            o = abs(y[i] - m) > t * s
        out.append(o)
        want.append(m if o else y[i])
        lb.append(m - t * s)
        ub.append(m + t * s)
    for g, w, o in zip(got, want, out):
        if o is not None:
            close(g, w, 'filtered %s' % (list(got),), 1e-10, 1e-12)
    require(all(o is None or bool(a) == o for a, o in zip(res['outliers'], out)), 'outliers %s' % (list(res['outliers']),))
    close(res['LB'], lb, 'lower bounds', 1e-9, 1e-10)
    close(res['UB'], ub, 'upper bounds', 1e-9, 1e-10)
    require(F.num_outliers == np.sum(res['outliers']), 'number of outliers')
    require(list(d) == keep, 'the signal was changed')
    short = sg.HampelFilter(dx=dx, t=t)(d) if X is None else sg.HampelFilter(dx=dx, t=t)(d, X)
    close(short, got, 'short output')
    return rnd(got)


def f_hampelad(case):
    """adaptive window widths: grown until the local scale settles, smoothed with a Gaussian"""
    y, x, dx, t, ad = case
    xs = [float(v) for v in (range(len(y)) if x is None else x)]
    ddx = 3 * float(np.median(np.diff(xs))) if dx is None else dx
    F = sg.HampelFilter(dx=dx, t=t, adaptive=ad, fulloutput=True)
    d = np.array(y, float)
    tick()
    got, res = F(d) if x is None else F(d, list(x))
    require(list(d) == list(y), 'the signal was changed')
    n = len(y)
    med, sc, half = [], [], []
    for i in range(n):
        prev, k = None, 1
        while True:
            w = [y[j] for j in range(n) if xs[i] - k * ddx <= xs[j] <= xs[i] + k * ddx]
            m = float(np.median(w))
            s = 1.4826 * float(np.median([abs(v - m) for v in w]))
            if prev is not None and (prev[1] + s == 0 or not abs(prev[1] - s) / (prev[1] + s) / 2 > ad):
                break
            if prev is not None and abs(abs(prev[1] - s) / (prev[1] + s) / 2 - ad) < 1e-9:
                return 'tie'
            prev = (m, s)
            k += 1
        med.append(prev[0])
        sc.append(prev[1])
        half.append(k - 1.0)
    D = 2 * float(np.median(np.diff(xs)))
    W = [[math.exp(-((a - b) / (2 * D)) ** 2) for b in xs] for a in xs]
    sm = lambda v: [sum(w * u for w, u in zip(row, v)) / sum(row) for row in W]
    m, s = sm(med), sm(sc)
    close(res['Y0'], m, 'nominal data', 1e-9, 1e-10)
    close(res['LB'], [a - t * b for a, b in zip(m, s)], 'lower bounds', 1e-9, 1e-9)
    close(res['UB'], [a + t * b for a, b in zip(m, s)], 'upper bounds', 1e-9, 1e-9)
    close(res['ADX'], sm(half), 'window widths', 1e-9, 1e-9)
    for i in range(n):
        if abs(abs(y[i] - m[i]) - t * s[i]) > 1e-9:
            o = abs(y[i] - m[i]) > t * s[i]
            require(bool(res['outliers'][i]) == o, 'outliers %s' % (list(res['outliers']),))
            close(got[i], m[i] if o else y[i], 'filtered', 1e-9, 1e-10)
    require(F.num_outliers == np.sum(res['outliers']), 'number of outliers')
    return rnd(got)


def groups(tier):
    T = tier == 'thorough'
    s1 = []
    for n, m in ((0, 3), (1, 3), (1, 4), (1, 5), (2, 5), (2, 6), (3, 7), (3, 9)):
        xs = list(itertools.product((0, 1, 3), repeat=m)) if m <= 5 else [tuple((k * j * j + 3 * j + k) % 7 - 2 for j in range(m)) for k in range(1, 20)] + \
            [tuple(float(i == j) for j in range(m)) for i in range(m)]
        for x in xs:
            for deg in range(0, min(2 * n, 4) + 1):
                for der in range(0, min(deg, 2) + 1):
                    for mode in ('interp', 'mirror', 'nearest', 'constant', 'wrap'):
                        if m == 5 and n == 1 and mode not in ('interp', 'mirror') and sum(x) % 3:
                            continue
                        s1.append((x, n, deg, der, 1.0 if sum(x) % 2 else 0.5, mode, 'float' if deg else 'list' if der == 0 and mode == 'interp' else 'int' if all(v == int(v) for v in x) else 'float'))
    sm = [(sh, a, n, d, r) for sh in ((5, 6), (6, 5), (5, 5, 6)) for a in range(-1, len(sh)) for n, d in ((1, 1), (2, 2), (2, 3)) for r in (0, 1)]
    sh = [(d, q) for d in (0, 1, 2) for k in range(1, 5) for q in itertools.product('slmr', repeat=k)]
    sn = [(v, (len(v),), s, k) for m in (2, 3, 4, 5) for v in itertools.product((0, 1, 5), repeat=m) for s in (0.01, 1.0, 50.0) for k in ('float', 'int', 'list') if m < 5 or k == 'float']
    for shp in ((2, 2), (1, 4), (4, 1), (2, 3), (3, 2), (3, 4), (2, 2, 3), (3, 2, 4)):
        m = int(np.prod(shp))
        vs = [tuple(float(i == j) for j in range(m)) for i in range(m)] + [tuple((k * j * j + 3 * j + k) % 7 - 2.0 for j in range(m)) for k in range(1, 8)]
        sn += [(v, shp, s, 'float') for v in vs for s in (0.01, 1.0, 50.0)]
    sw = []
    for shp in ((4,), (5,), (2, 3), (3, 3), (1, 5), (2, 2, 2)):
        m = int(np.prod(shp))
        v = tuple((5 * j * j + 3 * j + 1) % 7 - 2.0 for j in range(m))
        v2 = tuple(float((j * 3) % 5) for j in range(m))
        for r in range(0, 3 if m < 8 else 2):
            for miss in itertools.combinations(range(m), r):
                for s in (0.1, 2.0):
                    for w in (None, tuple(0.25 + 0.25 * ((2 * j) % 4) for j in range(m)), tuple(1.0 - 0.5 * (j % 2) for j in range(m))):
                        sw.append((v, shp, s, w, miss))
                        if m <= 5:
                            sw.append((v2, shp, s, w, miss))
    rb = [(tuple(b + (9 if j == k else 0) + (-6 if j == k2 else 0) for j, b in enumerate(base)), s, n, miss) for base in ((0, 1.2, 0.7, 2, 2.6, 3.1, 3.9), (1, 0.3, 1.5, 0.9, 1.1, 0.2, 1.4))
          for k in range(7) for k2 in range(k, 7) for s in (0.3, 2.0) for n in ('bisquare', 'cauchy', 'talworth') for miss in ((), (3,))]
    rb = [c + (shp,) for c in rb for shp in ((7,), (1, 7), (7, 1)) if shp == (7,) or not c[3]]
    rb += [(tuple(((3 * j * j + 2 * j + m) % 7) * 0.4 + 0.13 * ((5 * j) % 11) + (9 if j == k else 0) + (-6 if j == k2 else 0) for j in range(12)), s, n, miss, shp)
           for m in (0, 3) for k in range(0, 12, 3) for k2 in range(12) for s in (0.3, 2.0) for n in ('bisquare', 'cauchy', 'talworth') for miss in ((), (5,))
           for shp in ((3, 4), (2, 2, 3), (12,))]
    au = [(v, (len(v),)) for m in (4, 5) for v in itertools.product((0.0, 1.0, 4.0), repeat=m) if len(set(v)) > 1]
    au += [(tuple(((k * j * j + 3 * j + k) % 7) - 2.0 for j in range(12)), shp) for k in range(1, 7) for shp in ((12,), (3, 4), (4, 3), (1, 12))]
    hp = [(x, w, k) for m in range(1, 7) for x in itertools.product((0, 1, 5), repeat=m) for w in (1, 0.5, 100) for k in ('list', 'int', 'float') if m < 6 or k == 'float']
    obs = [(0.0, 1.0), (2.0, -1.0), (-1.0, 0.5)]
    ka = [(n, z, c) for n in MODELS for t in range(1, 6 if T else 5) for z in itertools.product(obs, repeat=t) for c in (False, True)]
    k1 = [(z, R, Q, H) for t in range(1, 5) for z in itertools.product((0.0, 1.0, 3.0), repeat=t) for R in (1.0, 4.0) for Q in (0.0, 0.5) for H in (1.0, 2.0)]
    hm = [(y, None, dx, t, k) for m in range(2, 8 if T else 7) for y in itertools.product((0, 1, 9), repeat=m) for dx in (None, 1, 2.5) for t in (1, 3) for k in (('float', 'int', 'list') if m < 5 else ('float',))]
    hm += [(y, x, dx, 2, 'float') for x in itertools.combinations((0, 0.5, 1, 2.5, 4, 4.5, 7), 5) for y in itertools.product((0, 1, 7), repeat=5) if y[0] <= y[-1] for dx in (None, 2)]
    ha = [(y, x, dx, t, ad) for m in (4, 5, 6, 7) for y in itertools.product((0, 1, 5) if m < 6 or T else (0, 7), repeat=m)
          for x in ((None,) if m != 5 else (None, (0.0, 0.5, 1.0, 2.0, 2.5))) for dx in (1, None) for t in (0, 1.5, 3) for ad in (0.05, 0.2) if m < 6 or T or t != 1.5]
    return [
        Group('savitzky-golay', s1, f_sg, note='signals x windows x degrees x derivatives x boundary modes'),
        Group('savitzky-golay-axes', sm, f_sgmat),
        Group('savitzky-golay-history', sh, f_sghist, note='all call histories up to length 4 on one object'),
        Group('smoothn', sn, f_smooth),
        Group('smoothn-weights', sw, f_smoothw, note='every set of up to two missing values x weights x shapes'),
        Group('smoothn-missing-kept', [((0.0, 1.0, 4.0), (3,), 2.0, None, (1,))], f_smoothkeep, note='recorded finding: missing values of the caller are overwritten'),
        Group('smoothn-robust', rb, f_robust),
        Group('smoothn-auto', au, f_auto),
        Group('hodrick-prescott', hp, f_hp),
        Group('kalman', ka, f_kalman, note='all observation histories up to length 4 against the batch posterior'),
        Group('kalman-first', k1, f_kalman1),
        Group('hampel', hm, f_hampel),
        Group('hampel-adaptive', ha, f_hampelad),
    ]
