"""P13 Simulated processes have the covariance asked for; conditional simulation; covariance estimation.

The simulations are driven through every unit vector of the noise they consume.  They are affine in that noise, so the
responses determine the mean and the covariance matrix of the simulated process exactly."""
import itertools
import math
import warnings
import sys
import numpy as np
from vk import Group, Fail, tick
from ref import close, require, rnd, words
from wafo.spectrum import SpecData1D
from wafo.covariance import CovData1D
from P11 import k_ref, kernels
import wafo.covariance.core as wcc
import wafo.covariance.estimation as wce
import wafo.spectrum.core as wsc
import wafo.objects as wo
import wafo.transform.models as wtm
import numpy.random as npr

PROPERTY = 'P13'
ASSUMPTIONS = ['positive definite covariance sequences with a non-negative circulant embedding (where exactness is claimed)',
               'the simulations draw their noise from the global numpy.random functions']
_ORIG = {n: getattr(npr, n) for n in ('randn', 'standard_normal', 'normal', 'multivariate_normal')}


class Noise(object):
    """Replaces the normal generators by a given vector (zero beyond its end)."""

    def __init__(self, k=None, value=1.0):
        self.k, self.value, self.pos = k, value, 0

    def take(self, shape):
        n = int(np.prod(shape)) if shape else 1
        z = np.zeros(n)
        if self.k is not None and self.pos <= self.k < self.pos + n:
            z[self.k - self.pos] = self.value
        self.pos += n
        return z.reshape(shape) if shape else float(z[0])

    def randn(self, *shape):
        return self.take(tuple(int(s) for s in shape))

    def standard_normal(self, size=None):
        return self.take(() if size is None else tuple(np.atleast_1d(size).astype(int)))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def multivariate_normal(self, mean, cov, size=None, *a, **k):
        mean, cov = np.asarray(mean, float), np.asarray(cov, float)
        w, v = np.linalg.eigh((cov + cov.T) / 2)
        L = v * np.sqrt(np.clip(w, 0, None))
        if not np.allclose(cov, cov.T, atol=1e-8 * (1 + np.abs(cov).max())):
            raise Fail('asymmetric covariance')
        sh = () if size is None else tuple(np.atleast_1d(size).astype(int))
        z = self.take(sh + (len(mean),))
        return mean + np.dot(z, L.T)

    def __enter__(self):
        self.saved = []
        for n, orig in _ORIG.items():
            new = getattr(self, n)
            setattr(npr, n, new)
            for m in (wcc, wsc, wo):
                for a, v in list(vars(m).items()):
                    if v is orig:
                        self.saved.append((m, a, v))
                        setattr(m, a, new)
        return self

    def __exit__(self, *a):
        for n, orig in _ORIG.items():
            setattr(npr, n, orig)
        for m, a, v in self.saved:
            setattr(m, a, v)


def response(f):
    """f() -> array; returns (mean, covariance of the flattened output)"""
    with Noise() as nz:
        base = np.asarray(f(), float)
        K = nz.pos
    require(K > 0, 'no noise was used')
    A = []
    for k in range(K):
        with Noise(k) as nz:
            A.append((np.asarray(f(), float) - base).ravel())
            tick()
            require(nz.pos == K, 'noise consumption varies')
    A = np.array(A)
    return base, A.T.dot(A)


def toep(r, n):
    r = list(r) + [0.0] * n
    return np.array([[r[abs(i - j)] for j in range(n)] for i in range(n)])


def f_sim(case):
    acf, dt, ns, cases = case
    R = CovData1D(np.array(acf, float), np.arange(len(acf)) * dt)
    n = len(acf) - 1 if ns is None else ns
    kw = {} if ns is None else dict(ns=ns)
    mean, C = response(lambda: R.sim(cases=cases, **kw)[:, 1:])
    require(np.array_equal(R.data, np.array(acf, float)), 'the covariance function was modified')
    require(mean.shape == (n, cases), 'shape %s' % (mean.shape,))
    close(mean, np.zeros((n, cases)), 'mean')
    want = np.kron(toep(acf, n), np.eye(cases))
    close(C, want, 'covariance of the simulated process', 1e-8, 1e-8 * acf[0])
    with Noise():
        t = R.sim(cases=cases, **kw)[:, 0]
    close(t, np.arange(n) * dt, 'time column')
    return rnd(C[0])


def f_simder(case):
    acf, dt, ns, cases = case
    R = CovData1D(np.array(acf, float), np.arange(len(acf)) * dt)
    mean, C = response(lambda: np.hstack([y[:, 1:] for y in R.sim(ns=ns, cases=cases, derivative=True)]))
    m = 2 * len(acf) - (1 if abs(acf[-1]) > 1e-15 else 2)
    N = 1
    while N < max(m, 2 * ns):
        N *= 2
    k = np.arange(N)
    k = np.where(k <= N // 2, k, k - N)
    w = k * 2 * np.pi / N / dt
    c = np.zeros(N)
    c[:len(acf)] = acf
    for i in range(1, len(acf)):
        c[-i] = acf[i]
    S = np.fft.fft(c).real / N
    lag = (np.arange(ns)[:, None] - np.arange(ns)[None, :]) * dt      # t_i - t_j

    def cov(fun):
        return sum(S[j] * fun(w[j]) for j in range(N))
    C4 = C.reshape(ns, 2 * cases, ns, 2 * cases)
    xx = cov(lambda v: np.cos(v * lag))
    dd = cov(lambda v: v * v * np.cos(v * lag))
    xd = cov(lambda v: v * np.sin(v * lag))      # E x(t_i) x'(t_j) = -d/dtau R(tau) at t_i - t_j
    sc = np.abs(dd).max() + acf[0]
    for a in range(cases):
        for b in range(cases):
            e = 1.0 if a == b else 0.0
            close(C4[:, a, :, b], e * xx, 'cov(x,x) %d %d' % (a, b), 1e-8, 1e-8 * sc)
            close(C4[:, cases + a, :, cases + b], e * dd, "cov(x',x') %d %d" % (a, b), 1e-8, 1e-8 * sc)
            close(C4[:, a, :, cases + b], e * xd, "cov(x,x') %d %d" % (a, b), 1e-8, 1e-8 * sc)
    return rnd(C[0])


def f_simtr(case):
    acf, ns, which, der = case
    t = np.arange(len(acf)) * 0.5
    R = CovData1D(np.array(acf, float), t)
    g = wtm.TrHermite(mean=0.5, sigma=1.3, skew=0.2, kurt=3.1) if which and not der else wtm.TrLinear(mean=1.0, sigma=2.0)
    Rt = CovData1D(np.array(acf, float), t, tr=g)
    for k in (None, 0, 3, 5):
        with Noise(k):
            a = R.sim(ns=ns, cases=2, derivative=der)
        with Noise(k):
            b = Rt.sim(ns=ns, cases=2, derivative=der)
        tick(2)
        for c in (1, 2):
            if der:
                x, d = g.gauss2dat(a[0][:, c], a[1][:, c])
                close(b[0][:, c], x, 'transformed values')
                close(b[1][:, c], d, 'transformed derivative')
            else:
                close(b[:, c], g.gauss2dat(a[:, c]), 'transformed values')
    return 'ok'


def interp0(f, fu, su):
    """piecewise linear, written out"""
    out = []
    for v in f:
        j = 0
        while j < len(fu) - 2 and fu[j + 1] < v:
            j += 1
        out.append(su[j] + (su[j + 1] - su[j]) * (v - fu[j]) / (fu[j + 1] - fu[j]))
    return np.array(out)


def f_ssim(case):
    S, wN, ft, ns, cases, der, dtf = case
    n = len(S)
    args = np.linspace(0, wN, n)
    sp = SpecData1D(np.array(S, float), args, freqtype=ft)
    c = 0.5 if ft == 'f' else math.pi
    dt = None if dtf is None else dtf * c / wN
    kw = dict(cases=cases, dt=dt)
    if ns is not None:
        kw['ns'] = ns
    if der:
        mean, C = response(lambda: np.hstack([y[:, 1:] for y in sp.sim(derivative=True, **kw)]))
    else:
        mean, C = response(lambda: sp.sim(**kw)[:, 1:])
    require(np.array_equal(sp.data, np.array(S, float)) and np.array_equal(sp.args, np.linspace(0, wN, n)), 'spectrum modified')
    rs = sp.copy()
    if dt is not None:
        rs.resample(dt)
    d_t = c / rs.args[-1]
    m = len(rs.args) - 1 if ns is None else ns
    m += m % 2
    require(len(mean) == m, 'length %d want %d' % (len(mean), m))
    f = rs.args if ft == 'f' else rs.args / (2 * np.pi)
    s = rs.data if ft == 'f' else rs.data * 2 * np.pi
    df = 1 / (m * d_t)
    fk = np.arange(1, m // 2) * df
    su = np.r_[0., s[1:-1], 0.]
    fu = np.r_[0., f[1:-1], df * (m // 2)]
    sk = interp0(fk, fu, su)
    lag = (np.arange(m)[:, None] - np.arange(m)[None, :]) * d_t
    P = 2 if der else 1
    C4 = C.reshape(m, P * cases, m, P * cases)
    w = 2 * np.pi * fk

    def cov(fun):
        return sum((sk[j] * df * fun(w[j]) for j in range(len(w))), np.zeros((m, m)))
    xx = cov(lambda v: np.cos(v * lag))
    for a in range(cases):
        for b in range(cases):
            e = float(a == b)
            close(C4[:, a, :, b], e * xx, 'covariance of the simulated process', 1e-8, 1e-9 + 1e-8 * np.abs(xx).max())
            if der:
                dd = cov(lambda v: v * v * np.cos(v * lag))
                xd = cov(lambda v: v * np.sin(v * lag))
                sc = 1e-9 + 1e-8 * np.abs(dd).max()
                close(C4[:, cases + a, :, cases + b], e * dd, 'covariance of the derivative', 1e-8, sc)
                close(C4[:, a, :, cases + b], e * xd, 'covariance of process and derivative', 1e-8, sc)
    with Noise():
        t = sp.sim(**kw)[:, 0]
    close(t, np.arange(m) * d_t, 'time column')
    return rnd(C[0])


def f_ssimtr(case):
    """a spectrum with a transformation: the values simulated without it, transformed; and nonlinear simulation likewise"""
    S, ft, ns, cases, which, der, method = case
    args = np.linspace(0, 2.0, len(S))
    g = wtm.TrHermite(mean=0.5, sigma=1.3, skew=0.2, kurt=3.1) if which and not der else wtm.TrLinear(mean=1.0, sigma=2.0)
    a = SpecData1D(np.array(S, float), args.copy(), freqtype=ft)
    b = SpecData1D(np.array(S, float), args.copy(), freqtype=ft, tr=g)
    for k in (None, 0, 3, 5):
        with Noise(k):
            x = a.sim(ns=ns, cases=cases, derivative=der, method=method)
        with Noise(k):
            y = b.sim(ns=ns, cases=cases, derivative=der, method=method)
        tick(2)
        require(b.tr is g, 'transformation of the spectrum')
        for c in range(1, cases + 1):
            if der:
                v, d = g.gauss2dat(x[0][:, c], x[1][:, c])
                close(y[0][:, c], v, 'transformed values')
                close(y[1][:, c], d, 'transformed derivative')
                close(y[0][:, 0], x[0][:, 0], 'times')
            else:
                close(y[:, c], g.gauss2dat(x[:, c]), 'transformed values')
                close(y[:, 0], x[:, 0], 'times')
    return 'ok'


def f_exact(case):
    S, wN, ns, cases = case
    n = len(S)
    sp = SpecData1D(np.array(S, float), np.linspace(0, wN, n))
    for k in (None, 0, 1, 4, 9):
        with Noise(k):
            a = sp.sim(ns=ns, cases=cases, method='exact')
        with Noise(k):
            b = sp.tocovdata().sim(ns=ns, cases=cases)
        tick(2)
        close(a, b, 'exact simulation = simulation from the covariance function')
    return rnd(a)


def seeded(kind, ns, seed, der=False):
    acf = np.array([2., 1., .5, .2, 0.1])
    if kind == 'cov':
        return CovData1D(acf, np.arange(5) * .5).sim(ns=ns, cases=2, iseed=seed)
    if kind == 'spec':
        return SpecData1D(np.array([0., 1, 3, 2, 1]), np.linspace(0, 2, 5)).sim(ns=ns, cases=2, iseed=seed)
    if kind == 'exact':
        return SpecData1D(np.array([0., 1, 3, 2, 1]), np.linspace(0, 2, 5)).sim(ns=ns, cases=2, iseed=seed, method='exact')
    u = np.linspace(0, 2, 17)
    S = SpecData1D(u ** 2 * np.exp(-u * 2) * 0.1, u)
    out = S.sim_nl(ns=ns, cases=1, iseed=seed, output='matrix')
    return np.hstack([np.asarray(o) for o in out[:2]])


def f_seed(case):
    """same seed -> same realisation, whatever was drawn before"""
    kind, ns, hist = case
    st = npr.get_state()
    try:
        ref = seeded(kind, ns, 7).copy()
        npr.seed(123)
        state = npr.get_state()
        ref2 = seeded(kind, ns, state).copy()
        for h in hist:
            if h == 'draw':
                npr.randn(3)
            elif h == 'seed':
                npr.seed(99)
            else:
                seeded(h, 8, 5 if h != 'cov' else None)
            tick()
        a = seeded(kind, ns, 7)
        b = seeded(kind, ns, state)
        tick(2)
        require(np.array_equal(a, ref), 'seed 7 gave another realisation after %s' % (hist,))
        require(np.array_equal(b, ref2), 'a given generator state gave another realisation after %s' % (hist,))
        c = seeded(kind, ns, 8)
        require(not np.array_equal(c, a), 'different seeds give the same realisation')
        d = seeded(kind, ns, None)
        require(not np.array_equal(c[:, 1:], d[:, 1:]), 'without a seed the generator does not advance')
    finally:
        npr.set_state(st)
    return rnd(a[:, 1:], 6)


def cond_ref(acf, n, unk, x, nug=0.0):
    r = list(acf)
    S = toep(r, n)
    if nug:
        S = S + np.eye(n) * r[0] * nug
    kn = [i for i in range(n) if i not in unk]
    W = np.linalg.solve(S[np.ix_(kn, kn)], S[np.ix_(kn, unk)]).T
    mu = W.dot(np.array([x[i] for i in kn]))
    C = S[np.ix_(unk, unk)] - W.dot(S[np.ix_(kn, unk)])
    return mu, C


def f_cond(case):
    acf, n, unk, method, form = case
    x = np.array([((3 * i * i + i) % 7) - 3.0 for i in range(n)])
    data = np.array(acf, float)
    R = CovData1D(data, np.arange(len(acf)) * 0.5)
    xin = x.copy()
    kw = {}
    if form == 'nan':
        xin[unk] = np.nan
    else:
        kw['i_unknown'] = np.array(unk)
    keep = xin.copy()

    def one():
        s, mu, sd = R.simcond(xin, method=method, **kw)
        require(np.array_equal(keep, xin, equal_nan=True), 'the caller\'s record was modified')
        require(np.array_equal(R.data, np.array(acf, float)), 'the covariance function was modified')
        return np.vstack([s, mu, sd])
    base, C = response(one)
    k = len(unk)
    sparse = method.startswith('exac') and len(acf) <= 0.3 * n
    mu, Cw = cond_ref(acf, n, unk, x, 1e-5 if sparse else 0.0)
    close(base[1], mu, 'conditional mean', 1e-5, 1e-6)
    close(base[2], np.sqrt(np.diag(Cw)), 'conditional standard deviation', 1e-4, 1e-5)
    close(base[0], mu, 'mean of the sample', 1e-5, 1e-6)
    close(C[:k, :k], Cw, 'covariance of the sample', 1e-4, 1e-5)
    close(C[k:, k:], np.zeros((2 * k, 2 * k)), 'mean and deviation do not depend on the noise')
    return rnd(base)


def f_condwin(case):
    """records longer than one window: neighbours dominate, so the approximate method must stay near the exact one"""
    acf, n, unk = case
    x = np.array([((3 * i * i + i) % 7) - 3.0 for i in range(n)])
    R = CovData1D(np.array(acf, float), np.arange(len(acf)) * 0.5)
    xin = x.copy()
    xin[unk] = np.nan
    keep = xin.copy()
    with Noise():
        s, mu, sd = R.simcond(xin, method='approx')
    tick()
    require(np.array_equal(keep, xin, equal_nan=True), 'record modified')
    rm, rc = cond_ref(acf, n, unk, x)
    close(mu, rm, 'conditional mean', 0, 0.2)
    close(s, rm, 'sample without noise = conditional mean', 0, 0.2)
    close(sd, np.sqrt(np.diag(rc)), 'conditional deviation', 0, 0.2)
    return rnd(mu)


def f_condedge(case):
    acf, n, which, method = case
    R = CovData1D(np.array(acf, float), np.arange(len(acf)) * 0.5)
    x = np.arange(n) * 1.0
    if which == 'all':
        x[:] = np.nan
    with Noise():
        s, mu, sd = R.simcond(x, method=method)
    tick()
    k = n if which == 'all' else 0
    close(s, np.zeros(k), 'sample')
    close(mu, np.zeros(k), 'mean')
    close(sd, np.full(k, math.sqrt(acf[0])), 'deviation')
    return k


def parzen(k, M):
    u = k / (M / 2.0)
    return np.where(k <= (M - 1) / 4.0, 1 - 6 * u ** 2 * (1 - u), 2 * (1 - u) ** 3)


def f_est(case):
    x, dt, lag, flag, norm, window, form = case
    n = len(x)
    v = np.array([np.nan if a is None else float(a) for a in x])
    t = np.arange(n) * dt
    keep = v.copy()
    est = wce.CovarianceEstimator(lag=lag, flag=flag, norm=norm, window=window)
    if form == 'ts':
        arg = wo.TimeSeries(v, t)
    else:
        arg = np.column_stack([t, v])
        a0 = arg.copy()
    tick()
    R = est(arg)
    require(np.array_equal(keep, v, equal_nan=True), 'record modified')
    if form != 'ts':
        require(np.array_equal(arg, a0, equal_nan=True), 'record modified')
    ok = ~np.isnan(v)
    N = int(ok.sum())
    y = np.where(ok, v - v[ok].mean(), 0.0)
    c = np.array([sum(y[i] * y[i + k] for i in range(n - k)) for k in range(n)]) / N
    if flag == 'unbiased':
        c = c * N / (N - np.arange(n))
    if norm:
        c = c / c[0]
    if lag is None:
        L = len(R.data) - 1
        require(0 <= L <= n - 2, 'default lag %d' % L)
        if flag == 'biased':
            # two beyond the last lag, at most 300, where the estimate exceeds two large lag standard deviations
            last = min(300, n - 1)
            sd = np.sqrt(np.r_[0, c[0] ** 2, c[0] ** 2 + 2 * np.cumsum(c[1:] ** 2)] / N)
            d = np.abs(c[:last + 1]) - 2 * sd[:last + 1]
            if np.min(np.abs(d)) > 1e-9:
                big = np.flatnonzero(d > 0)
                dl = int(big[-1] if len(big) else last) + 2
                require(L == min(n - 2, int(4 * dl / 3) if window == 'parzen' else dl), 'default lag %d, last lag with large covariance %s' % (L, big))
    else:
        L = min(lag, n - 2)
    if window == 'parzen':
        # recorded finding: the window is evaluated half a lag too far out; anywhere else than the group that
        # records it, that form is accepted as well
        w = parzen(np.arange(L), 2 * L - 1)
        if form != 'known' and not np.allclose(R.data[:L], c[:L] * w, atol=1e-9):
            w = parzen(np.abs(np.arange(L) - 0.5), 2 * L)
    else:
        w = np.ones(L)
    want = np.r_[c[:L] * w, 0.0]
    close(R.data, want, 'covariance estimate', 1e-9, 1e-9)
    close(R.args, np.arange(L + 1) * dt, 'lags')
    require(bool(R.norm) == bool(norm), 'norm flag')
    s = R.sigma
    cc = np.cumsum(want[1:] ** 2)
    sig = np.sqrt(np.r_[0, want[0] ** 2, want[0] ** 2 + 2 * cc][:L + 1] / N)
    close(np.asarray(s)[:L + 1], sig, 'large lag standard deviation', 1e-9, 1e-9)
    for k, ch in zip((-2, 2), R.children):
        close(np.ravel(ch.data), k * sig, 'band of two standard deviations', 1e-9, 1e-9)
        close(np.ravel(ch.args), np.arange(L + 1) * dt, 'lags of the band')
    return rnd(R.data)


def f_tscov(case):
    x, lag, kw = case
    v = np.array(x, float)
    t = np.arange(len(x)) * 0.5
    ts = wo.TimeSeries(v, t)
    tick(2)
    a = ts.tocovdata(lag=lag, **kw)
    b = wce.CovarianceEstimator(lag=lag, detrend=wo.detrend_mean, **kw)(ts)
    close(a.data, b.data, 'TimeSeries.tocovdata')
    close(a.args, np.arange(len(a.data)) * kw.get('dt', 0.5), 'lags')
    close(b.args, np.arange(len(b.data)) * kw.get('dt', 0.5), 'lags')
    if len(x) >= 6:
        # spectral estimate = transform of the windowed covariance estimate, in the unit asked for
        tick(2)
        Sw = ts.tospecdata(L=lag, window='parzen', ftype='w')
        Sf = ts.tospecdata(L=lag, window='parzen', ftype='f')
        R = ts.tocovdata(lag=lag, window='parzen')
        ref = R.tospecdata(rate=4, nugget=1e-12)
        close(Sw.data, ref.data, 'spectrum estimate')
        close(Sw.args, ref.args, 'frequencies')
        close(Sf.data, ref.data * 2 * np.pi, 'spectrum estimate per Hz')
        close(Sf.args, ref.args / 2 / np.pi, 'frequencies in Hz')
        require(np.all(Sw.data >= 0), 'negative spectrum')
    require(np.array_equal(v, np.array(x, float)), 'record modified')
    return rnd(a.data)


def periodic(name, n):
    """textbook window of n + 1 points without its last one"""
    u = np.arange(n) / n * 2 - 1
    if name == 'hann':
        return 0.5 + 0.5 * np.cos(np.pi * u)
    if name == 'bartlett':
        return 1 - np.abs(u)
    # parzen: defined on the points of a window stretched by one step at each side
    v = np.abs(np.arange(n) - n / 2) / ((n + 1) / 2)
    return np.where(v <= 0.5, 1 - 6 * v ** 2 * (1 - v), 2 * (1 - v) ** 3)


def chi2cdf(x, k):
    """distribution function of chi square, by its series"""
    a, x = k / 2.0, x / 2.0
    t = s = 1.0 / a
    for i in range(1, 2000):
        t *= x / (a + i)
        s += t
    return s * math.exp(a * math.log(x) - x - math.lgamma(a))


def f_default_L(case):
    """without L the spectrum estimate uses the default lag of the covariance estimate"""
    x, method, window, ft = case
    ts = wo.TimeSeries(np.array(x, float), np.arange(len(x)) * 0.5)
    tick(2)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        S = ts.tospecdata(method=method, window=window, ftype=ft)
        y = np.array(x, float)
        L = len(wo.TimeSeries(y - y.mean(), ts.args).tocovdata(window=window).data) - 1
        Z = ts.tospecdata(L=L, method=method, window=window, ftype=ft)
    require(S.L == L, 'default L %s, expected %s' % (S.L, L))
    close(S.data, Z.data, 'estimate with the default L')
    close(S.args, Z.args, 'frequencies')
    return rnd(S.data[::5])


def f_welch(case):
    """segment averaged periodogram; band width, confidence limits and bookkeeping of both estimators"""
    x, L, method, window, noverlap, ft, alpha, tr = case
    v = np.array(x, float)
    dt = 0.5
    ts = wo.TimeSeries(v.copy(), np.arange(len(v)) * dt)
    g = wtm.TrHermite(mean=0.3, sigma=1.5, skew=0.2, kurt=3.3) if tr else None
    win = [1.0 + (i % 3) for i in range(2 * L - 1)] if window == 'vector' else window
    kw = {'noverlap': noverlap} if noverlap else {}
    tick()
    S = ts.tospecdata(L=L, tr=g, method=method, detrend=None if method == 'cov' else (lambda y: y),
                      window=np.array(win) if window == 'vector' else win, ftype=ft, alpha=alpha, **kw)
    require(np.array_equal(ts.data, v), 'record modified')
    y = g.dat2gauss(v) if tr else v
    n = len(v)
    unit = 2 * np.pi if ft == 'f' else 1.0
    if method.startswith('psd'):
        N = 2 * L - 1
        w = np.array(win, float) if window == 'vector' else periodic(window, N)
        hop = N - (N // 2 if method == 'psdo' else noverlap)
        nfft = 4
        while nfft < 4 * (2 * L - 2):
            nfft *= 2
        P = np.zeros(nfft // 2 + 1)
        m = 0
        E = np.exp(-2j * np.pi * np.outer(np.arange(nfft // 2 + 1), np.arange(N)) / nfft)
        for k in range(0, n - N + 1, hop):
            P += np.abs(E @ (w * y[k:k + N])) ** 2
            m += 1
        P *= dt / m / (w ** 2).sum()
        P[1:-1] *= 2
        f = np.arange(nfft // 2 + 1) / nfft / dt
        close(S.data, P / (2 * np.pi) * unit, 'periodogram average', 1e-8, 1e-10)
        close(S.args, 2 * np.pi * f / unit, 'frequencies')
    else:
        Z = wo.TimeSeries(y, ts.args).tocovdata(lag=L, window=win).tospecdata(rate=4, nugget=1e-12)
        close(S.data, Z.data * unit, 'transform of the covariance estimate')
        close(S.args, Z.args / unit, 'frequencies')
    require(S.freqtype == ft and S.tr is g and S.L == L and S.norm is False and method in S.note, 'bookkeeping')
    # band width and degrees of freedom of the smoothed spectrum
    known = {'parzen': (1.33, 3.71), 'hann': (1.0, 2.67), 'bartlett': (1.33, 3.0)}
    if window in known:
        b, d = known[window]
        close(S.Bw, b * 2 * np.pi / (L * dt) / unit, 'band width')
        dof = int(d * n / L)
        if alpha is not None:
            require(len(S.CI) == 2 and S.CI[0] <= S.CI[1], 'confidence limits in reversed order: %s' % (S.CI,))
            close([chi2cdf(dof / S.CI[0], dof), chi2cdf(dof / S.CI[1], dof)], [1 - alpha / 2, alpha / 2], 'confidence limits', 1e-8)
    else:
        require(np.isnan(S.Bw), 'band width of an unknown window')
    return rnd(S.data)


def require_correction(sp, S, x1, got, h, fnlimit, reltol):
    """the correction is the sum over pairs of admitted linear components of the quadratic transfer functions"""
    n = len(x1)
    u = np.linspace(0, 2.5, len(S))
    df = 2.5 / np.pi / n
    Hm0, Tm02 = sp.characteristic(['Hm0', 'Tm02'])[0]
    hh = min(h, 1e30)
    kb = k_ref(2 * np.pi / Tm02, h)
    am = math.sqrt(2 * math.log(1000.)) * Hm0 / 4
    fup = fnlimit * math.sqrt(9.81 * math.tanh(kb * hh) / am) / (2 * np.pi)
    flo = math.sqrt(9.81 * math.tanh(kb * hh) * am / hh) / (2 * np.pi * hh)
    fk = np.arange(n // 2) * df
    sk = np.interp(fk[1:], np.r_[0, u[1:-1] / 2 / np.pi, df * (n // 2)], np.r_[0, S[1:-1], 0])
    # reltol is compared with the two-sided density
    first, last = np.flatnonzero(sk / 2 > S[1:-1].max() * reltol)[0] + 1, np.flatnonzero(sk > 0)[-1] + 1
    require(all(abs(f - e) > 1e-9 for f in fk[1:] for e in (flo, fup)) and np.all(np.abs(sk / 2 / S[1:-1].max() - reltol) > 1e-12),
            'harness: a frequency on the limit')
    adm = [k for k in range(first, last + 1) if flo <= fk[k] <= fup]
    K = {(i, j): kernels(2 * np.pi * fk[i], 2 * np.pi * fk[j], h) for i in adm for j in adm if i <= j}
    want = np.zeros_like(got)
    for c in range(got.shape[1]):
        A = np.fft.ifft(x1[:, c + 1])
        C = np.zeros(n, complex)
        for (i, j), (s, d) in K.items():
            C[i + j] += 4 * s * A[i] * A[j] * (1 if i == j else 2)
            C[j - i] += 4 * d * np.conj(A[i]) * A[j] * (1 if i == j else 2)
        want[:, c] = np.fft.fft(C).real
    close(got, want, 'second order correction', 1e-6, 1e-9)


def f_nl(case):
    """second-order simulation: the linear part is the linear simulation, the correction is the quadratic one"""
    shape, ns, cases, h, ft, z, fnl, rel = case
    u = np.linspace(0, 2.5, 33)
    S = (u ** 4 * np.exp(-3 * u), np.exp(-((u - 0.8) / 0.15) ** 2), np.where((u > 0.5) & (u < 1.3), 1.0, 0.0))[shape]
    sp = SpecData1D(S * (2 * np.pi if ft == 'f' else 1), u / (2 * np.pi if ft == 'f' else 1), freqtype=ft, h=h)
    K = ns * cases                    # noise numbers per replicate set: ns2+1 + ns2-1 = ns
    res = []
    for v in (1.0, 2.0):
        st = npr.get_state()
        npr.seed(z)
        with_noise = npr.randn

        def scaled(*s, **k):
            return v * _ORIG['randn'](*s, **k)

        def scaled2(size=None):
            return v * _ORIG['standard_normal'](size)
        npr.randn, npr.standard_normal = scaled, scaled2
        try:
            x2, x1 = sp.sim_nl(ns=ns, cases=cases, output='matrix', fnlimit=fnl, reltol=rel)
            tick(2)
            npr.seed(z)
            lin = sp.sim(ns=ns, cases=cases)
        finally:
            npr.randn, npr.standard_normal = _ORIG['randn'], _ORIG['standard_normal']
            npr.set_state(st)
        close(x1, lin, 'linear part', 1e-9, 1e-9)
        require(x2.shape == x1.shape, 'shape')
        close(x2[:, 0], x1[:, 0], 'time column')
        res.append((x2 - x1)[:, 1:])
        require_correction(sp, S, x1, res[-1], h, fnl, rel)
    close(res[1], 4 * res[0], 'the correction is quadratic in the amplitudes', 1e-7, 1e-9)
    n = len(x1)
    ts, tl = sp.sim_nl(ns=ns, cases=cases, iseed=z), sp.sim_nl(ns=ns, cases=cases, iseed=z, output='matrix')
    tick(2)
    for a, b in zip(ts, tl):
        close(np.asarray(a.data).reshape(n, cases), b[:, 1:], 'time series output')
        close(np.ravel(a.args), b[:, 0], 'time series output times')
    return rnd(res[0])


def f_nldet(case):
    """deterministic amplitudes: |component k| = sqrt(2 S(f_k) df) whatever the noise"""
    method, ns, z = case
    u = np.linspace(0, 2.5, 33)
    sp = SpecData1D(u ** 4 * np.exp(-3 * u), u)
    tick()
    x2, x1 = sp.sim_nl(ns=ns, cases=2, method=method, iseed=z, output='matrix')
    n = len(x1)
    dt = np.pi / 2.5
    df = 1 / (n * dt)
    fk = np.arange(1, n // 2) * df
    s = sp.data * 2 * np.pi
    sk = interp0(fk, np.r_[0, u[1:-1] / 2 / np.pi, df * (n // 2)], np.r_[0, s[1:-1], 0])
    for c in (1, 2):
        F = np.fft.fft(x1[:, c]) / n
        close(2 * np.abs(F[1:n // 2]), np.sqrt(2 * sk * df), 'amplitudes', 1e-7, 1e-9)
        if method.startswith('apd'):
            ph = F[1:n // 2][sk > 1e-12]
            close(ph / np.abs(ph), np.full(len(ph), ph[0] / abs(ph[0])), 'phases', 1e-6, 1e-6)
    return rnd(x1)


def groups(tier):
    deep = tier == 'thorough'
    G = []
    cases = []
    for a in words([-1, 0, 1], 1, 4 if deep else 3):
        acf = [9.0] + a
        for ns in (None, 1, 2, 5):
            for nc in (1, 2, 3):
                if len(acf) < 3 and ns in (None, 1):
                    continue
                cases.append([acf, 0.5, ns, nc])
    cases += [[[9.0, 2.0, -1.0, .5, 0.0, 0.25, 0.0][:m], dt, ns, nc] for m in (2, 3, 4, 5, 6, 7) for dt in (0.1, 2.0)
              for ns in (3, 4, 8, 9) for nc in (1, 4)]
    G.append(Group('covariance-simulation', cases, f_sim))
    # covariances of moving averages (1 + B) q(B): no energy at the Nyquist frequency, where a derivative is ambiguous
    cases = []
    for q in words([-0.3, 0.0, 0.4], 0, 3 if deep else 2):
        b = np.convolve([1.0, 1.0], [1.0] + q)
        acf = np.correlate(b, b, 'full')[len(b) - 1:].tolist()
        for pad in (0, 1, 2):
            for dt in (0.5, 2.0):
                for ns in (2, 4, 7):
                    for nc in (1, 2, 3):
                        a = acf + [0.0] * pad
                        cases.append([a, dt, ns, nc])
    G.append(Group('covariance-simulation-derivative', cases, f_simder))
    G.append(Group('transformed-simulation', [[[1.0, .3, a], ns, wh, d] for a in (0., .1) for ns in (4, 9) for wh in (0, 1)
                                              for d in (False, True)], f_simtr))
    cases = []
    for S in words([0, 1, 3], 4, 4):
        if any(S):
            cases.append([S, 2.0, 'w', 6, 1, False, None])
    for S in words([0, 2], 5, 6 if deep else 5):
        if any(S):
            for ft in 'wf':
                for ns in (None, 4, 5, 10):
                    cases.append([S, 1.5, ft, ns, 2, False, None])
                for ns in (4, 7):
                    cases.append([S, 1.5, ft, ns, 1, True, None])
    for ft in 'wf':
        for dtf in (0.5, 0.8, 1.0):
            for ns in (6, 9):
                for d in (False, True):
                    cases.append([[0, 1, 3, 2, 1, .5, .2, .1, 0], 1.5, ft, ns, 3, d, dtf])
    G.append(Group('spectral-simulation', cases, f_ssim))
    G.append(Group('spectral-simulation-transformed', [[S, ft, ns, nc, wh, d, m] for S in ([0, 1, 3, 2, 1], [1, 2, 0]) for ft in 'wf' for ns in (4, 7, 10)
                   for nc in (1, 3) for wh in (0, 1) for d in (False, True) for m in ('random', 'exact')], f_ssimtr))
    G.append(Group('exact-simulation', [[S, 2.0, ns, nc] for S in words([0, 1, 3], 4, 4) if any(S) for ns in (3, 6) for nc in (1, 2)],
                   f_exact))
    ops = ['draw', 'seed', 'cov', 'spec', 'exact']
    cases = [[k, ns, list(h)] for k in ('cov', 'spec', 'exact') for ns in (8, 9) for L in range(0, 4 if deep else 3)
             for h in itertools.product(ops, repeat=L)]
    cases += [['nl', 16, list(h)] for L in range(0, 2) for h in itertools.product(ops, repeat=L)]
    G.append(Group('seed-histories', cases, f_seed))
    G.append(Group('second-order-simulation', [[s, ns, nc, h, ft, z, fnl, rel] for s in range(3) for ns in (64, 65, 100) for nc in (1, 2)
                                               for h in (np.inf, 30.0) for ft in 'wf' for z in (1, 2)
                                               for fnl, rel in ((math.sqrt(2), 1e-3), (0.71, 0.213))] +
                   [[s, 64, 1, h, 'w', 1, fnl, 1e-3] for s in range(3) for h in (np.inf, 30.0, 12.0, 6.0, 4.0, 3.0) for fnl in (0.25, 0.3, 0.36, 0.44, 0.52, 0.6, 0.85, 1.0)], f_nl))
    G.append(Group('deterministic-amplitudes', [[m, ns, z] for m in ('apdeterministic', 'adeterministic') for ns in (64, 66) for z in (1, 2, 3)],
                   f_nldet))
    cases = []
    for acf in ([4.0, 1.0], [4.0, 2.0, 0.5], [4.0, -1.5, 1.0, 0.5]):
        for n in range(max(4, len(acf)), 8 if deep else 7):
            for r in range(1, n):
                for unk in itertools.combinations(range(n), r):
                    for form in ('nan', 'idx'):
                        cases.append([acf, n, list(unk), 'exact', form])
                    if 2 * len(acf) >= n:
                        cases.append([acf, n, list(unk), 'approx', 'nan'])
    for n in (8, 10):
        for r in (1, 2, 3):
            for unk in itertools.combinations(range(n), r):
                cases.append([[4.0, 1.0], n, list(unk), 'exact', 'nan'])
    G.append(Group('conditional-simulation', cases, f_cond))
    cases = []
    for acf in ([4.0, 1.0, 0.5, 0.25, 0.2], [4.0, 1.2, 0.3]):
        for n in (14, 20, 31):
            for a in range(0, n):
                for L in (1, 2):
                    if a + L <= n:
                        cases.append([acf, n, list(range(a, a + L))])
                for b in range(a + 2, n):
                    cases.append([acf, n, [a, b]])
                    if b + 3 < n:
                        cases.append([acf, n, [a, b, b + 3]])
    G.append(Group('conditional-simulation-windows', cases, f_condwin))
    G.append(Group('conditional-edges', [[[4.0, 1.0, .5], n, w, m] for n in (4, 6, 9) for w in ('all', 'none') for m in ('exact', 'approx')],
                   f_condedge))
    cases = []
    for x in words([-1, 0, 2], 4, 5):
        if len(set(x)) > 1:
            for lag in (1, 2, 3, 10):
                cases.append([x, 0.5, lag, 'biased', False, 'boxcar', 'ts'])
            cases.append([x, 0.5, 3, 'unbiased', False, 'boxcar', 'arr'])
            cases.append([x, 1.0, 2, 'biased', True, 'parzen', 'ts'])
    for x in words([None, -1, 2], 4, 5):
        if len(set(x) - {None}) > 1:
            for lag in (1, 2, 3):
                cases.append([x, 0.5, lag, 'biased', False, 'boxcar', 'ts'])
                cases.append([x, 0.5, lag, 'biased', True, 'boxcar', 'arr'])
    for n in list(range(6, 40)) + [63, 64, 65, 127, 128, 129]:
        x = [(k * k * 3 + k) % 11 - 5 for k in range(n)]
        for lag in (None, 1, n // 2, n - 2, n + 5):
            for flag in ('biased', 'unbiased'):
                for w in ('boxcar', 'parzen'):
                    cases.append([x, 0.25, lag, flag, False, w, 'ts'])
    for n in (20, 47, 90, 302, 303, 310, 420):
        for per in (5.3, 11.7, 40.2, 170.0):
            for amp in (0, 2, 6):
                cases.append([[round(amp * math.sin(2 * math.pi * k / per) * math.exp(-k / 200.0) + (k * k * 3 + k) % 11 - 5, 3) for k in range(n)], 0.25, None, 'biased', False, ('boxcar', 'parzen')[(n + amp) % 2], 'ts'])
    G.append(Group('covariance-estimation', cases, f_est))
    cases = []
    recs = [[1.5, -0.5, 0.25, 2.0, -1.75, 0.5, 0.0, -1.0, 1.0, 0.75, -2.0, 0.5, 1.25, -0.75, 0.1, 0.9, -1.2, 0.4, 1.1, -0.6, 0.2]]
    recs += [[float(a * b) for b in recs[0][:11] for a in (1, -1, 2)]]
    recs += [w for w in words([-1, 1], 8, 9 if deep else 8)]
    for x in recs:
        for L in ((2, 3, 4, 5) if len(x) > 10 else (3,)):
            for method in ('psd', 'psdo', 'cov'):
                for window in (('parzen', 'hann', 'bartlett', 'vector') if len(x) > 10 else ('parzen',)):
                    for no in ((0, 1, 2) if method == 'psd' else (0,)):
                        for ft in 'wf':
                            for alpha, tr in ((None, False), (0.05, True), (0.4, False)):
                                cases.append([x, L, method, window, no, ft, alpha, tr])
    G.append(Group('spectral-estimation', cases, f_welch))
    G.append(Group('spectral-estimation-default', [[[round(amp * math.sin(2 * math.pi * k / per) + (k * k * 3 + k) % 11 - 5, 3) for k in range(n)], m, w, ft]
                                                   for n in (30, 61, 100, 320) for per in (5.3, 11.7, 40.2) for amp in (0, 6)
                                                   for m in ('cov', 'psd', 'psdo') for w in ('parzen', 'hann') for ft in 'wf'], f_default_L))
    G.append(Group('window-at-zero-lag', [[[-1, -1, 3, 0, 2, -2], 1.0, 3, 'biased', False, 'parzen', 'known']], f_est))
    cases = [[[(k * k * a + k) % 11 - 5 for k in range(n)], lag, kw] for n in (6, 9, 16, 33) for a in (1, 3) for lag in (2, 4)
             for kw in ({}, {'window': 'parzen'}, {'norm': True}, {'flag': 'unbiased'}, {'dt': 0.5}, {'dt': 0.7})]
    G.append(Group('timeseries-estimation', cases, f_tscov))
    return G
