"""P27 Densities of wave periods, wave lengths and of the min-max pair computed from a spectrum."""
import contextlib
import itertools
import math
import os

import numpy as np
from numpy.polynomial.legendre import leggauss
from scipy.special import ndtr

from vk import Group, tick
from ref import close, require

PROPERTY = 'P27'
ASSUMPTIONS = [
    'The spectra are those of a bounded menu, given on their own equidistant grid up to the Nyquist frequency of the '
    'time grid of the density (a coarser time grid cuts the spectrum).',
    'RIND is run with a fixed seed; its answer is compared within four times the error it reports plus 0.4 percent of '
    'the largest value of the density on the grid.',
]


@contextlib.contextmanager
def quiet():
    """the Fortran code writes its progress to file descriptor 1"""
    old = os.dup(1)
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 1)
    try:
        yield
    finally:
        os.dup2(old, 1)
        os.close(old)
        os.close(nul)


def phi(z):
    return np.exp(-z * z / 2) / math.sqrt(2 * math.pi)


# ---- spectra ---------------------------------------------------------------------------------------------------------
def values(name, w):
    """one-sided spectral density on the grid w (rad/s)"""
    if name == 'jonswap':
        wp = 2 * math.pi / 11
        with np.errstate(all='ignore'):
            s = np.where(w > 0, w ** -5.0 * np.exp(-1.25 * (wp / w) ** 4), 0.0)
        sg = np.where(w > wp, 0.09, 0.07)
        s = np.nan_to_num(s) * 2.4 ** np.exp(-(w / wp - 1) ** 2 / (2 * sg ** 2))
        return s / s.max() * 5.0
    if name == 'two':
        return 2.0 * np.exp(-((w - 0.45) / 0.12) ** 2) + 0.7 * np.exp(-((w - 1.0) / 0.15) ** 2)
    if name == 'wide':
        return 1.5 * w ** 2 * np.exp(-(w / 0.5) ** 2)
    raise ValueError(name)


def make(name, wc, n, unit, scale=1.0, stretch=1.0):
    """spectrum object and its rad-per-unit representation; stretch>1 slows the process"""
    from wafo.spectrum import SpecData1D
    w = np.linspace(0, wc, n)
    s = values(name, w) * scale
    w, s = w / stretch, s * stretch
    if unit == 'f':
        return SpecData1D(s * 2 * math.pi, w / 2 / math.pi, type='freq', freqtype='f'), w, s
    if unit == 'k':
        return SpecData1D(s.copy(), w.copy(), type='k1d', freqtype='k'), w, s
    return SpecData1D(s.copy(), w.copy(), type='freq', freqtype='w'), w, s


def moms(w, s):
    from scipy.integrate import trapezoid
    return [float(trapezoid(s * w ** k, w)) for k in range(5)]


# ---- the reference ---------------------------------------------------------------------------------------------------
def ref_t(w, s, u, k, dt):
    """density at k*dt of the time from an upcrossing of u to the next downcrossing when the process is watched on the
    grid dt: E[X'(0)+ X'(T)-; X(dt), .., X((k-1)dt) > u | X(0)=X(T)=u] f(u,u)/nu, by nested Gauss-Legendre rules"""
    W = np.full(len(w), w[1] - w[0])
    W[0] /= 2
    W[-1] /= 2
    f0 = [np.cos, lambda x: -np.sin(x), lambda x: -np.cos(x)]

    def R(t, j):
        return float((W * s * w ** j * f0[j](w * t)).sum())
    m0, m2 = R(0, 0), -R(0, 2)
    t = np.arange(k + 1) * dt
    n = k - 1
    names = [('x', v) for v in t[1:k]] + [('d', 0.0), ('d', t[-1])]
    cond = [('x', 0.0), ('x', t[-1])]

    def cov(a, b):
        d = b[1] - a[1]
        if a[0] == 'x':
            return R(d, 0) if b[0] == 'x' else R(d, 1)
        return -R(d, 1) if b[0] == 'x' else -R(d, 2)

    def C(A, B):
        return np.array([[cov(a, b) for b in B] for a in A])
    Scc, Snc = C(cond, cond), C(names, cond)
    mu = Snc @ np.linalg.solve(Scc, [u, u])
    S = C(names, names) - Snc @ np.linalg.solve(Scc, Snc.T)
    fu = math.exp(-0.5 * np.dot([u, u], np.linalg.solve(Scc, [u, u]))) / (2 * math.pi * math.sqrt(np.linalg.det(Scc)))
    nu = math.sqrt(m2 / m0) / (2 * math.pi) * math.exp(-u * u / 2 / m0)
    L = np.linalg.cholesky(S + 1e-14 * np.eye(len(S)) * np.trace(S))
    g, gw = leggauss(32)
    Z = np.zeros((1, 0))
    Wt = np.ones(1)
    for i in range(n + 1):
        lo = np.clip(((u if i < n else 0.0) - mu[i] - Z @ L[i, :i]) / L[i, i], -8, None)
        half = (np.maximum(lo, 8.0) - lo) / 2
        z = lo[:, None] + half[:, None] * (1 + g)
        w_ = Wt[:, None] * half[:, None] * gw * phi(z)
        Z = np.hstack([np.repeat(Z, len(g), 0), z.reshape(-1, 1)])
        Wt = w_.ravel()
        keep = Wt > 1e-12
        Z, Wt = Z[keep], Wt[keep]
        tick()
    a = mu[n] + Z @ L[n, :n + 1]
    mb = -(mu[n + 1] + Z @ L[n + 1, :n + 1])
    sb = L[n + 1, n + 1]
    eb = mb * ndtr(mb / sb) + sb * phi(mb / sb)
    return float((Wt * a * eb).sum() * fu / nu)


def kinds(unit):
    return ('Lc', 'Lt') if unit == 'k' else ('Tc', 'Tt')


def f_tref(case):
    name, wc, unit, r, kind, speed, K, trname = case
    sp, w, s = make(name, wc, 129, unit)
    sg = math.sqrt(moms(w, s)[0])
    ug = r * sg                                   # the level of the Gaussian process
    u = ug
    if trname:
        from wafo.transform.models import TrHermite, TrLinear
        sp.tr = (TrHermite(mean=0.3, sigma=sg, skew=0.2, kurt=3.1) if trname == 'hermite' else
                 TrLinear(mean=0.5, sigma=sg * 0.75))
        u = float(np.squeeze(sp.tr.gauss2dat(r)))
    dt = math.pi / wc
    before = (sp.args.copy(), sp.data.copy())
    kd = kinds(unit)[0 if kind == 'c' else 1]
    f = sp.to_t_pdf(u=u, kind=kd, paramt=(0, K * dt, K + 1), speed=speed, seed=17)
    tick()
    close(f.args, np.arange(K + 1) * dt, 'time grid', 1e-12, 1e-12)
    want = [0.0] + [ref_t(w, s, ug if kind == 'c' else -ug, k, dt) for k in range(1, K + 1)]
    tol = 4 * np.abs(f.err) + 0.004 * max(want)
    bad = np.abs(f.data - want) > tol
    require(not bad.any(), '%s density of %s at level %g: %s want %s (err %s)' % (kd, name, u, f.data, want, f.err))
    require(f.data[0] == 0 and f.err[0] == 0, 'a period of zero length has no density')
    close(f.u, u, 'the level is recorded')
    require(np.array_equal(before[0], sp.args) and np.array_equal(before[1], sp.data), 'the spectrum was modified')
    return name, kd, unit, speed, r


def f_tscale(case):
    """energy and time scales, and the first point of the grid"""
    name, r, kind, scale, stretch, start = case
    wc, K = 1.5, 6
    sp, w, s = make(name, wc, 129, 'w')
    sg = math.sqrt(moms(w, s)[0])
    dt = math.pi / wc
    kd = 'Tc' if kind == 'c' else 'Tt'
    a = sp.to_t_pdf(u=r * sg, kind=kd, paramt=(0, K * dt, K + 1), speed=5, seed=5)
    sp2, _, _ = make(name, wc, 129, 'w', scale, stretch)
    b = sp2.to_t_pdf(u=r * sg * math.sqrt(scale), kind=kd, paramt=(start * dt * stretch, K * dt * stretch, K + 1), speed=5, seed=5)
    tick(2)
    close(b.args, a.args * stretch, 'time grid', 1e-12, 1e-12)
    lo = max(start, 1)
    require(not b.data[:lo].any(), 'values before the first period asked for')
    tol = 4 * (a.err + b.err * stretch) + 0.004 * a.data.max()
    bad = np.abs(b.data * stretch - a.data)[lo:] > tol[lo:]
    require(not bad.any(), 'density of the scaled process %s want %s' % (b.data * stretch, a.data))
    # the error bound is one of the density: it scales with it, and the same seed does the same work
    e = (np.abs(b.err * stretch - a.err) > 0.5 * a.err + 1e-4 * a.data.max())[lo:]
    require(not e.any(), 'error bound of the scaled process %s want %s' % (b.err * stretch, a.err))
    return name, kd, scale, stretch, start


def f_tmean(case):
    """total probability and mean over the default grid: E[Tc] = P(X>u)/nu(u)"""
    name, r, kind, level = case
    sp, w, s = make(name, 2.0, 129, 'w')
    m = moms(w, s)
    sg = math.sqrt(m[0])
    kd = 'Tc' if kind == 'c' else 'Tt'
    u = None if level == 'default' else r * sg
    f = sp.to_t_pdf(u=u, kind=kd, speed=7, seed=3)
    tick()
    require(len(f.args) == 51 and f.args[0] == 0, 'default grid %s' % f.args[:3])
    require(np.isfinite(f.data).all() and (f.data >= -1e-12).all(), 'density %s' % f.data)
    h = f.args[1]
    total = float(f.data.sum() * h)
    require(0.9 <= total <= 1.03, '%s: total probability %g' % (kd, total))
    mean = float((f.data * f.args).sum() * h) / total
    nu = math.sqrt(m[2] / m[0]) / (2 * math.pi) * math.exp(-r * r / 2)
    want = ndtr(-r if kind == 'c' else r) / nu
    q = r if kind == 'c' else -r                  # the long periods are cut at about twice their mean
    require((0.96 if q > 0.25 else 0.94 if q > -0.25 else 0.8) <= mean / want <= 1.03, '%s at %g: mean %g want %g' % (kd, r, mean, want))
    require(1.95 * want <= f.args[-1] <= 2.05 * want + 2, 'default range %g for periods of mean %g' % (f.args[-1], want))
    return name, kd, r


def f_trefuse(case):
    unit, kind = case
    sp, w, s = make('two', 1.5, 65, unit)
    ok = kind.lower() in [k.lower() for k in kinds(unit)]
    try:
        sp.to_t_pdf(kind=kind, paramt=(0, 6, 4))
        refused = False
    except ValueError:
        refused = True
    tick()
    require(refused != ok, 'kind %s of a spectrum over %s: refused=%s' % (kind, unit, refused))
    return unit, kind, refused


# ---- joint density of maximum and following minimum ------------------------------------------------------------------
def rice(h, m0, m2, m4):
    """cell probabilities of the height of local maxima"""
    eps = math.sqrt(max(1 - m2 ** 2 / (m0 * m4), 1e-300))
    al = math.sqrt(1 - eps ** 2)
    x = h / math.sqrt(m0)
    return (eps * phi(x / eps) + al * x * np.exp(-x * x / 2) * ndtr(al * x / eps)) / math.sqrt(m0)


def mm(sp, *a, **k):
    with quiet():
        out = sp.to_mm_pdf(*a, **k)
    tick()
    return out


def f_mm(case):
    name, n, nt, nit = case
    wc = 2.0
    sp, w, s = make(name, wc, 257, 'w')
    m = moms(w, s)
    sg = math.sqrt(m[0])
    tn = 5 * math.pi * math.sqrt(m[2] / m[4])
    f = mm(sp, paramt=(0, tn, nt), paramu=(-4 * sg, 4 * sg, n), nit=nit)
    h = np.linspace(-4 * sg, 4 * sg, n)
    p = f.data
    dh = h[1] - h[0]
    close(f.args[0], h, 'grid of maxima')
    close(f.args[1], h, 'grid of minima')
    require(p.shape == (n, n) and np.isfinite(p).all() and (p >= -1e-9).all(), 'probabilities')
    # rows are minima (y), columns are maxima (x): a minimum is never above the maximum before it
    low = np.abs(p[np.tril_indices(n, -1)]).max()
    require(low <= 1e-9, 'minimum above the maximum: %g' % low)
    pm = p.max()
    asym = np.abs(p - p.T[::-1, ::-1]).max()
    require(asym <= (0.1, 0.04, 0.02)[nit - 1] * pm, 'density is not symmetric under a change of sign: %g of %g' % (asym, pm))
    tot = p.sum()
    require(TOT[0] <= tot <= TOT[1], 'total probability %g' % tot)
    marg = p.sum(0) / dh
    want = rice(h, m[0], m[2], m[4])
    hi = h > 0.75 * sg
    d = np.abs(marg - want)[hi].max() / want.max()
    require(d <= 0.12, 'maxima %s want %s' % (marg[hi], want[hi]))
    return name, n, nt, nit


TOT = (0.75, 1.1)


def f_mmshift(case):
    """a grid that is not symmetric about zero cuts out the corresponding part of the density"""
    name, lo, n, nit = case
    sp, w, s = make(name, 2.0, 129, 'w')
    m = moms(w, s)
    sg = math.sqrt(m[0])
    tn = 5 * math.pi * math.sqrt(m[2] / m[4])
    dh = 8.0 / (n - 1)
    full = np.arange(-round(5 / dh), round(5 / dh) + 1) * dh
    full = (full[0], full[-1], len(full))
    a = mm(sp, paramt=(0, tn, 21), paramu=(full[0] * sg, full[1] * sg, full[2]), nit=nit)
    i = int(round((lo - full[0]) / dh))
    k = min(n - 4, full[2] - i)
    b = mm(sp, paramt=(0, tn, 21), paramu=((full[0] + i * dh) * sg, (full[0] + (i + k - 1) * dh) * sg, k), nit=nit)
    close(b.args[0], a.args[0][i:i + k], 'levels', 1e-9, 1e-9)
    d = np.abs(a.data[i:i + k, i:i + k] - b.data).max() / a.data.max()
    require(d <= 0.01, 'the density depends on the grid by %g' % d)
    return case


def f_mmscale(case):
    name, scale, stretch, unit, nit = case
    sp, w, s = make(name, 2.0, 129, 'w')
    m = moms(w, s)
    sg = math.sqrt(m[0])
    tn = 5 * math.pi * math.sqrt(m[2] / m[4])
    a = mm(sp, paramt=(0, tn, 16), paramu=(-4 * sg, 4 * sg, 13), nit=nit)
    sp2, _, _ = make(name, 2.0, 129, unit, scale, stretch)
    q = math.sqrt(scale)
    b = mm(sp2, paramt=(0, tn * stretch, 16), paramu=(-4 * sg * q, 4 * sg * q, 13), nit=nit)
    d = np.abs(a.data - b.data).max() / a.data.max()
    require(d <= 0.01, 'probabilities change with the scale of the process by %g' % d)
    return case


def f_mmdefault(case):
    name, = case
    sp, w, s = make(name, 2.0, 129, 'w')
    sg = math.sqrt(moms(w, s)[0])
    f = mm(sp)
    m = moms(w, s)
    tn = 5 * math.pi * math.sqrt(m[2] / m[4])
    g = mm(sp, paramt=(0, tn, 43), paramu=(-5 * sg, 5 * sg, 41), nit=2)
    d = np.abs(f.data - g.data).max() / g.data.max()
    require(d <= 0.01, 'the default ranges are not those documented: %g' % d)
    require(f.data.shape == (41, 41), 'default grid')
    close(f.args[0], np.linspace(-5 * sg, 5 * sg, 41), 'default grid of levels', 1e-3, 1e-3)
    require(TOT[0] <= f.data.sum() <= TOT[1], 'total probability %g' % f.data.sum())
    return name


def f_mmtr(case):
    """a transformed process: maxima and minima are those of the Gaussian process, mapped"""
    name, trname = case
    from wafo.transform.models import TrHermite, TrLinear
    sp, w, s = make(name, 2.0, 129, 'w')
    m = moms(w, s)
    sg = math.sqrt(m[0])
    tn = 5 * math.pi * math.sqrt(m[2] / m[4])
    g = TrLinear(mean=1.0, sigma=2 * sg) if trname == 'linear' else TrHermite(mean=0.0, sigma=sg, skew=0.25, kurt=3.1)
    n = 17
    if trname == 'linear':
        a = mm(sp, paramt=(0, tn, 16), paramu=(-4 * sg, 4 * sg, n), nit=2)
        sp.tr = g
        b = mm(sp, paramt=(0, tn, 16), paramu=(1 - 8 * sg, 1 + 8 * sg, n), nit=2)
        d = np.abs(a.data - b.data).max() / a.data.max()
        require(d <= 0.01, 'linear transformation changes the probabilities by %g' % d)
    else:
        sp.tr = g
        b = mm(sp, paramt=(0, tn, 16), paramu=(-4 * sg, 5 * sg, 37), nit=2)
        h = b.args[0]
        dh = h[1] - h[0]
        x = np.asarray(g.dat2gauss(h), float)
        dx = np.asarray(g.dat2gauss(h + 1e-5), float) - np.asarray(g.dat2gauss(h - 1e-5), float)
        want = rice(x * sg, m[0], m[2], m[4]) * sg * dx / 2e-5
        marg = b.data.sum(0) / dh
        hi = x > 0.75
        d = np.abs(marg - want)[hi].max() / want.max()
        require(d <= 0.15, 'transformed maxima %s want %s' % (marg[hi], want[hi]))
    return case


def orthant(mu, C, gz, gw):
    """E[Y0^- Y1^+ 1{Y2<0, Y3<0, ...}] of a normal vector, by nested quadrature, the last factor in closed form"""
    k = len(mu)
    L = np.linalg.cholesky(C + 1e-13 * np.eye(k))
    Z, W = np.zeros((1, 0)), np.ones(1)
    for j in range(k):
        m = mu[j] + Z @ L[j, :j]
        s = L[j, j]
        x = m / s
        if j == k - 1:
            if k > 2:
                return float((W * ndtr(-x)).sum())
            return float((W * (m * ndtr(x) + s * phi(x))).sum())
        if j == 1:
            lo = np.clip(-x, -6, 6)
            hi = np.full_like(lo, 6.0)
        else:
            hi = np.clip(-x, -6, 6)
            lo = np.full_like(hi, -6.0)
        half = 0.5 * (hi - lo)[:, None]
        z = half * gz + 0.5 * (hi + lo)[:, None]
        y = np.abs(m[:, None] + s * z) if j < 2 else 1.0
        W = (W[:, None] * half * gw * phi(z) * y).ravel()
        Z = np.concatenate([np.repeat(Z, len(gz), 0), z.reshape(-1, 1)], 1)


def ref_mm(R, h, q):
    """density of a maximum (columns) and the minimum that follows (rows) by the multivariate Rice formula on the grid of times, from
    the covariance function and its derivatives R[lag, order] on that grid (in units of the step)"""
    def cov(a, ta, b, tb):
        k = a + b
        return (-1) ** a * R[abs(tb - ta), k] * ((-1) ** k if tb < ta else 1)
    gz, gw = np.polynomial.legendre.leggauss(q)
    rate = math.sqrt(-R[0, 4] / R[0, 2]) / (2 * math.pi)
    out = 0.0
    nt = len(R)
    for i in range(1, nt):
        pts = [(0, 0), (0, i), (1, 0), (1, i), (2, 0), (2, i)] + [(1, j) for j in range(1, i)]
        S = np.array([[cov(a, ta, b, tb) for b, tb in pts] for a, ta in pts])
        inv = np.linalg.inv(S[:4, :4])
        K = S[4:, :4] @ inv
        C = S[4:, 4:] - K @ S[:4, 4:]
        f = np.zeros((len(h), len(h)))
        for a in range(len(h)):
            for b in range(a + 1, len(h)):
                z = np.array([h[b], h[a], 0, 0])
                d = math.exp(-0.5 * z @ inv @ z) / math.sqrt((2 * math.pi) ** 4 * np.linalg.det(S[:4, :4]))
                f[a, b] = d * orthant(K @ z, C, gz, gw)
                tick()
        out = out + f / rate * (1.0 if i < nt - 1 else 0.5)
    return out


def f_mmexact(case):
    """few points of time: every order of integration, both accuracies and both kinds of conditioning, against the Rice formula"""
    name, tf, nt, lo, hi, n, trname = case
    sp, w, s = make(name, 2.0, 257, 'w')
    m = moms(w, s)
    sg = math.sqrt(m[0])
    tn = tf * math.pi * math.sqrt(m[2] / m[4])
    dt = tn / (nt - 1)
    R = np.asarray(sp.tocov_matrix(4, nt - 1, dt), float) * dt ** np.arange(5)
    h = np.linspace(lo * sg, hi * sg, n)
    x, dx = h, np.ones(n)
    if trname:
        from wafo.transform.models import TrHermite
        sp.tr = g = TrHermite(mean=0.0, sigma=sg, skew=0.25, kurt=3.1)
        x = sg * np.asarray(g.dat2gauss(h), float)
        dx = sg * (np.asarray(g.dat2gauss(h + 1e-4), float) - np.asarray(g.dat2gauss(h - 1e-4), float)) / 2e-4
    want = ref_mm(R, x, 24 if nt < 6 else 16) * dx[None, :] * dx[:, None] * (h[1] - h[0]) ** 2
    pm = want.max()
    for nit in range(6):
        for iac in (0, 1):
            for isq in (0, 1):
                f = mm(sp, paramt=(0, tn, nt), paramu=(h[0], h[-1], n), nit=nit, IAC=iac, ISQ=isq)
                tol = 0.12 if iac == 0 or nit == 0 else (0.14, 0.05, 0.006)[min(nit, 3) - 1]
                d = np.abs(f.data - want).max() / pm
                require(d <= tol + (0.015 if trname else 0), 'order %d, IAC=%d, ISQ=%d: %g of the largest probability: %s want %s'
                        % (nit, iac, isq, d, f.data.tolist(), want.tolist()))
    return case


# ---- normalised spectra ----------------------------------------------------------------------------------------------
def f_norm(case):
    name, unit, n, scale, stretch = case
    sp, w, s = make(name, 1.75, n, unit, scale, stretch)
    before = (sp.args.copy(), sp.data.copy())
    q = sp.to_specnorm()
    tick()
    require(np.array_equal(before[0], sp.args) and np.array_equal(before[1], sp.data), 'to_specnorm modified the spectrum')
    close(np.array(q.moment(2)[0]), np.ones(2), 'normalised moments', 1e-9, 1e-9)
    m = np.array(sp.moment(2)[0])
    A = math.sqrt(m[0] / m[1])
    close(q.args, before[0] * A, 'normalised frequencies', 1e-12, 1e-12)
    close(q.data, before[1] / (A * m[0]), 'normalised density', 1e-12, 1e-12)
    require(q.norm, 'flag of a normalised spectrum')
    sp.normalize()
    require(np.array_equal(sp.args, q.args) and np.array_equal(sp.data, q.data), 'normalize and to_specnorm differ')
    return name, unit


# ---- the test for a Gaussian process ---------------------------------------------------------------------------------
def f_gauss(case):
    ns, cases, method, test0 = case
    sp, w, s = make('two', 2.0, 65, 'w')
    np.random.seed(1)
    with quiet():
        out = sp.testgaussian(ns, cases=cases, method=method)
    tick(cases)
    require(len(out) == cases, '%d simulated distances want %d' % (len(out), cases))
    require(all(np.ndim(v) == 0 and np.isfinite(v) and v >= 0 for v in out), 'distances %s' % out[:3])
    if method != 'linear':
        require(len(set(float(v) for v in out)) == cases, 'the simulated distances are those of different records')
    return ns, cases, method


def groups(tier):
    deep = tier == 'thorough'
    G = []
    names = ('jonswap', 'two', 'wide')
    wcs = (1.3, 1.45, 1.6, 1.75, 2.0, 2.5) if deep else (1.3, 1.75, 2.5)
    K = 4
    rs = (-2.0, -1.5, -1.0, -0.5, -0.25, 0.0, 0.25, 0.75, 1.0, 1.5, 2.0) if deep else (-1.5, -0.5, 0.0, 0.75, 1.5)
    cases = [[nm, wc, un, r, kd, sp, K, ''] for nm in names for wc in wcs for un in ('w', 'f', 'k') for r in rs
             for kd in 'ct' for sp in ((3, 5, 7, 9) if un == 'w' else (5,))]
    G.append(Group('period-density', cases, f_tref, chunk=4, note='spectra x cut-off x unit x level x crest/trough: reference by nested quadrature'))
    cases = [[nm, 1.5, un, r, kd, 5, 3, tr] for nm in names for un in 'wf' for r in (-1.0, 0.0, 1.0) for kd in 'ct' for tr in ('hermite', 'linear')]
    G.append(Group('period-density-transformed', cases, f_tref, chunk=4))
    cases = [[nm, r, kd, sc, st, t0] for nm in names for r in (-1.0, 0.0, 1.0) for kd in 'ct' for sc in (1.0, 7.0) for st in (1.0, 3.0) for t0 in (0, 1, 2, 4)]
    G.append(Group('period-density-scales', cases, f_tscale, chunk=4))
    cases = [[nm, r, kd, 'given'] for nm in names for r in (-1.0, -0.5, 0.0, 0.5, 1.0) for kd in 'ct'] + [[nm, 0.0, kd, 'default'] for nm in names for kd in 'ct']
    G.append(Group('period-density-mean', cases, f_tmean, chunk=1))
    G.append(Group('period-density-kinds', [[un, k] for un in 'wfk' for k in ('Tc', 'Tt', 'tc', 'Lc', 'lt', 'X')], f_trefuse))
    ns = (21, 31, 41) if deep else (21, 31)
    cases = [[nm, n, nt, nit] for nm in names for n in ns for nt in ((21, 31, 41) if deep else (21, 31)) for nit in (1, 2, 3)]
    G.append(Group('max-min', cases, f_mm, chunk=1))
    cases = [[nm, lo, n, nit] for nm in names for lo in (-5.0, -3.0, -2.5, -1.0) for n in ((25, 33, 41) if deep else (33,)) for nit in (2, 3)]
    exact = [[nm, tf, nt, lo, hi, n, tr] for nm in names for tf in (1.2, 2.0) for nt in ((4, 5) if tier == 'quick' else (4, 5, 6))
             for lo, hi, n in ((-2, 2, 5), (-0.8, 2.5, 4)) for tr in (0, 1)]
    G.append(Group('max-min-exact', exact, f_mmexact, chunk=2, note='spectra x time spans x points of time x levels x transformation, x '
                   'order of integration x accuracy x conditioning: Rice formula by quadrature'))
    G.append(Group('max-min-shifted', cases, f_mmshift, chunk=1))
    G.append(Group('max-min-scales', [[nm, sc, st, un, nit] for nm in names for sc in (1.0, 9.0) for st in (1.0, 2.0) for un in 'wf' for nit in (1, 2)], f_mmscale, chunk=2))
    G.append(Group('max-min-default', [[nm] for nm in names], f_mmdefault, chunk=1))
    G.append(Group('max-min-transformed', [[nm, t] for nm in names for t in ('linear', 'hermite')], f_mmtr, chunk=1))
    G.append(Group('normalised', [[nm, un, n, sc, st] for nm in names for un in 'wfk' for n in (17, 64, 257) for sc in (0.01, 1.0, 30.0) for st in (0.5, 1.0, 4.0)], f_norm))
    cases = [[ns_, c, me, None] for ns_, c in ((256, 2), (256, 5), (512, 3)) for me in ('nonlinear', 'mnonlinear', 'hermite', 'ochi')] + [[40000, 6, 'hermite', None], [40000, 10, 'hermite', None]]
    G.append(Group('gaussian-test', cases, f_gauss, chunk=1))
    return G
