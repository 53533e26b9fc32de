"""P12 Spectrum <-> covariance duality, spectral moments and the quantities derived from them."""
import itertools
import math
import numpy as np
from vk import Group, Fail, tick
from ref import close, require, rnd, words
import wafo.spectrum as wsp
from wafo.spectrum import SpecData1D, SpecData2D
from wafo.covariance import CovData1D

PROPERTY = 'P12'
ASSUMPTIONS = ['finite, non-negative spectra on grids with at least two points']
TP = 2 * math.pi


def simpson(y, x):
    """composite Simpson rule (odd number of points, arbitrary spacing)"""
    s = 0.0
    for i in range(0, len(x) - 2, 2):
        h0, h1 = x[i + 1] - x[i], x[i + 2] - x[i + 1]
        H = h0 + h1
        s = s + H / 6.0 * (y[i] * (2 - h1 / h0) + y[i + 1] * H * H / (h0 * h1) + y[i + 2] * (2 - h0 / h1))
    return s


def cov_ref(S, w, t, nr):
    """trapezoidal int S(w) d^nr/dt^nr cos(w t) dw"""
    dw = w[1] - w[0]
    c = np.full(len(w), dw)
    c[0] = c[-1] = dw / 2
    return np.array([sum(c[k] * S[k] * w[k] ** nr * math.cos(w[k] * tt + nr * math.pi / 2) for k in range(len(w)))
                     for tt in t])


def grid(n, wN, ft):
    w = np.linspace(0, wN, n)
    return w


def angular(args, data, ft):
    if ft == 'f':
        return args * TP, data / TP
    return args, data


def npow2(n):
    k = 1
    while k < n:
        k *= 2
    return k


def mkspec(S, args, ft):
    return SpecData1D(S, args, type='k1d' if ft == 'k' else 'freq', freqtype=ft)


def f_cov(case):
    S, wN, ft, rate, nt, nr = case
    n = len(S)
    args = np.linspace(0, wN, n)
    data = np.array(S, dtype=float)
    keep = args.copy(), data.copy()
    sp = mkspec(data, args, ft)
    tick()
    R = sp.tocovdata(nr=nr, nt=nt, rate=rate)
    require(np.array_equal(args, keep[0]) and np.array_equal(data, keep[1]), 'inputs modified')
    require(np.array_equal(sp.args, keep[0]) and np.array_equal(sp.data, keep[1]), 'the spectrum object was modified')
    r = 1 if rate is None else min(npow2(rate), 16)
    N = r * (n - 1) if nt is None else min(nt, r * (n - 1))
    w, Sw = angular(args, data, ft)
    nfft = r * npow2(2 * n - 2)
    t = np.arange(N + 1) * (math.pi / w[-1]) * (2 * n - 2) / nfft
    close(R.args, t, 'lags', 1e-12, 1e-12)
    close(R.data, cov_ref(Sw, w, t, 0), 'R(t) = int S cos(wt) dw', 1e-10, 1e-10)
    lag = 'x' if ft == 'k' else 't'
    require(R.lagtype == lag, 'lag type %r' % R.lagtype)
    for i in range(1, nr + 1):
        sc = max(1.0, w[-1]) ** i
        close(getattr(R, 'R' + lag * i), cov_ref(Sw, w, t, i), 'derivative %d of R' % i, 1e-10, 1e-10 * sc)
    return rnd(R.data)


def f_cov_err(case):
    args, = case
    sp = SpecData1D(np.ones(len(args)), np.array(args, float))
    tick()
    try:
        sp.tocovdata()
    except ValueError:
        return 'rejected'
    raise Fail('tocovdata accepted an unsuitable grid %s' % (args,))


def f_round(case):
    S, wN, ft = case
    n = len(S)
    args = np.linspace(0, wN, n)
    data = np.array(S, dtype=float)
    R = mkspec(data, args, ft).tocovdata()
    tick(2)
    S2 = R.tospecdata(trunc=0.0)
    w, Sw = angular(args, data, ft)
    close(S2.args, w, 'frequencies restored', 1e-10, 1e-10)
    close(S2.data, Sw, 'spectrum restored', 1e-9, 1e-9)
    require(S2.type == ('k1d' if ft == 'k' else 'freq') and S2.freqtype == ('k' if ft == 'k' else 'w'), 'type')
    R2 = S2.tocovdata()
    close(R2.data, R.data, 'covariance restored', 1e-9, 1e-9)
    close(R2.args, R.args, 'lags restored')
    return rnd(S2.data)


def f_tospec(case):
    acf, dt, fast, rate, trunc, nugget, method = case
    n = len(acf)
    data = np.array(acf, dtype=float)
    t = np.arange(n) * dt
    R = CovData1D(data, t)
    tick()
    S = R.tospecdata(rate=rate, method=method, nugget=nugget, trunc=trunc, fast=fast)
    require(np.array_equal(R.data, np.array(acf, float)) and np.array_equal(data, np.array(acf, float)),
            'covariance modified')
    r = 1 if rate is None else npow2(rate)
    a = data.copy()
    a[0] += nugget
    base = npow2(2 * n - 2) if fast else 2 * n - 2
    nf = (base * (r if method == 'fft' else 1)) // 2
    w = np.arange(nf + 1) * (math.pi / dt) / nf
    per = np.array([a[0] + 2 * sum(a[k] * math.cos(wj * k * dt) for k in range(1, n - 1)) +
                    a[n - 1] * (math.cos(wj * (n - 1) * dt) if n > 1 else 0) for wj in w])
    per = np.clip(per, 0, None)
    mx = per.max()
    amb = np.abs(per - trunc * mx) < 1e-9
    ref = np.where(per < trunc * mx, 0, per) * dt / math.pi
    if method != 'fft' and r > 1:
        w2 = np.linspace(0, math.pi / dt, nf * r)
        close(S.args, w2, 'interpolated frequencies')
        if method == 'linear' and not amb.any():
            close(S.data, np.interp(w2, w, ref), 'interpolated spectrum', 1e-9, 1e-9)
        require(np.all(S.data >= 0), 'negative spectrum')
    else:
        close(S.args, w, 'frequencies')
        close(np.where(amb, 0, S.data), np.where(amb, 0, ref), 'S(w)', 1e-9, 1e-9)
    return rnd(S.data)


def f_covmat(case):
    kind, n, wN, ft, dt, nt, nr = case
    args = np.linspace(0, wN, n)
    data = SHAPES[kind](args / wN)
    sp = SpecData1D(data.copy(), args.copy(), freqtype=ft)
    tick(2)
    m = sp.tocov_matrix(nr=nr, nt=nt, dt=dt)
    require(np.array_equal(sp.args, args) and np.array_equal(sp.data, data), 'spectrum modified')
    rs = sp.copy()
    rs.resample(dt)
    d0 = (0.5 if ft == 'f' else math.pi) / wN
    d = d0 if dt is None else dt
    rate = 1 if dt is None else int(max(round(d0 / dt), 1))
    N = rate * (n - 1) if nt is None else min(nt, rate * (n - 1))
    require(m.shape == (N + 1, nr + 1), 'shape %s want %s' % (m.shape, (N + 1, nr + 1)))
    w, Sw = angular(rs.args, rs.data, ft)
    for i in range(nr + 1):
        ref = cov_ref(Sw, w, np.arange(N + 1) * d, i)
        close(m[:, i], ref, 'column %d' % i, 1e-8, 1e-8 * max(1, np.abs(ref).max()))
    return rnd(m[:, 0])


SHAPES = {
    'hump': lambda u: u ** 2 * (1 - u) ** 2 * 16,
    'two': lambda u: np.exp(-((u - 0.3) / 0.08) ** 2) + 0.5 * np.exp(-((u - 0.6) / 0.06) ** 2),
    'tri': lambda u: np.clip(1 - np.abs(u - 0.4) / 0.3, 0, None),
    'tail': lambda u: np.where(u > 0, u ** 3 * np.exp(-5 * u), 0) * 30,
}


def f_moment(case):
    S, args, ft = case
    a, s = np.array(args, float), np.array(S, float)
    w, Sw = angular(a, s, ft)
    v = 'x' if ft == 'k' else 't'
    out = []
    sp = mkspec(s, a, ft)
    for nr in range(0, 5):
        for even in (True, False):
            for j in (0, 1):
                tick()
                m, txt = sp.moment(nr=nr, even=even, j=j)
                st = 2 if even else 1
                ords = list(range(0, nr + 1, st))
                require(list(txt) == ['m%d' % j + v * k if k else 'm%d' % j for k in ords], 'names %s' % txt)
                want = [simpson(Sw ** (j + 1) * w ** k, w) for k in ords]
                close(np.array(m, float), np.array(want), 'moments nr=%d even=%s j=%d' % (nr, even, j), 1e-10, 1e-10)
                out.append(rnd(m))
    require(np.array_equal(a, np.array(args, float)) and np.array_equal(s, np.array(S, float)), 'inputs modified')
    return out


def f_freqtype(case):
    start, hist, dtype = case
    a, s = np.array([0, 1, 2, 4], dtype=dtype), np.array([0, 3, 2, 1], dtype=dtype)
    ka, ks = a.copy(), s.copy()
    sp = SpecData1D(s, a, freqtype=start)
    m0 = sp.moment(4, False)[0]
    cur = start
    for step, h in enumerate(hist):
        tick()
        sp.freqtype = h
        cur = h
        require(sp.freqtype == cur, 'freqtype')
        f = 1.0 if cur == start else (TP if cur == 'w' else 1 / TP)
        close(np.asarray(sp.args, float), ka * f, 'args after %s' % (hist[:step + 1],), 1e-12, 1e-12)
        close(np.asarray(sp.data, float), ks / f, 'data after %s' % (hist[:step + 1],), 1e-12, 1e-12)
        close(np.array(sp.moment(4, False)[0]), np.array(m0), 'moments do not depend on the unit', 1e-9, 1e-9)
    require(np.array_equal(a, ka) and np.array_equal(s, ks), "the caller's arrays were rescaled")
    return rnd(sp.data)


def f_norm(case):
    kind, n, wN, scale, ft, g = case
    args = np.linspace(0, wN, n)
    data = SHAPES[kind](args / wN) * scale
    a0, d0 = args.copy(), data.copy()
    sp = SpecData1D(data, args, freqtype=ft)
    before = sp.moment(4, True)[0]
    tick()
    sp.normalize(g)
    m = sp.moment(4, True)[0]
    close(np.array(m[:2]), np.ones(2), 'm0 and m2 of the normalised spectrum', 1e-9, 1e-9)
    close(m[2], before[2] * before[0] / before[1] ** 2, 'm4 of the normalised spectrum', 1e-9, 1e-9)
    require(sp.norm in (True, 1), 'norm flag')
    close(sp.A, math.sqrt(before[0] / before[1]), 'A')
    require(np.array_equal(args, a0) and np.array_equal(data, d0), 'inputs modified')
    p = sp.data / sp.data.max()
    close(p, d0 / d0.max(), 'shape is kept')
    if ft == 'w':
        close(sp.g, g * math.sqrt(before[0] * before[2] / g ** 2) / before[1], 'normalised gravity')
    return rnd(sp.args)


BW = ['alpha', 'eps2', 'eps4', 'Qp']


def f_bw(case):
    kind, n, wN, ft, sel = case
    args = np.linspace(0, wN, n)
    data = SHAPES[kind](args / wN)
    w, S = angular(args, data, ft)
    m = [simpson(S * w ** k, w) for k in range(5)]
    ref = [m[2] / math.sqrt(m[0] * m[4]), math.sqrt(m[0] * m[2] / m[1] ** 2 - 1),
           math.sqrt(1 - m[2] ** 2 / (m[0] * m[4])), 2 / m[0] ** 2 * simpson(w * S ** 2, w)]
    sp = SpecData1D(data, args, freqtype=ft)
    tick()
    got = sp.bandwidth(sel)
    idx = [sel] if not isinstance(sel, (list, tuple)) else sel
    idx = [BW.index('Qp' if i == 'qp' else i) if isinstance(i, str) else i for i in idx]
    close(np.ravel(got), np.array([ref[i] for i in idx]), 'bandwidth(%r)' % (sel,), 1e-9, 1e-9)
    return rnd(got)


CH = ['Hm0', 'Tm01', 'Tm02', 'Tm24', 'Tm_10', 'Tp', 'Ss', 'Sp', 'Ka', 'Rs', 'Tp1', 'Alpha', 'Eps2', 'Eps4', 'Qp']


def f_char(case):
    kind, n, wN, ft, sel, g, T, hm0cov = case
    args = np.linspace(0, wN, n)
    data = SHAPES[kind](args / wN)
    w, S = angular(args, data, ft)
    m = [simpson(S * w ** k, w) for k in range(5)]
    p = w > 0
    wp, Sp_ = w[p], S[p]
    sp = SpecData1D(data, args, freqtype=ft)
    tick()
    ch, R, txt = sp.characteristic(sel, T, g)
    ref = {}
    ref['Hm0'] = 4 * math.sqrt(m[0])
    ref['Tm01'] = TP * m[0] / m[1]
    ref['Tm02'] = TP * math.sqrt(m[0] / m[2])
    ref['Tm24'] = TP * math.sqrt(m[2] / m[4])
    ip = int(np.argmax(S))
    ref['Tp'] = TP / w[ip]
    ref['Ss'] = TP * ref['Hm0'] / g / ref['Tm02'] ** 2
    ref['Sp'] = TP * ref['Hm0'] / g / ref['Tp'] ** 2
    z = simpson(S * np.exp(1j * w * ref['Tm02']), w)
    ref['Ka'] = abs(z) / m[0]
    ref['Rs'] = float(np.interp(np.array([0.0146, 0.0195, 0.0244]) * TP, w, S).sum() / 3 / S.max())
    ref['Tp1'] = TP * simpson(S ** 4, w) / simpson(w * S ** 4, w)
    ref['Alpha'] = m[2] / math.sqrt(m[0] * m[4])
    ref['Eps2'] = math.sqrt(m[0] * m[2] / m[1] ** 2 - 1)
    ref['Eps4'] = math.sqrt(1 - ref['Alpha'] ** 2)
    ref['Qp'] = 2 / m[0] ** 2 * simpson(w * S ** 2, w)
    # Tm_10 integrates S/w over the positive frequencies only (an even number of them): compare loosely
    dw = w[1] - w[0]
    ref['Tm_10'] = TP * float((Sp_ / wp).sum() * dw) / m[0]
    # variances that follow from cov(mi, mj) = int f^(i+j) S(f)^2 df / T
    S2 = [simpson(w ** k * S ** 2, w) * TP ** (1 - k) / T for k in range(9)]
    f = [m[k] / TP ** k for k in range(5)]
    var = {'Hm0': 4 * S2[0] / f[0],
           'Tm01': S2[0] / f[1] ** 2 - 2 * f[0] * S2[1] / f[1] ** 3 + f[0] ** 2 * S2[2] / f[1] ** 4,
           'Tm02': 0.25 * (S2[0] / (f[0] * f[2]) - 2 * S2[2] / f[2] ** 2 + f[0] * S2[4] / f[2] ** 3),
           'Tm24': 0.25 * (S2[4] / (f[2] * f[4]) - 2 * S2[6] / f[4] ** 2 + f[2] * S2[8] / f[4] ** 3)}
    # delta method: var g(m) = grad(g)' C grad(g) with C[i, j] = cov(mi, mj)
    C = np.array([[S2[i + j] for j in range(5)] for i in range(5)])

    def delta(value, *powers):
        gr = np.array([value * a / f[k] for k, a in enumerate(powers)])
        return float(gr.dot(C).dot(gr))
    var['Ss'] = delta(ref['Ss'], -0.5, 0, 1, 0, 0)
    var['Alpha'] = delta(ref['Alpha'], -0.5, 0, 1, 0, -0.5)
    q = f[0] * f[2] / f[1] ** 2
    var['Eps2'] = delta(q, 1, -2, 1, 0, 0) / (4 * ref['Eps2'] ** 2)
    var['Eps4'] = delta(ref['Alpha'] ** 2, -1, 0, 2, 0, -1) / (4 * ref['Eps4'] ** 2)
    m_1 = TP * float((Sp_ / wp).sum() * dw)
    c10 = float((Sp_ ** 2 / wp).sum() * dw) * TP ** 2 / T
    c11 = float((Sp_ ** 2 / wp ** 2).sum() * dw) * TP ** 3 / T
    var['Tm_10'] = c11 / f[0] ** 2 - 2 * m_1 / f[0] ** 3 * c10 + (m_1 / f[0] ** 2) ** 2 * S2[0]
    idx = [sel] if not isinstance(sel, (list, tuple)) else sel
    names = [CH[i] if not isinstance(i, str) else CH[[c.lower() for c in CH].index(i.lower())] for i in idx]
    require(list(txt) == names, 'names %s want %s' % (txt, names))
    R = np.asarray(R)
    require(R.shape == (len(names), len(names)), 'shape of the covariance matrix')
    for c, r, nm in zip(np.ravel(ch), np.diag(R), names):
        close(c, ref[nm], nm, 0.02 if nm == 'Tm_10' else 1e-8, 1e-9)
        if nm in var:
            close(r, var[nm], 'variance of ' + nm, 0.05 if nm == 'Tm_10' else 1e-8, 1e-12)
    cov = {('Tm01', 'Tm02'): 0.5 / f[1] * math.sqrt(f[0] / f[2]) * (
        S2[0] / f[0] - S2[2] / f[2] - S2[1] / f[1] + f[0] * S2[3] / (f[1] * f[2]))}
    if hm0cov:
        cov['Hm0', 'Tm01'] = 2 / (math.sqrt(f[0]) * f[1]) * (S2[0] - f[0] * S2[1] / f[1])
        cov['Hm0', 'Tm02'] = 1 / math.sqrt(f[2]) * (S2[0] / f[0] - S2[2] / f[2])
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            if a == b and i != j:
                close(R[i, j], R[i, i], 'variance of ' + a)
            key = (a, b) if (a, b) in cov else (b, a)
            if key in cov:
                close(R[i, j], cov[key], 'covariance of %s and %s' % key, 1e-8, 1e-12)
    return rnd(ch)


def f_charinv(case):
    kind, n, wN = case
    args = np.linspace(0, wN, n)
    data = SHAPES[kind](args / wN)
    tick(2)
    a, Ra, _ = SpecData1D(data, args, freqtype='w').characteristic(list(range(15)))
    b, Rb, _ = SpecData1D(data * TP, args / TP, freqtype='f').characteristic(list(range(15)))
    close(b, a, 'the same spectrum per Hz', 1e-8, 1e-10)
    close(Rb, Ra, 'variances of the same spectrum per Hz', 1e-8, 1e-10)
    return rnd(a)


def f_scale(case):
    """periods scale with time, heights with amplitude"""
    kind, n, a, b = case
    u = np.linspace(0, 1, n)
    d = SHAPES[kind](u)
    tick(2)
    x, _, names = SpecData1D(d, u * 2.0).characteristic(list(range(15)), g=1.0)
    y, _, _ = SpecData1D(d * a * a / b, u * 2.0 * b).characteristic(list(range(15)), g=1.0)
    for nm, p, q in zip(names, x, y):
        f = {'Hm0': a, 'Tm01': 1 / b, 'Tm02': 1 / b, 'Tm24': 1 / b, 'Tm_10': 1 / b, 'Tp': 1 / b, 'Tp1': 1 / b,
             'Ss': a * b * b, 'Sp': a * b * b}.get(nm, 1.0)
        if nm != 'Rs':
            close(q, p * f, '%s after scaling amplitude by %g and frequency by %g' % (nm, a, b), 1e-8, 1e-10)
    return rnd(y)


def deep_kernels(w, g=9.81):
    """Sum and difference kernels in deep water (Langley 1987 / Hasselmann for collinear waves)"""
    w1, w2 = np.meshgrid(w, w)
    hs = 0.5 * (w1 ** 2 + w2 ** 2) / g / 2
    hd = -0.5 * np.abs(w1 ** 2 - w2 ** 2) / g / 2
    return hs, hd


def f_statsnl(case):
    kind, n, wN, ft, mom, g = case
    args = np.linspace(0, wN, n)
    args = args + args[1] * 0.5          # strictly positive
    data = SHAPES[kind](args / args[-1])
    w, S = angular(args, data, ft)
    sp = SpecData1D(data, args, freqtype=ft)
    tick()
    out = sp.stats_nl(h=np.inf, moments=mom, g=g)
    m0 = simpson(S, w)
    c = np.zeros(n)
    d = np.diff(w)
    c[:-1] += d / 2
    c[1:] += d / 2
    from wafo.spectrum.core import qtf
    Hs, Hd, Hdii = qtf(w, np.inf, g)
    skew = 6 / m0 ** 1.5 * float(((Hs + Hd) * np.outer(S * c, S * c)).sum())
    ref = {'m': 2 * float((Hdii * S * c).sum()), 'v': m0, 's': skew, 'k': (4 * skew / 3) ** 2 + 3}
    want = [ref[k] for k in 'mvsk' if k in mom]
    close(np.array(out, float), np.array(want), 'stats_nl %s' % mom, 1e-9, 1e-9)
    return rnd(out)


def f_resample(case):
    kind, n, w0, wN, ft, dtf, nmin, method = case
    args = np.linspace(w0, wN, n)
    data = SHAPES[kind](args / wN)
    keep = args.copy(), data.copy()
    sp = SpecData1D(data, args, freqtype=ft)
    c = 0.5 if ft == 'f' else math.pi
    dt = None if dtf is None else c / wN * dtf
    tick()
    sp.resample(dt, Nmin=nmin, method=method)
    require(np.array_equal(args, keep[0]) and np.array_equal(data, keep[1]), 'inputs modified')
    N = len(sp.args)
    end = wN if dt is None else c / dt
    close(sp.args, np.linspace(0, end, N), 'resampled grid', 1e-10, 1e-10)
    require(N - 1 == npow2(N - 1) and N >= nmin, 'grid size %d' % N)
    require(np.all(sp.data >= 0), 'negative spectrum')
    require(len(sp.data) == N, 'length')
    # every resampled node that is an original node keeps its value; the others stay within its neighbours (linear)
    for a, s in zip(sp.args, sp.data):
        i = np.flatnonzero(np.abs(keep[0] - a) < 1e-9 * wN)
        if i.size:
            close(s, keep[1][i[0]], 'value at the original frequency %g' % a, 1e-8, 1e-8 * keep[1].max())
        elif method == 'linear' and keep[0][0] < a < keep[0][-1]:
            close(s, np.interp(a, *keep), 'linear interpolation at %g' % a, 1e-8, 1e-8)
        elif a > keep[0][-1] + 1.01 * (keep[0][1] - keep[0][0]):
            close(s, 0.0, 'beyond the original range', 0, 1e-12 * keep[1].max())
    return (N, rnd(sp.data))


def m2d_ref(S, th, w, name, phi, g):
    a, b, c = name.count('x'), name.count('y'), name.count('t')
    k = w ** 2 / g
    inner = np.array([simpson(S[:, j] * np.cos(th - phi) ** a * np.sin(th - phi) ** b, th) for j in range(len(w))])
    return simpson(inner * k ** (a + b) * w ** c, w)


def names2d(nr, v):
    v = [c for c in 'xyt' if c in v]
    out = []
    for d in [0, 1, 2, 4]:
        if d <= nr and not (d == 4 and nr < 4):
            for comb in itertools.combinations_with_replacement(v, d):
                out.append('m0' if d == 0 else 'm' + ''.join(comb))
    return sorted(out)


def f_mom2d(case):
    flat, th, w, phi, vari, nr, skip = case
    th, w = np.array(th), np.array(w)
    S = np.array(flat, float).reshape(len(th), len(w))
    sp = SpecData2D(S.copy(), (w.copy(), th.copy()), type='dir', freqtype='w', phi=phi)
    tick()
    m, txt = sp.moment(nr=nr, vari=vari)
    require(len(m) == len(txt) and len(set(txt)) == len(txt), 'names')
    require(sorted(txt) == names2d(nr, vari), 'moments reported %s want %s' % (sorted(txt), names2d(nr, vari)))
    import wafo.spectrum.core as sc
    g = float(np.atleast_1d(sc._gravity())[0])
    for v, t in zip(m, txt):
        if t in skip:
            continue
        close(v, m2d_ref(S, th, w, t, phi, g), t, 1e-9, 1e-10)
    return rnd(m)


def f_rot(case):
    """all histories of rotations: the spectrum is a density over directions theta - phi, and every rotation lowers these by its angle"""
    flat, th0, n, hist, method = case
    import wafo.spectrum.core as sc
    g = float(np.atleast_1d(sc._gravity())[0])
    th = np.linspace(-math.pi, math.pi, n) + th0 if n > 0 else np.array([-2.5, -1.0, 0.1, 0.9, 2.0]) + th0
    w = np.array([0.0, 0.7, 1.6])
    S = np.array([(flat * (i + 1) * (i + 1) + j * (i + 2)) % 11 for i in range(len(th)) for j in range(3)], float).reshape(len(th), 3)
    if n > 0:
        S[-1] = S[0]
    sp = SpecData2D(S.copy(), (w.copy(), th.copy()) if flat % 2 else [w.copy(), th.copy()], type='dir', freqtype='w')
    ref = S.copy()
    phi = 0.0
    start = th.copy()
    for ang, grid in hist:
        tick()
        sp.rotate(ang, rotateGrid=bool(grid), **({} if method is None else {'method': method}))
        phi = phi + ang
        got_w, got_th = sp.args
        require(np.array_equal(got_w, w), 'frequencies were changed: %s' % (got_w,))
        require(abs(sp.phi) <= math.pi + 1e-9 and np.all(np.abs(got_th) <= math.pi + 1e-9 + (0 if n > 0 or grid else 9)), 'angles %s, %s' % (got_th, sp.phi))
        if grid:
            require(sp.phi == 0, 'phi after a physical rotation is %s' % sp.phi)
        true = got_th - sp.phi
        require(np.all(np.diff(got_th) > 0), 'directions in increasing order')
        if n > 0:
            # value at the direction d: that of the previous spectrum at d + ang, interpolated where the grid was turned
            if grid:
                x = (got_th + phi - start[0]) % (2 * math.pi) + start[0]
                if method == 'nearest':
                    d = start[1] - start[0]
                    k = np.rint((x - start[0]) / d).astype(int) % (n - 1)
                    safe = np.abs((x - start[0]) / d % 1 - 0.5) > 1e-6
                    close(sp.data[safe], ref[k][safe], 'turned spectrum', 1e-9, 1e-9)
                else:
                    want = np.array([np.interp(x, start, ref[:, j]) for j in range(3)]).T
                    close(sp.data, want, 'turned spectrum', 1e-9, 1e-9)
                ref, start, phi = sp.data.copy(), got_th.copy(), 0.0
            else:
                close(sp.data, ref, 'spectrum', 0, 0)
                close(np.exp(1j * true), np.exp(1j * (start - phi)), 'directions', 1e-9, 1e-9)
        else:
            # no full circle: the values keep their directions, turned by the angle
            a = sorted((round((d + 1e-7) % (2 * math.pi), 5), tuple(v)) for d, v in zip(th - phi, S))
            b = sorted((round((d + 1e-7) % (2 * math.pi), 5), tuple(v)) for d, v in zip(true, sp.data))
            require(all(abs(p - q) < 3e-5 and u == v for (p, u), (q, v) in zip(a, b)), 'values at directions %s, want %s' % (b, a))
        m, txt = sp.moment(nr=1, vari='xyt')
        for v, t in zip(m, txt):
            close(v, m2d_ref(sp.data, got_th, w, t, sp.phi, g), t, 1e-9, 1e-9)
    return rnd(sp.data, 4)


def f_rotk(case):
    """wave number spectra: value at k is that of the old spectrum at k turned by phi, zero outside the grid"""
    n1, n2, ang, grid = case
    k1, k2 = np.linspace(-1.0, 1.0, n1), np.linspace(-1.0, 1.0, n2)
    S = np.array([(3 * i * i + 5 * j + i * j) % 7 for i in range(n2) for j in range(n1)], float).reshape(n2, n1)
    sp = SpecData2D(S.copy(), [k1.copy(), k2.copy()], type='k2d')
    tick()
    sp.rotate(ang, rotateGrid=bool(grid))
    if not grid:
        close(sp.data, S, 'spectrum', 0, 0)
        close(np.exp(1j * sp.phi), np.exp(1j * ang), 'phi', 1e-12, 1e-12)
        return 'turned'
    require(sp.phi == 0, 'phi')
    want = np.zeros_like(S)
    free = np.zeros(S.shape, bool)
    for i, y in enumerate(k2):
        for j, x in enumerate(k1):
            u, v = x * math.cos(ang) - y * math.sin(ang), x * math.sin(ang) + y * math.cos(ang)
            m = max(abs(u), abs(v))
            if m > 1 + 1e-9:
                continue
            if m > 1 - 1e-9:
                free[i, j] = True           # on the border: inside or outside after rounding
            p, q = (u + 1) / (k1[1] - k1[0]), (v + 1) / (k2[1] - k2[0])
            a, b = min(max(int(p), 0), n1 - 2), min(max(int(q), 0), n2 - 2)
            p, q = p - a, q - b
            want[i, j] = (1 - q) * ((1 - p) * S[b, a] + p * S[b, a + 1]) + q * ((1 - p) * S[b + 1, a] + p * S[b + 1, a + 1])
    ok = np.abs(sp.data - want) < 1e-9
    require(np.all(ok | (free & (sp.data == 0))), 'turned by %s: %s, want %s' % (ang, sp.data, want))
    return rnd(sp.data, 4)


LAB2 = {('dir', 'w', 'radians'): ('Directional Spectrum', 'Frequency [rad/s]', 'Wave directions [rad]'),
        ('dir', 'f', 'radians'): ('Directional Spectrum', 'Frequency [Hz]', 'Wave directions [rad]'),
        ('dir', 'w', 'degrees'): ('Directional Spectrum', 'Frequency [rad/s]', 'Wave directions [deg]'),
        ('dir', 'f', 'degrees'): ('Directional Spectrum', 'Frequency [Hz]', 'Wave directions [deg]'),
        ('encdir', 'w', ''): ('Directional Spectrum', 'Frequency [rad/s]', 'Wave directions [rad]'),
        ('freq', 'w', ''): ('Spectral density', 'Frequency [rad/s]', 'S(w) [m**2 s/ rad]'),
        ('freq', 'f', ''): ('Spectral density', 'Frequency [Hz]', 'S(f) [m**2 s]'),
        ('encfreq', 'f', ''): ('Spectral density', 'Frequency [Hz]', 'S(f) [m**2 s]'),
        ('k1d', 'k', ''): ('Wave Number Spectrum', 'Wave number [rad/m]', 'S(k) [m**3/ rad]'),
        ('k2d', 'k', ''): ('Wave Number Spectrum', 'Wave number [rad/m]', 'Wave number [rad/m]')}


def f_labels(case):
    cls, (ty, ft, an), norm, args = case
    tick()
    d2 = cls == 2
    kw = dict(type=ty, freqtype=ft, norm=norm)
    if an:
        kw['angletype'] = an
    sp = (SpecData2D(np.ones((3, 3)), [np.arange(3.0), np.arange(3.0)], **kw) if d2 else SpecData1D(np.ones(3), np.arange(3.0), **kw))
    if args:
        sp.labels.title = sp.labels.xlab = sp.labels.ylab = 'other'
        sp.setlabels()
    title, x, y = LAB2[ty, ft, an]
    if norm:
        title, x = 'Normalized ' + title, 'Normalized ' + x.split('[')[0]
        if not ty.endswith('dir'):
            y = y.split('[')[0]
    got = sp.labels.title, sp.labels.xlab, sp.labels.ylab.replace('$\\omega$', 'w') if d2 else sp.labels.ylab.replace('$\\omega$', 'w')[:4]
    require(got == (title, x, y if d2 else y[:4]), 'labels %s, want %s' % (got, (title, x, y)))
    return [title, x, y]


def groups(tier):
    deep = tier == 'thorough'
    G = []
    cases = []
    for S in words([0, 1, 3], 2, 6 if deep else 5):
        if not any(S):
            continue
        for ft in 'wfk':
            cases.append([S, 2.5, ft, None, None, 4])
        for rate in (1, 2, 3, 4, 20):
            cases.append([S, 1.0, 'w', rate, None, 1])
        for nt in (0, 1, 3, 1000):
            cases.append([S, 4.0, 'f', 2, nt, 2])
    for n in list(range(2, 34 if deep else 20)) + [64, 65, 66]:
        for ft in 'wfk':
            for rate in (None, 1, 2, 8):
                cases.append([[(k * k + 3 * k) % 7 for k in range(n)], 3.0, ft, rate, None, 4])
    G.append(Group('spectrum-to-covariance', cases, f_cov))
    steps = [(a, g) for a in (0.3, math.pi / 4, -2.0, 4.0) for g in (0, 1)]
    rot = [[fl, t0, n, list(h), me] for fl in (1, 2) for t0 in (0.0, 0.4) for n in (9, 0) for L in (1, 2, 3) for h in itertools.product(steps, repeat=L)
           for me in ((None, 'linear', 'nearest') if n else (None,)) if deep or L < 3 or (fl, t0, me) == (1, 0.4, None)]
    G.append(Group('rotation', rot, f_rot, note='all histories of up to three rotations of the spectrum or its grid; full circles and parts of one'))
    G.append(Group('rotation-wave-numbers', [[n1, n2, a, g] for n1 in (2, 3, 5) for n2 in (3, 4) for a in (0.3, math.pi / 2, math.pi, -1.0, 4.0) for g in (0, 1)], f_rotk))
    G.append(Group('labels', [[c, list(k), n, s] for k in LAB2 for c in (1, 2) for n in (0, 1) for s in (0, 1) if (c == 2 or k[0] in ('freq', 'encfreq', 'k1d'))], lambda c: f_labels([c[0], tuple(c[1]), c[2], c[3]])))
    G.append(Group('unsuitable-grids', [[[0.5, 1, 1.5]], [[0, 1, 3]], [[0, 1, 2, 4]], [[0, 2, 3]], [[1e-6, 1, 2]],
                                        [[0, 1, 2, 3, 3.5]]], f_cov_err))
    cases = [[S, wN, ft] for n in (2, 3, 5) for S in words([0, 1, 2, 5] if n < 5 else [0, 1, 4], n, n) if any(S)
             for wN in (1.0, 3.7) for ft in 'wfk']
    cases += [[[(a * k * k + b * k) % 7 for k in range(n)], 2.0, ft] for n in (9, 17, 33, 65) for a in range(1, 4)
              for b in range(3) for ft in 'wfk']
    G.append(Group('round-trip', cases, f_round))
    cases = []
    for acf in words([-1, 0, 1], 1, 4 if deep else 3):
        a = [3] + acf
        for fast in (True, False):
            for rate in (None, 1, 2, 3):
                cases.append([a, 0.5, fast, rate, 0.0, 0.0, 'fft'])
            cases.append([a, 1.0, fast, None, 0.25, 0.0, 'fft'])
            cases.append([a, 1.0, fast, None, 1e-5, 0.5, 'fft'])
            if len(a) > 3:
                for m in ('linear', 'cubic', 'stineman'):
                    cases.append([a, 1.0, fast, 2, 0.0, 0.0, m])
    G.append(Group('covariance-to-spectrum', cases, f_tospec))
    cases = [[k, n, wN, ft, dt, nt, nr] for k in SHAPES for n in (17, 33) for wN, ft, dts in (
        (2.0, 'w', (None, 0.7, 1.2)), (0.5, 'f', (None, 0.45))) for dt in dts for nt in (None, 5, 1000) for nr in (0, 2, 4)]
    G.append(Group('covariance-matrix', cases, f_covmat))
    cases = []
    for S in words([0, 1, 3], 3, 3):
        for args in ([0, 1, 2], [0, 1, 3], [0.5, 1, 1.25]):
            for ft in 'wfk':
                cases.append([S, args, ft])
    for S in words([0, 1, 2], 5, 5):
        for args in ([0, 1, 2, 3, 4], [0, .5, 1.5, 1.75, 3]):
            cases.append([S, args, 'w'])
            cases.append([S, args, 'f'])
    if deep:
        for S in words([0, 1, 2], 7, 7):
            cases.append([S, [0, 1, 2, 3, 4, 5, 6], 'k'])
    G.append(Group('moments', cases, f_moment))
    H = [list(h) for n in range(1, 6 if deep else 5) for h in itertools.product('wf', repeat=n)]
    G.append(Group('frequency-unit-histories', [[s, h, d] for s in 'wf' for h in H for d in ('float64', 'int64', 'float32')
                                                if d != 'float32' or len(h) < 0], f_freqtype))
    G.append(Group('normalise', [[k, n, wN, s, ft, g] for k in SHAPES for n in (9, 33) for wN in (0.5, 3.0)
                                 for s in (0.1, 1.0, 20.0) for ft in 'wf' for g in (9.81, 1.0)], f_norm))
    sels = [0, 1, 2, 3, 'alpha', 'eps2', 'eps4', 'Qp', 'qp']
    sels += [list(p) for r in (1, 2, 4) for p in itertools.permutations([0, 1, 2, 3], r)]
    sels += [list(p) for p in itertools.product(BW, repeat=2)] + [['alpha', 2], [3, 'eps2']]
    G.append(Group('bandwidth', [[k, 33, wN, ft, s] for k in SHAPES for wN in (1.0, 2.5) for ft in 'wf' for s in sels], f_bw))
    sels = list(range(15)) + CH + [[i, j] for i in range(15) for j in range(15)] + [list(range(15)), CH[::-1]]
    G.append(Group('characteristics', [[k, 129, 2.5 if ft == 'w' else 0.4, ft, s, 9.81, 1200., 0] for k in ('hump', 'two', 'tail')
                                       for ft in 'wf' for s in sels] +
                   [['two', 129, 1.7, 'w', CH, g, T, 0] for g in (9.81, 1.0, 3.7) for T in (60., 1200.)], f_char))
    G.append(Group('characteristics-hm0-covariance', [['two', 129, 2.5, 'w', p, 9.81, 1200., 1] for p in (
        ['Hm0', 'Tm01'], ['Hm0', 'Tm02'])], f_char))
    G.append(Group('characteristics-unit', [[k, n, wN] for k in SHAPES for n in (32, 33, 64, 65) for wN in (0.7, 2.5)],
                   f_charinv))
    G.append(Group('characteristics-scale', [[k, n, a, b] for k in SHAPES for n in (33, 34) for a in (0.5, 1, 3) for b in (0.5, 1, 2)],
                   f_scale))
    moms = [''.join(c) for r in range(1, 5) for c in itertools.combinations('mvsk', r)]
    G.append(Group('second-order-statistics', [[k, n, wN, ft, mo, g] for k in SHAPES for n in (5, 17) for wN, ft in (
        (2.5, 'w'), (0.4, 'f')) for mo in moms for g in (9.81, 2.0)], f_statsnl))
    cases = [[k, n, w0, wN, ft, dtf, nmin, m] for k in SHAPES for n in (9, 12, 17, 33) for w0 in (0.0,) for wN, ft in (
        (2.0, 'w'), (0.4, 'f')) for dtf in (None, 1.0, 0.5, 0.8) for nmin in (0, 40) for m in ('stineman', 'linear')]
    cases += [[k, 17, 0.3, 2.0, 'w', dtf, 0, m] for k in ('hump', 'two') for dtf in (None, 0.5) for m in ('stineman', 'linear')]
    G.append(Group('resample', cases, f_resample))
    V = ['x', 'y', 't', 'xy', 'xt', 'yt', 'xyt', 'tx', 'yx', 'tyx']
    th3, w3 = [-1.0, 0.25, 1.5], [0.0, 0.8, 1.6]
    basis = []
    for i in range(9):
        e = [0] * 9
        e[i] = 1
        basis.append(e)
    skip = [v for v in V if 'y' in v and 't' in v and 'x' not in v]
    cases = [[e, th3, w3, phi, v, nr, ['myt']] for e in basis + [[(k * k) % 5 for k in range(9)]] for phi in (0.0, 0.7)
             for v in V for nr in (0, 1, 2, 4) if v not in skip or nr < 2]
    th5, w5 = [-2.0, -1.0, 0.0, 0.5, 1.5], [0.2, 0.5, 0.8, 1.4, 2.0]
    cases += [[[(a * k * k + b * k) % 7 for k in range(25)], th5, w5, phi, v, nr, ['myt']] for a in range(3) for b in range(1, 4)
              for phi in (0.0, -0.4) for v in V for nr in (0, 1, 2, 4) if v not in skip or nr < 2]
    G.append(Group('directional-moments', cases, f_mom2d))
    G.append(Group('directional-moment-known', [[[0, 0, 0, 0, 1, 0, 0, 2, 1], th3, w3, 0.0, v, 2, []] for v in ('yt', 'xyt')], f_mom2d))
    return G
