"""P14 Parametric sea spectra and directional spreading functions obey their defining relations."""
import itertools
import math
import numpy as np
from scipy import special as sp
from vk import Group, Fail, tick
from ref import close, require, rnd
import wafo.spectrum.models as wsm

PROPERTY = 'P14'
ASSUMPTIONS = ['numerical quadrature of the reference: composite 40-point Gauss-Legendre',
               'mean resultant lengths that the tabulated inversions cover (s <= 150)']
XG, WG = np.polynomial.legendre.leggauss(40)


def quad(f, a, b, n=40):
    e = np.linspace(a, b, n + 1)
    h = 0.5 * np.diff(e)[:, None]
    x = e[:-1, None] + h * (1 + XG)
    return float(np.sum(f(x.ravel()).reshape(x.shape) * WG * h))


def gengam(x, N, M):
    x = np.asarray(x, float)
    y = np.zeros(x.shape)
    p = x > 0
    B, C = N / M, (N - 1.0) / M
    y[p] = np.exp(math.log(M) + C * math.log(B) - math.lgamma(C) - N * np.log(x[p]) - B * x[p] ** (-float(M)))
    return y


def peakfact(H, T):
    x = T / math.sqrt(H)
    D = 0.036 - 0.0056 * x
    return min(math.exp(3.484 * (1 - 0.1975 * D * x ** 4)), 7.0) if x <= 36 / 7. else 1.0


def jonswap(x, g, sa, sb, N, M):
    x = np.asarray(x, float)
    s = np.where(x > 1, sb, sa)
    return gengam(x, N, M) * g ** np.exp(-0.5 * ((np.maximum(x, 0) - 1) / s) ** 2)


def jon_ref(w, H, T, g, sa=0.07, sb=0.09, N=5, M=4, wnc=6.0, Ag=None):
    wp = 2 * np.pi / T
    if Ag is None:
        Ag = 1.0
        if g != 1:
            f = lambda x: jonswap(x, g, sa, sb, N, M)
            Ag = 1 / (quad(f, 0, 1) + quad(f, 1, wnc))
    return (H / 4.0) ** 2 / wp * Ag * jonswap(np.asarray(w) / wp, g, sa, sb, N, M)


def W(T):
    wp = 2 * np.pi / T
    return wp * np.r_[0, 0.2, 0.5, 0.8, 0.93, 1.0, 1.04, 1.2, 1.7, 2.5, 4.0, 7.0]


def forms(S, w, want, what, rtol=1e-8):
    """every argument form gives the same curve; negative frequencies carry nothing"""
    keep = w.copy()
    tick(4)
    close(S(w), want, what, rtol, 1e-13)
    require(np.array_equal(keep, w), 'frequencies modified')
    close(S(list(w)), want, what + ' (list)', rtol, 1e-13)
    close(np.ravel(S(float(w[5]))), want[5:6], what + ' (scalar)', rtol, 1e-13)
    close(S(w[::-1]), want[::-1], what + ' (reversed)', rtol, 1e-13)
    require(np.all(np.asarray(S(w)) >= 0), 'negative spectral density')
    T = S.tospecdata(w)
    close(T.data, want, what + ' (tospecdata)', rtol, 1e-13)
    close(T.args, w, 'frequencies of the spectral object')


def f_bret(case):
    kind, H, T, a, b = case
    w = W(T)
    if kind == 'bret':
        S, N, M = wsm.Bretschneider(Hm0=H, Tp=T, N=a, M=b), a, b
    elif kind == 'wallop':
        S, M = wsm.Wallop(Hm0=H, Tp=T, N=a), 4
        Lp = 9.81 * T ** 2 / (2 * np.pi)
        N = a if a is not None else abs((math.log(2 * np.pi ** 2) + 2 * math.log(H / 4.) - 2 * math.log(Lp)) / math.log(2))
    else:
        S = wsm.McCormick(Hm0=H, Tp=T, Tz=a, M=b)
        M, N = S.M, S.N
        close(N, M + 1.0, 'N = M+1')
        tz = 0.8143 * T if a is None else a
        if b is None:
            close((1 + 1. / M) ** (1. / M) / math.gamma(1 + 1. / M), T / tz, 'Tp/Tz', 1e-3, 1e-3)
        else:
            require(M == b, 'M')
    if N <= 1:
        return 'no finite energy'
    want = (H / 4.0) ** 2 * T / (2 * np.pi) * gengam(w * T / (2 * np.pi), N, M)
    forms(S, w, want, kind)
    wp = 2 * np.pi / T
    # energy: the part above w1 in closed form, the rest integrated
    m0 = quad(S, 0.05 * wp, 5 * wp, 80)
    tail = (H / 4.) ** 2 * sp.gammainc((N - 1.) / M, N / M * 5.0 ** (-float(M)))
    close(m0 + tail, H ** 2 / 16., 'energy', 1e-6, 1e-9)
    near = S(wp * np.r_[1, 0.999, 1.001])
    require(near[0] >= near[1] and near[0] >= near[2], 'the peak is not at 2*pi/Tp')
    return rnd(want)


def f_jon(case):
    H, T, g, sa, sb, N, M, wnc, method, Ag = case
    kw = dict(Hm0=H, Tp=T, N=N, M=M, sigmaA=sa, sigmaB=sb, wnc=wnc, method=method)
    if g is not None:
        kw['gamma'] = g
    if Ag is not None:
        kw['Ag'] = Ag
    S = wsm.Jonswap(**kw)
    gam = peakfact(H, T) if g is None or g < 1 else g
    w = W(T)
    if method == 'parametric' and Ag is None and gam != 1:
        shape = jon_ref(w, H, T, gam, sa, sb, N, M, wnc, Ag=1.0)
        forms(S, w, shape * float(np.ravel(S.Ag)[0]), 'jonswap', 1e-7)
        exact = jon_ref(w, H, T, gam, sa, sb, N, M, wnc)
        close(S(w), exact, 'parametric normalization', 0.025 if N >= 10 else 0.05 if N >= 5 else 0.065, 1e-12)
    else:
        want = jon_ref(w, H, T, gam, sa, sb, N, M, wnc, 1.0 if gam == 1 else Ag)
        forms(S, w, want, 'jonswap', 1e-6)
        if Ag is None and gam != 1:
            wp = 2 * np.pi / T
            close(quad(S, 0, wp) + quad(S, wp, wnc * wp), H ** 2 / 16., 'energy', 1e-6, 1e-9)
    return rnd(S(w))


def f_tma(case):
    H, T, g, h, G = case
    S = wsm.Tmaspec(Hm0=H, Tp=T, gamma=g, h=h, g=G)
    w = W(T)
    k1 = w ** 2 / G
    phi = np.ones(len(w))
    if not np.isinf(h):
        for i, (wi, kd) in enumerate(zip(w, k1)):
            if wi == 0:
                phi[i] = 0
                continue
            lo, hi = 0.0, max(kd, wi / math.sqrt(G * h)) * 2
            for _ in range(200):
                m = 0.5 * (lo + hi)
                lo, hi = (m, hi) if G * m * math.tanh(m * h) < wi * wi else (lo, m)
            k = 0.5 * (lo + hi)
            kh = k * h
            phi[i] = (kd / k) ** 3 / (math.tanh(kh) + (kh / math.cosh(kh) ** 2 if kh < 300 else 0))
    tick()
    close(wsm.phi1(w, h, G), phi, 'depth limitation factor', 1e-6, 1e-9)
    require(np.all((phi >= 0) & (phi <= 1 + 1e-9)), 'reference')
    base = jon_ref(w, H, T, peakfact(H, T) if g is None else g)
    forms(S, w, base * phi, 'TMA', 1e-5)
    close(S(w, h=2 * h), base * wsm.phi1(w, 2 * h, G), 'TMA at another depth', 1e-5, 1e-9)
    require(S.tospecdata(w).h == h, 'water depth lost')
    return rnd(base * phi)


def torset(H, T, G):
    """Torsethaugen (1996): two peaks; returns ((H, T, gamma, N, M) wind, swell)"""
    Tf, Tl, Tu = 6.6 * H ** (1 / 3.), 2 * math.sqrt(H), 25.0
    el = min(max((Tf - T) / (Tf - Tl), 0), 1)
    eu = min(max((T - Tf) / (Tu - Tf), 0), 1)
    n = 0.5 * math.sqrt(H) + 3.2
    kg = 35 * (1 + 3.5 * math.exp(-H))
    if T < Tf:
        r = min(0.7 + 0.3 * math.exp(-(el / 0.5) ** 2), 1)
        s = math.sqrt(1 - r * r)
        return ((r * H, T, max(kg * (2 * np.pi / G * r * H / T ** 2) ** 0.857, 1), n, 4),
                (s * H, Tf + 2, 1.0, n, 4))
    r = min(0.6 + 0.4 * math.exp(-(eu / 0.3) ** 2), 1)
    s = math.sqrt(1 - r * r)
    m = 4 * (1 - 0.7 * math.exp(-H / 3.))
    tw = np.inf
    if s > 0:
        c, b = (n - 1) / m, n / m
        g0 = b ** c * m / math.gamma(c)
        tw = (16 * 0.08 * (1 - math.exp(-H / 3.)) * 0.4 ** n / (g0 * (s * H) ** 2)) ** (-1.0 / (n - 1))
    return ((s * H, tw, 1.0, n, m),
            (r * H, T, max(kg * (2 * np.pi / G * H / Tf ** 2) ** 0.857 * (1 + 6 * eu), 1), n, 4))


def f_tor(case):
    H, T, wnc, G = case
    S = wsm.Torsethaugen(Hm0=H, Tp=T, wnc=wnc, gravity=G)
    w = W(T)
    want = 0
    parts = torset(H, T, G)
    for h, t, g, n, m in parts:
        if h > 0:
            want = want + jon_ref(w, h, t, g, N=n, M=m, wnc=wnc)
    forms(S, w, want, 'Torsethaugen', 1e-6)
    close(sum(p[0] ** 2 for p in parts), H * H, 'energy of the two parts')
    close(S.wind.Hm0 ** 2 + S.swell.Hm0 ** 2, H * H, 'energy of the two parts')
    return rnd(want)


OH = [[.84, .54, .70, 1.15, .046, .039, 3.0, 1.54, -.062], [.84, .54, .93, 1.5, .056, .046, 3.0, 2.77, -.112],
      [.84, .54, .41, .88, .016, .026, 2.55, 1.82, -.089], [.84, .54, .74, 1.3, .052, .039, 2.65, 3.9, -.085],
      [.84, .54, .62, 1.03, .039, .030, 2.6, .53, -.069], [.95, .31, .70, 1.5, .046, .046, 1.35, 2.48, -.102],
      [.65, .76, .61, .94, .039, .036, 4.95, 2.48, -.102], [.90, .44, .81, 1.6, .052, .033, 1.8, 2.95, -.105],
      [.77, .64, .54, .61, .039, .000, 4.5, 1.95, -.082], [.73, .68, .70, .99, .046, .039, 6.4, 1.78, -.069],
      [.92, .39, .70, 1.37, .046, .039, .7, 1.78, -.069]]


def f_ochi(case):
    H, par = case
    S = wsm.OchiHubble(Hm0=H, par=par)
    p = OH[par]
    w = W(11.0)
    want = 0
    for h, wa, wb, lam in ((p[0], p[2], p[4], p[6]), (p[1], p[3], p[5], p[7] * math.exp(p[8] * H))):
        wp = wa * math.exp(-wb * H)
        want = want + (h * H / 4) ** 2 / wp * gengam(w / wp, 4 * lam + 1, 4)
    forms(S, w, want, 'Ochi-Hubble')
    require(abs(math.hypot(p[0], p[1]) - 1) < 0.01, 'reference')
    return rnd(want)


def f_calm(case):
    kind, T = case
    kw = dict(Hm0=0) if kind == 'OchiHubble' else dict(Hm0=0, Tp=T)
    S = getattr(wsm, kind)(**kw)
    tick()
    close(S(W(T)), np.zeros(12), 'calm sea')
    return 0


DEFAULTS = {'Bretschneider': dict(Hm0=7, Tp=11, N=5, M=4),
            'Jonswap': dict(Hm0=7, Tp=11, gamma=None, sigmaA=.07, sigmaB=.09, Ag=None, N=5, M=4, method='integration', wnc=6),
            'Tmaspec': dict(Hm0=7, Tp=11, gamma=None, sigmaA=.07, sigmaB=.09, Ag=None, N=5, M=4, method='integration', wnc=6, h=42, g=9.81),
            'Torsethaugen': dict(Hm0=7, Tp=11, method='integration', wnc=6), 'McCormick': dict(Hm0=7, Tp=11, Tz=0.8143 * 11),
            'Wallop': dict(Hm0=7, Tp=11)}


def f_default(case):
    """every subset of the parameters left to the documented defaults; the tabulated spectrum of the model"""
    kind, left = case
    full = DEFAULTS[kind]
    tick()
    S = getattr(wsm, kind)(**{k: v for k, v in full.items() if k not in left})
    want = getattr(wsm, kind)(**full)
    close(S(W(11)), want(W(11)), 'defaults', 1e-9, 1e-12)
    d = S.tospecdata()
    w = np.linspace(0, 33.0 / 11, 257)
    close(d.args, w, 'frequencies', 1e-12, 1e-12)
    close(d.data, want(w), 'tabulated model', 1e-9, 1e-12)
    close(S.tospecdata(wc=2.0, nw=9).args, np.linspace(0, 2, 9), 'frequencies', 1e-12, 1e-12)
    close(S.tospecdata(w=[0.0, 0.5, 0.7]).data, want(np.array([0.0, .5, .7])), 'tabulated model', 1e-9, 1e-12)
    return rnd(d.data[::32])


SPR_DEFAULTS = dict(type='cos-2s', theta0=0, method='mitsuyasu', s_a=15., s_b=15., m_a=5., m_b=-2.5, wn_lo=0., wn_c=1., wn_up=np.inf)


def f_spr_default(case):
    left, = case
    theta, w = np.linspace(-3.1, 3.1, 30), np.array([0.2, 0.6, 0.9, 1.0, 1.2, 3.0, 9.0])
    tick()
    D = wsm.Spreading(**{k: v for k, v in SPR_DEFAULTS.items() if k not in left})
    close(D(theta, w, 1)[0], wsm.Spreading(**SPR_DEFAULTS)(theta, w, 1)[0], 'defaults', 1e-12, 1e-12)
    return rnd(D(theta, w, 1)[0][::7])


def f_bad(case):
    kind, kw = case
    tick()
    try:
        getattr(wsm, kind)(**kw)
    except ValueError:
        return 'ValueError'
    raise Fail('accepted')


def f_sea(case):
    u, X, method, G = case
    tick(2)
    z = G * X / u ** 2
    if method == 'hasselman73':
        A, ny, e, sa, sb, g = .076 * z ** -.22, 3.5 * z ** -.33, 9.91e-8 * z ** 1.1, .07, .09, 3.3
    elif method == 'hasselman76':
        A, ny, e, sa, sb, g = .0662 * z ** -.2, 2.84 * z ** -.3, 1.6e-7 * z, .07, .09, 3.3
    else:
        A, ny = .074 * z ** -.22, 3.57 * z ** -.33
        e = 3.512e-4 * A * ny ** -4. * z ** -.1
        sa, sb, g = .05468 * ny ** -.32, .078314 * ny ** -.16, max(17.54 * z ** -.28384, 1)
    want = [4 * math.sqrt(e) * u ** 2 / G, u / (ny * G), g, sa, sb, A]
    d = wsm.jonswap_seastate(u, X, method, G)
    close([float(d[k]) for k in ('Hm0', 'Tp', 'gamma', 'sigmaA', 'sigmaB', 'Ag')], want, 'sea state')
    close([float(v) for v in wsm.jonswap_seastate(u, X, method, G, output='list')], want, 'sea state (list)')
    return rnd(want)


# ---------------------------------------------------------------- spreading
def inv(f, r, lo, hi):
    """f increasing"""
    for _ in range(200):
        m = 0.5 * (lo + hi)
        lo, hi = (m, hi) if f(m) < r else (lo, m)
    return 0.5 * (lo + hi)


def r1sech(b):
    x = np.pi / (2 * b)
    return x / math.sinh(x) if x < 300 else 0.0


def spread_s(wn, method, par):
    sa, sb, ma, mb, lo, c, up = par
    if method in ('n', None, 0):
        return sa
    base = 0.0 if wn <= lo else sa * wn ** ma if wn <= c else sb * wn ** mb
    if method in ('m', 1):
        return 0.0 if wn > up else base
    if wn > up:
        base = sb * up ** mb
        if method in ('b', 3):
            F = lambda v: 10 ** (-0.4 + 0.8393 * math.exp(-0.567 * math.log(v * v)))
            base *= F(wn) / F(up)
    r = r1sech(base) if base > 0 else 0.0
    return r / (1 - r)


def spread_fun(t, s):
    """density (as a function of the angle from the mean direction) with first Fourier coefficient r = s/(s+1)"""
    r = s / (s + 1.0)
    if t == 'c':
        c = math.exp(math.lgamma(s + 1) - math.lgamma(s + .5)) / (2 * math.sqrt(np.pi))
        return lambda x: c * np.abs(np.cos(x / 2)) ** (2 * s)
    if s == 0:
        return lambda x: np.full(np.shape(x), 1 / (2 * np.pi))
    if t == 'b':
        a = inv(lambda a: -math.sin(a) / a, -r, 1e-9, np.pi)
        return lambda x: np.where(np.abs(np.abs(x) - a) < 1e-4, np.nan, (np.abs(x) < a) / (2 * a))
    if t in 'mv':
        k = inv(lambda k: sp.ive(1, k) / sp.ive(0, k), r, 0, 1e3)
        return lambda x: np.exp(k * (np.cos(x) - 1)) / (2 * np.pi * sp.ive(0, k))
    if t == 'p':
        return lambda x: (1 - r * r) / (1 - 2 * r * np.cos(x) + r * r) / (2 * np.pi)
    if t == 's':
        b = inv(r1sech, r, 1e-9, 1e3)
        return lambda x: b / np.cosh(b * x) ** 2 / (2 * math.tanh(np.pi * b))
    sg = math.sqrt(-2 * math.log(r))
    return lambda x: sum(np.exp(-0.5 * ((x + 2 * np.pi * j) / sg) ** 2) for j in range(-40, 41)) / (sg * math.sqrt(2 * np.pi))


def f_spread(case):
    t, method, par, th0, ws, wc, thspec = case
    kw = dict(zip(('s_a', 's_b', 'm_a', 'm_b', 'wn_lo', 'wn_c', 'wn_up'), par))
    w = np.array(ws, float)
    wn = w / wc
    if th0 == 'fun':
        theta0, dirs = (lambda v: 0.4 * v - 1), 0.4 * wn - 1
    elif isinstance(th0, list):
        theta0 = dirs = np.resize(th0, len(w)).astype(float)
    else:
        theta0, dirs = th0, np.full(len(w), float(th0))
    D = wsm.Spreading(t, theta0=theta0, method=method, **kw)
    theta = {'full': np.linspace(-np.pi, np.pi, 101), 'shift': np.linspace(0, 2 * np.pi, 90),
             'few': np.sort(np.cos(np.arange(37))) * 3.1}[thspec]
    keep = theta.copy(), w.copy()
    tick()
    d, phi0 = D(theta, w, wc)
    require(np.array_equal(theta, keep[0]) and np.array_equal(w, keep[1]), 'input modified')
    d = np.asarray(d)
    require(d.shape[0] == len(theta) and d.shape[1] in (1, len(w)), 'shape %s' % (d.shape,))
    d = np.broadcast_to(d, (len(theta), len(w)))
    want = np.empty(d.shape)
    for j in range(len(w)):
        x = np.mod(theta - dirs[j] + np.pi, 2 * np.pi) - np.pi
        s = spread_s(wn[j], method, par)
        want[:, j] = spread_fun(t[0].lower(), s)(x)
    ok = ~np.isnan(want)
    close(np.where(ok, d, 0), np.where(ok, want, 0), 'spreading %s' % t, 1e-5, 1e-6)
    require(np.all(d >= 0), 'negative spreading')
    if thspec == 'full' and t[0].lower() not in 'b':
        ss = np.array([spread_s(v, method, par) for v in wn])
        sm = (ss == 0) | (ss >= 1) & (ss < 40)       # smooth enough for the trapezoidal rule
        area = ((d[1:] + d[:-1]) / 2 * np.diff(theta)[:, None]).sum(0)
        tol = 2e-2 if t[0].lower() == 'p' else 1e-4 if t[0].lower() in 's' else 1e-6
        close(area[sm], np.ones(sm.sum()), 'total spreading', tol, tol)
        if t[0].lower() in 'cmvw':
            c1 = (d[1:] * np.exp(1j * theta[1:, None])).sum(0) * (theta[1] - theta[0])
            close(c1[sm], (ss / (ss + 1) * np.exp(1j * dirs))[sm], 'mean direction and concentration', 1e-5, 1e-6)
    return rnd(d[::9])


def f_dir(case):
    t, method, nt, h = case
    w = np.linspace(0, 3, 21)
    S = wsm.Tmaspec(Hm0=6, Tp=9, h=h).tospecdata(w)
    keep = S.data.copy()
    D = wsm.Spreading(t, method=method, theta0=0.3)
    tick()
    S2 = D.tospecdata2d(S, nt=nt, wc=0.7)
    require(np.array_equal(S.data, keep), 'spectrum modified')
    theta = np.linspace(-np.pi, np.pi, nt)
    require(np.shape(S2.data) == (nt, 21), 'shape')
    close(S2.args[0], w, 'frequencies')
    close(S2.args[1], theta, 'angles')
    close(S2.data, D(theta, w, 0.7)[0] * keep, 'directional spectrum')
    require(S2.h == h and S2.type == 'dir' and S2.freqtype == 'w', 'attributes')
    if t not in ('box', 'poisson'):
        area = ((S2.data[1:] + S2.data[:-1]) / 2 * np.diff(theta)[:, None]).sum(0)
        close(area, keep, 'directional spectrum integrates to the spectrum', 1e-4, 1e-6)
    return rnd(S2.data[nt // 3])


def groups(tier):
    t = tier == 'thorough'
    HS, TS = [0.5, 2.0, 7.0, 12.0], [4.0, 8.0, 11.0, 16.0]
    if t:
        HS, TS = HS + [0.1, 1.0, 3.3, 9.5, 18.0], TS + [2.5, 6.0, 9.3, 13.0, 22.0]
    bret = [['bret', H, T, N, M] for H in HS for T in TS for N in (3, 4.5, 5, 8) for M in (2.5, 4, 6)]
    bret += [['wallop', H, T, N, None] for H in HS for T in TS for N in (None, 5, 3.5)]
    bret += [['mccormick', H, T, z * T if z else None, M] for H in HS for T in TS
             for z, M in ((None, None), (0.75, None), (0.9, None), (None, 5), (None, 3.0))]
    jon = [[H, T, g, sa, sb, N, M, wnc, me, Ag] for H in HS for T in TS for g in (None, 0.5, 1, 1.3, 3.3, 7)
           for sa, sb in ((.07, .09), (.05, .12)) for N, M in ((5, 4), (4, 4), (6, 3)) for wnc in (3.0, 6.0, 10.0)
           for me, Ag in (('integration', None), ('integration', 0.4))
           if (t or (sa == .07 or g in (None, 3.3)) and (wnc == 6 or (N, M) == (5, 4)))]
    jon += [[H, T, g, .07, .09, 5, 4, 6.0, 'parametric', None] for H in HS for T in TS for g in (None, 1, 2, 3.3, 5, 7)]
    jon += [[3.0, 9.0, g, .07, .09, N, M, 50.0, 'parametric', None] for N in (3, 4, 5, 6, 8, 10, 15, 20, 30, 50)
            for M in (2, 2.5, 3, 4, 6, 8, 9.5) for g in (1, 1.2, 2, 3.3, 5, 7)]
    tma = [[H, T, g, h, G] for H in HS[:3] for T in TS[:4] for g in (None, 1, 3.3) for h in (5.0, 20.0, 42, 100.0, np.inf)
           for G in (9.81, 5.0)]
    tor = [[H, T, wnc, G] for H in HS + [3.0] for T in TS + [10.0, 24.0, 26.0] for wnc in (6.0, 4.0) for G in (9.81, 9.0)]
    ochi = [[H, p] for H in HS for p in range(11)]
    calm = [[k, T] for k in ('Bretschneider', 'Jonswap', 'Tmaspec', 'Torsethaugen', 'McCormick', 'OchiHubble', 'Wallop')
            for T in (5.0, 11.0)]
    bad = [[k, kw] for k in ('Bretschneider', 'McCormick', 'Jonswap', 'Wallop')
           for kw in ({'Hm0': 3.0, 'Tp': -1.0}, {'Hm0': 3.0, 'Tp': -8})]
    bad = [b for b in bad if b[0] == 'Bretschneider'] + [['Jonswap', {'Ag': -1.0}], ['Jonswap', {'gamma': 3.3, 'wnc': 0.5}],
                                                         ['OchiHubble', {'par': 11}], ['OchiHubble', {'par': -1}],
                                                         ['Bretschneider', {'Hm0': -1}]] + [['Jonswap', {'gamma': g, 'N': N, 'M': M, 'method': 'parametric'}] for g, N, M in
                                                                            ((3.3, 5, 1), (3.3, 5, 1.9), (3.3, 5, 12), (3.3, 2, 4), (3.3, 60, 4), (25., 5, 4), (7., 2, 1))] + [['Bretschneider', {'Tp': 0}]]
    sea = [[u, X, m, G] for u in (5.0, 10.0, 25.0) for X in (1e4, 150000.0, 1e6)
           for m in ('lewis', 'hasselman73', 'hasselman76') for G in (9.81, 5.0)]
    P = [[15.0, 15.0, 5.0, -2.5, 0.0, 1.0, np.inf], [6.97, 9.77, 4.06, -2.3, 0.0, 1.05, 3.0],
         [2.61, 2.28, 1.3, -1.3, 0.56, 0.95, 1.6], [1.0, 2.0, 1.0, -1.0, 0.2, 1.0, 2.0]]
    types = ['cos2s', 'box', 'mises', 'von-Mises', 'poisson', 'sech2', 'wrap_norm', 'Box-car', 'Poisson']
    ws = [0.0, 0.3, 0.7, 1.0, 1.3, 2.4, 4.0]
    spr = [[ty, m, p, th, ws, wc, sp_] for ty in types for m in ('n', 'm', 'd', 'b', None, 0, 1, 2, 3) for p in P
           for th in (0, 1.1, -2.8, [0.2, -1.0, 3.0], 'fun') for wc in (1, 0.52)
           for sp_ in ('full', 'shift', 'few')
           if (m in ('n', 'm', None, 0, 1) or p[0] < 5) and (t or (m in ('n', 'm', 'd', 'b') or (th == 0 and sp_ == 'full')) and (wc == 1 or th == 1.1))]
    spr += [[ty, 'n', [s] + P[0][1:], th, [1.0], 1, sp_] for ty in types for s in (0.0, 0.05, 0.3, 1.0, 3.0, 30.0, 150.0)
            for th in (0, 2.0) for sp_ in ('shift',)]
    dirs = [[ty, m, nt, h] for ty in types[:7] for m in ('n', 'm') for nt in (61, 101) for h in (30.0, np.inf)]
    dfl = [[k, list(c)] for k in sorted(DEFAULTS) for n in ((0, 1, 2, 3, len(DEFAULTS[k])) if t else (1, len(DEFAULTS[k])))
           for c in itertools.combinations(sorted(DEFAULTS[k]), n)]
    sdf = [[list(c)] for n in (range(0, 11) if t else (1, 10)) for c in itertools.combinations(sorted(SPR_DEFAULTS), n)]
    return [Group('defaults', dfl, f_default), Group('spreading-defaults', sdf, f_spr_default), Group('bretschneider-wallop-mccormick', bret, f_bret), Group('jonswap', jon, f_jon), Group('tma', tma, f_tma),
            Group('torsethaugen', tor, f_tor), Group('ochi-hubble', ochi, f_ochi), Group('calm-sea', calm, f_calm),
            Group('invalid', bad, f_bad), Group('sea-state', sea, f_sea), Group('spreading', spr, f_spread),
            Group('directional', dirs, f_dir)]
