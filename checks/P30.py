"""P30 Requests outside the documented conditions are refused; requests just inside are answered."""
import io
import contextlib
import warnings
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from vk import Group, Fail, tick
from ref import require
import wafo.misc as wm
import wafo.polynomial as wp
import wafo.interpolate as wi
import wafo.integrate as wg
import wafo.integrate_oscillating as wo
import wafo.dctpack as wd
import wafo.gaussian as wgs
import wafo.markov as wmk
import wafo.objects as wob
import wafo.graphutil as wgu
import wafo.spectrum.models as wsm
import wafo.spectrum.core as wsc
from wafo.spectrum import SpecData1D
from wafo.covariance import CovData1D
import wafo.transform.models as wtm
import wafo.kdetools as wk
import wafo.kdetools.kernels as wkk
import wafo.kdetools.gridding as wkg
import wafo.stats as wst
import wafo.stats.core as wsco
import wafo.stats.distributions as wsd
from wafo.stats.estimation import Profile
import wafo.wave_theory.dispersion_relation as wdr
import wafo.wave_theory.core as wwt
import wafo.demos as wdm
from wafo.stats.plot import plotnorm
from wafo.containers import PlotData
from wafo.sg_filter import SavitzkyGolay, Kalman, HampelFilter, HodrickPrescott, smoothn

PROPERTY = 'P30'
ASSUMPTIONS = ['the conditions are those of the documentation and of the error messages, transcribed in the table; any exception counts as '
               'a refusal, whatever its type, and any returned value as an answer']

inf, nan = np.inf, np.nan
W = np.linspace(0, 3, 65)
X = np.array([0.3, 1.2, -0.4, 0.9, -1.1, -0.2, 0.8, -0.6, 1.5, -1.3, 0.1, 0.7, -0.9, 0.2, 1.1, -0.5, -0.1, 0.6, -1.4, 0.4])
D1 = np.r_[0.2, 1.0, 1.7, 2.0, 3.1, 4.2]


def ts():
    return wob.TimeSeries(X, np.arange(20) * 0.5)


def cp():
    return ts().turning_points().cycle_pairs()


def lc():
    lev = np.arange(-16, 17) * 0.25
    return wob.LevelCrossings(np.round(400 * np.exp(-lev ** 2 / 2)), lev, mean=0.0, sigma=1.0)


def spec(w=W, **kw):
    return SpecData1D(w ** 4 * np.exp(-2.5 * w), w, **kw)


def acf(v=(4.0, 2.2, 0.7, -0.3, -0.2, 0.1)):
    return CovData1D(np.array(v), np.arange(len(v)) * 0.5)


def spec2(nt=41):
    return wsm.Spreading('cos2s', theta0=0.3).tospecdata2d(wsm.Jonswap(Hm0=4, Tp=6).tospecdata(np.linspace(0, 3, 33)), nt=nt)


def stype(s, k):
    s.type = k
    return s


def table():
    T = []

    def a(name, fn, ok, bad):
        """fn(*args): ok and bad list argument tuples (anything else is a single argument)"""
        T.append((name, fn, [v if isinstance(v, tuple) else (v,) for v in ok], [v if isinstance(v, tuple) else (v,) for v in bad]))
    x9 = np.linspace(-1, 1, 9)
    # ---- misc
    a('check_random_state', wm.check_random_state, [None, 0, 1, np.int64(5), np.random.RandomState(3)], [2.5, 'a', (([1, 2]),), 1.0])
    a('args_flat', wm.args_flat, [([1, 2, 3],), (1, 2, 3), ([[1, 2, 3], [4, 5, 6]],)], [(1, 2), (1, 2, 3, 4), ([1, 2],), ([1, 2, 3, 4],), ()])
    a('findcross', lambda k: wm.findcross(X, 0.0, k), [None, 'd', 'u', 'dw', 'uw', 'tw', 'cw'], ['x', 'mw', 'up', 'd2d'])
    a('detrendma', lambda L: wm.detrendma(X, L), [1, 2, 9], [0, -1, 1.5, -0.5, 0.5])
    a('moving_average', lambda L: wm.moving_average(X, L), [1, 2, 9], [0, -1, 1.5, -0.5, 0.5])
    a('findoutliers', lambda n: wm.findoutliers(X[:n]), [3, 4, 20], [0, 1, 2])
    a('getshipchar', lambda k: wm.getshipchar(**k), [dict(length=100), dict(beam=20)], [dict(length=100, beam=20), dict(), dict(length=100, draught=5, beam=2)])
    a('trangood', lambda x, f: wm.trangood(x, f), [(x9, x9), ([1, 0], [2, 3])], [(np.eye(2), x9[:2]), ([0, 1, 1], [1, 2, 3]), ([0, 0], [1, 2]), (x9[:2], np.eye(2)), ([2, 1, 2], [1, 2, 3])])
    two = [X > 0.5, X < -0.5]
    a('piecewise', lambda n: wm.piecewise(two, [lambda x: x] * n, (X,)), [2, 3], [0, 1, 4, 5])
    a('lazywhere', lambda f, g: wm.lazywhere(X > 0, (X,), np.sqrt, fillvalue=f, f2=g), [(0.0, None), (None, abs)], [(None, None), (0.0, abs)])
    a('index2sub', lambda n: wm.index2sub((3, 4), n), [0, 5, 11], [12, 100])
    a('sub2index', lambda i, j: wm.sub2index((3, 4), i, j), [(0, 0), (2, 3)], [(3, 0), (0, 4), (-1, 0), (5, 5)])
    # ---- polynomials
    pol = [1.0, 2.0, -1.0, 0.5]
    a('polyint', lambda m, k: wp.polyint(pol, m, k), [(0, None), (1, None), (2, 3.0), (2, [1, 2]), (3, [1, 2, 3]), (1, [1, 2])], [(-1, None), (-2, None), (3, [1, 2])])
    a('polyder', lambda m: wp.polyder(pol, m), [0, 1, 3, 5], [-1, -2])
    a('chebpoly', lambda n, k: wp.chebpoly(n, kind=k), [(3, 1), (3, 2), (0, 1)], [(3, 0), (3, 3), (3, -1)])
    a('chebroot', lambda n, k: wp.chebroot(n, k), [(3, 1), (3, 2)], [(3, 0), (3, 3), (3, -1)])
    a('chebinterpolate', lambda d: wp.chebinterpolate(np.exp, d), [0, 1, 5], [-1, -5, 2.5, 'a', [2]])
    a('Cheb1d', lambda c: wp.Cheb1d(c), [[1.0], [1, 2], [0, 0]], [[[1, 2], [3, 4]], np.ones((1, 2, 2))])

    def setkey(k):
        wp.Cheb1d([1.0, 2, 3])[k] = 5.0

    def setattribute(n):
        setattr(wp.Cheb1d([1.0, 2, 3]), n, 5.0)
    a('Cheb1d[k]=', setkey, [0, 1, 2, 4], [-1, -3])
    a('Cheb1d.attr=', setattribute, [], ['a', 'b', 'coeffs', 'kind', 'order', 'new'])
    v2 = (np.r_[0.1, 0.2], np.r_[0.3, -0.2])
    a('chebvandernd', lambda d: wp.chebvandernd(d, *v2), [(([1, 2]),), (([0, 0]),), (([2.0, 1]),)], [([1],), ([1, 2, 3],), ([-1, 2],), ([1, -1],), ([1.5, 2],), ([1, 2.5],)])
    g2 = np.meshgrid(x9, x9)
    z2 = np.exp(g2[0] * g2[1])
    a('chebfitnd', lambda xi, f, kw: wp.chebfitnd(xi, f, [2, 2], **kw), [(g2, z2, {}), (g2, z2, dict(w=1 + z2.ravel()))],
      [((x9, x9), z2, {}), (g2, z2.ravel(), {}), ((g2[0], g2[1].ravel()), z2, {}), ((np.zeros((0, 2)), np.zeros((0, 2))), np.zeros((0, 2)), {}), (g2, z2, dict(w=np.ones(5)))])
    a('chebvalnd', lambda x, y: wp.chebvalnd(np.ones((2, 2)), x, y), [(0.1, 0.2), v2], [([1, 2], [1, 2, 3])])
    # ---- interpolation
    a('savitzky_golay', lambda w, o: wi.savitzky_golay(X, w, o), [(5, 2), (3, 1), (7, 5), (5, 3)], [(4, 2), (6, 1), (0, 1), (3, 2), (5, 4), (3, 5)])
    a('sgolay2d', lambda w, o: wi.sgolay2d(np.arange(81.).reshape(9, 9) ** 1.5, w, o), [(5, 2), (3, 1), (3, 2)], [(4, 2), (6, 1), (0, 1), (-1, 0), (3, 3), (1, 1), (5, 6)])
    a('SmoothSpline', lambda x, y: wi.SmoothSpline(x, y), [([0, 1], [1, 2]), ([1, 0], [1, 2]), ([0, 1, 3], [1, 0, 2])],
      [([0], [1]), ([0, 0], [1, 2]), ([0, 1, 1], [1, 2, 3]), ([0, 1], [1, 2, 3]), ([0, 1, 2], [1, 2])])
    a('slopes', lambda x: wi.slopes(x, [1.0, 3, 2, 5]), [[0, 1, 2, 3], [0, 0.1, 0.2, 5]], [[0, 1, 1, 2], [0, 1, 0.5, 2], [3, 2, 1, 0], [0, 0, 1, 2], [0, 1, 2, 2], [0, 2, 3, 1]])
    for n in ('StinemanInterp', 'CubicHermiteSpline', 'Pchip'):
        a(n, (lambda n: lambda x: getattr(wi, n)(x, [1.0, 3, 4, 5]))(n), [[0, 1, 2, 3], [0, 0.1, 0.2, 5]], [[0, 1, 1, 2], [0, 1, 0.5, 2], [3, 2, 1, 0]])
    a('CubicHermiteSpline(shapes)', lambda n, m: wi.CubicHermiteSpline(np.arange(n), np.arange(m)), [(4, 4)], [(4, 3), (3, 4)])
    # ---- quadrature
    def tab(n, a_=0.0, b_=2.0, k=None, d=0.0):
        s = np.cos(np.pi * np.arange(2 * n, -1, -1) / (2 * n)) * (b_ - a_) / 2 + (b_ + a_) / 2
        if k is not None:
            s[k] += d
        return np.c_[s, np.exp(s)]
    a('clencurt(table)', lambda t, n: wg.clencurt(t, 0, 2, n), [(tab(3), 3), (tab(5), 5), (tab(3, k=2, d=1e-10), 3)],
      [(tab(3), 4), (tab(4), 3), (tab(3, 0, 3), 3), (tab(3, k=0, d=1e-3), 3), (tab(3, k=3, d=-1e-3), 3), (tab(3, k=6, d=1e-4), 3), (tab(3)[::-1], 3)])
    a('j_roots', lambda al, be: wg.j_roots(4, al, be), [(0, 0), (-0.5, -0.5), (0.5, -0.9), (3, 2)], [(-1, 0), (0, -1), (-1, -1), (-2, 0), (0.5, -1.5), (-3, 4)])
    a('la_roots', lambda al: wg.la_roots(4, al), [0, -0.5, -0.9, 2.5], [-1, -1.5, -3])
    a('qrule', lambda w: wg.qrule(4, w), list(range(1, 10)), [0, -1, 10, 11, -9])
    a('romberg', lambda f, l, u: wg.romberg(f, l, u, 1e-6, 1e-6), [(np.exp, 0, 1), (np.cos, 0, 3)], [(lambda x: 1 / np.sqrt(np.abs(x - 0.3)), 0, 1)])
    a('quadgr', lambda l, u: wg.quadgr(lambda x: np.exp(-x * x), l, u), [(0, 1), (0, inf), (-inf, 0), (-inf, inf)], [(1j, inf), (-inf, 1j), (0, complex(0, inf)), (nan, inf), (-inf, nan)])
    # ---- transforms
    for n in ('dctn', 'idctn', 'dstn', 'idstn'):
        a(n, (lambda n: lambda s, ax: getattr(wd, n)(np.arange(24.).reshape(4, 6), shape=s, axes=ax))(n), [((3, 5), (0, 1)), ((3,), (0,)), (None, (1,)), ((3, 5), None)],
          [((3, 5), (0,)), ((3,), (0, 1)), ((3,), None), ((3, 5, 2), None), (None, (2,)), ((3,), (3,))])
    # ---- Gaussian
    C3 = np.array([[1, .3, .2], [.3, 1, .4], [.2, .4, 1]])
    lo, up = [-1, -2, -1.], [1, 2, 0.5]
    a('prbnormnd', lambda C, p, q: wgs.prbnormnd(np.array(C, float), p, q), [(C3, lo, up), (C3[:2, :2], lo[:2], up[:2])],
      [(C3, lo[:2], up), (C3, lo, up[:2]), (C3[:2], lo, up), (C3[:, :2], lo, up), (C3[:2, :2], lo, up), (C3 * 2, lo, up), (C3 + np.diag([0, 0, 0.01]), lo, up)])
    # ---- Markov
    u4 = np.triu(np.arange(16.).reshape(4, 4), 1)
    a('fr2nt', lambda m: wmk.fr2nt(m), [u4, np.triu(np.ones((3, 3)))], [np.ones((2, 2)), np.ones((1, 1)), np.ones((3, 4)), np.ones((5, 4)), np.ones((2, 5))])
    for n in ('nt2cmat', 'cmat2nt'):
        a(n, (lambda n: lambda k: getattr(wmk, n)(u4, kind=k))(n), [1, 11], [2, 3, 5, 'a', -3])
    # ---- records
    a('level_crossings', lambda k: cp().level_crossings(kind=k), [1, 2, 3, 4, 'uM', 'umM', 'um'], [0, 5, 'x', 'uu', -1])
    a('cycle_matrix', lambda k: cp().cycle_matrix((-2, 2, 9), method=k), [0], [-1, 3, 5])
    a('cycle_matrix(ddef)', lambda k: cp().cycle_matrix((-2, 2, 9), ddef=k), [-1, 0, 1], [2, -2, 5])
    a('tospecdata', lambda k: ts().tospecdata(5, method=k), ['cov', 'psd', 'psdo'], ['x', 'fft', 'Cov', 'ar'])
    a('extrapolate', lambda k: lc().extrapolate(u_min=-2, u_max=2, dist=k), ['genpar', 'genpareto', 'expon', 'exponential', 'rayleigh'], ['norm', 'x', 'weibull'])
    a('wave_periods', lambda k: ts().wave_periods(pdef=k), ['m2m', 'm2M', 'M2m', 'M2M', 'u2u', 'u2d', 'd2u', 'd2d', 't2t', 't2c', 'c2t', 'c2c', 'd2t', 't2u', 'u2c', 'c2d', 'all'],
      ['x', 'u2x', 'd2M', 'a2a', 'm2u', 'D2D'])
    # ---- spectra
    for c in ('Bretschneider', 'Jonswap', 'McCormick', 'OchiHubble', 'Tmaspec', 'Torsethaugen', 'Wallop'):
        a(c + ' Hm0', (lambda c: lambda h: getattr(wsm, c)(Hm0=h))(c), [0.5, 3, 7, 10], [-0.1, -1, -7])
        if c not in ('OchiHubble',):
            a(c + ' Tp', (lambda c: lambda t: getattr(wsm, c)(Tp=t))(c), [1, 5, 20], [0, -0.1, -5])
    a('Jonswap parametric', lambda N, M, g: wsm.Jonswap(Hm0=7, Tp=11, N=N, M=M, gamma=g, method='parametric'), [(3, 2, 1), (50, 9.5, 20), (5, 4, 3.3), (4, 4, 1)],
      [(2.9, 4, 3), (51, 4, 3), (5, 1.9, 3), (5, 9.6, 3), (5, 4, 21)])
    a('Jonswap custom', lambda A: wsm.Jonswap(Hm0=7, Tp=11, method='custom', Ag=A), [0.1, 1, 2], [0, -1, -0.01])
    a('Jonswap cutoff', lambda c: wsm.Jonswap(Hm0=7, Tp=11, wnc=c), [1.0, 1.5, 6], [0.99, 0.5, 0, -1])
    a('OchiHubble par', lambda k: wsm.OchiHubble(par=k), list(range(11)), [-1, 11, 20])
    a('Spreading method', lambda k: wsm.Spreading(method=k), [None, 0, 1, 2, 3, 'n', 'mitsuyasu', 'd', 'banner', 'Donelan'], ['x', 4, -1, 'zz'])
    th = np.linspace(-np.pi, np.pi, 61)
    a('Spreading theta', lambda t: wsm.Spreading().tospecdata2d(wsm.Jonswap().tospecdata(np.linspace(0, 2, 9)), theta=t), [th, np.linspace(0, 2 * np.pi, 45)], [th[:-1], th[1:], th / 2, np.linspace(-3, 3, 61)])
    a('Spreading theta0', lambda n: wsm.Spreading(theta0=np.zeros(n))(th, np.linspace(0.5, 2, 4), 1.0), [1, 4], [2, 3, 5])
    a('Spreading s', lambda s: wsm.Spreading('cos2s', s_a=s, s_b=s)(th, np.linspace(0.5, 2, 4), 1.0), [0.5, 10], [-0.1, -5])
    a('fourier2x', lambda r: wsm.Spreading.fourier2x(np.array(r)), [[0.0], [0.5, 0.999]], [[1.0], [0.2, 1.5]])
    a('spec.tocovdata start', lambda w: spec(w).tocovdata(), [W, np.linspace(0, 2, 9)], [W[1:], W + 0.1, np.linspace(0.5, 2, 9)])
    a('spec.tocovdata steps', lambda k, d: spec(W + (np.arange(65) == k) * d).tocovdata(), [(3, 0.0)], [(3, 0.01), (64, 0.02), (1, -0.01), (30, 0.001)])
    a('to_t_pdf kind', lambda k: spec().to_t_pdf(paramt=(0, 5, 3), kind=k, speed=9, seed=1), ['Tc', 'Tt', 'tc'], ['x', 'Lc', 'Lt', 'mm'])
    a('characteristic', lambda k: spec().characteristic(k), [0, 14, [0, 5, 14], 'Hm0', 'Qp', 'Tm_10'], [-1, 15, [0, 15], [-1, 3]])
    a('stats_nl', lambda m: spec(h=30.0).stats_nl(method=m), ['approximate', 'a'], ['x', 'none'])
    a('TrHermite derivatives', lambda *d: wtm.TrHermite().dat2gauss(x9, *d), [()], [(x9,), (x9, x9)])
    a('TrOchi skewness', lambda s: wtm.TrOchi(skew=s).dat2gauss(x9), [0.0, 0.1, 1.0, 2.8], [2.83, -2.83, 5])
    a('TrHermite skewness', lambda s, k: wtm.TrHermite(skew=s, kurt=k).dat2gauss(x9), [(0.1, 3.1), (0.0, 3.0)], [(nan, 3.1), (0.1, nan)])
    # ---- covariance
    a('cov.sim', lambda *v: acf(v).sim(8), [(4, 2, 1, 0, 0.), (4, -2, 1, 0, 0.)], [(1, 2, 0, 0, 0.), (4, 2, 1, 5, 0.), (-1, 0, 0, 0, 0.)])
    # ---- waves
    a('w2k', lambda h, g: wdr.w2k(np.linspace(0.2, 2, 5), 0.0, h, g=g), [(inf, 9.81), (20.0, 9.81), (inf, (9.81, 9.81))], [(20.0, (9.81, 9.81)), (5.0, (9.81, 5.0))])
    # ---- kernels
    dd = np.vstack((D1, D1[::-1] ** 2))
    a('KDE points', lambda p: wk.KDE(dd, hs=0.5).eval_points(p), [[[1.0], [2.0]], [[1.0, 2], [0, 1]], [1.0, 2.0]], [[[1.0, 2, 3]], [[1.0], [2], [3]], [1.0, 2, 3]])
    a('KDE bandwidth', lambda h: wk.KDE(dd, hs=h).eval_points([1.0, 2.0]), [0.5, [0.5, 1.0], np.array([[1, .2], [.2, 1.]])], [np.array([[1.0, 2], [2, 1]]), np.array([[0.0, 1], [1, 0]]), np.zeros((2, 2))])
    pdf = np.exp(-np.linspace(-3, 3, 61) ** 2)
    a('qlevels pdf', lambda z: wkk.qlevels(z, p=(20, 50)), [pdf, pdf * 3], [-pdf, pdf - 0.1, np.r_[pdf, -1e-6]])
    a('qlevels p', lambda p: wkk.qlevels(pdf, p=p), [(([10, 90]),), ([0.5, 100],), ([50],)], [([-1],), ([101],), ([50, 100.1],), ([-0.1, 50],)])
    a('qlevels shape', lambda n: wkk.qlevels(pdf, p=(20, 50), xi=(np.linspace(0, 1, n),)), [61], [60, 62, 10])
    a('qlevels2', lambda m: wkk.qlevels2(D1, (20, 50), method=m), [1, 2, 3, 4], [0, 5, -1])
    am = np.array([0, 1, 0, 2])
    a('accum', lambda m, v: wkg.accum(m, v), [(am, np.arange(4.))], [(am, np.arange(5.)), (am, np.arange(3.)), (am, np.ones((2, 2)))])
    a('gridcount', lambda d, x: wkg.gridcount(d, x), [(D1, np.linspace(0, 5, 6)), (D1, np.linspace(0.2, 4.2, 6)), (dd, np.vstack([np.linspace(0, 20, 6)] * 2))],
      [(D1, np.linspace(0.3, 5, 6)), (D1, np.linspace(0, 4.1, 6)), (D1, np.linspace(1, 2, 6)), (dd, np.linspace(0, 20, 6)), (D1, np.vstack([np.linspace(0, 20, 6)] * 2)),
       (dd, np.vstack((np.linspace(0, 20, 6), np.linspace(1, 20, 6))))])
    # ---- statistics
    a('pbinom', lambda p: wsd.pbinom(p), [[0.0, 1.0], [0.5, 0.2]], [[-0.1, 0.2], [1.1, .2], [0.5, 2], [0.2, -1e-3, 0.4]])
    dpos = D1 + 0.1
    a('fit2 fixed', lambda kw: wst.weibull_min.fit2(dpos, **kw), [dict(floc=0), dict(floc=0, fscale=2.0), dict(f0=2.0, floc=0)],
      [dict(f0=2.0, floc=0, fscale=2.0), dict(f0=1.0, fc=1.0), dict(fc=1.0, fix_c=2.0), dict(floc=0, nonsense=3), dict(floc=0, optimizer='nothing')])
    a('fit2 start', lambda *s: wst.weibull_min.fit2(dpos, *s), [(), (1.5,), (1.5, 0.0, 2.0)], [(1.5, 0.0, 2.0, 1.0), (1., 2, 3, 4, 5)])
    fit = {}

    def profile(i):
        if not fit:
            fit['f'] = wst.weibull_min.fit2(dpos, floc=0)
        return Profile(fit['f'], i=i)
    a('Profile', profile, [0, 2, None], [1, 3, 5, -5])
    # ---- further conditions
    a('to_cdf', lambda d, x: PlotData(d, x).to_cdf(), [(x9, x9)], [(np.eye(9), (x9, x9)), (np.eye(9), [x9, x9])])
    a('magic', wdm.magic, [3, 4, 5, 6, 10], [2, 1, 0, -1])
    a('quadosc limits', lambda l, u: wo.QuadOsc(lambda x: np.exp(-x), lambda x: x, lambda x: np.ones_like(x), l, u)(1.0), [(0, 1), (0, inf)],
      [(1j, inf), (nan, inf), (-inf, nan), (-inf, 1j)])
    a('hmns kernel', lambda k: wkk.Kernel(k).hmns(dd), ['epan', 'biwe', 'triw', 'gauss'], ['tria', 'rect', 'lapl', 'logi'])
    d3 = np.vstack((dd, np.cos(D1)))
    a('hmns dimension', lambda k: wkk.Kernel(k).hmns(d3), ['epan', 'gauss'], ['biwe', 'triw'])
    a('cov type', lambda k: CovData1D(np.r_[4.0, 2, 1], np.arange(3.), type=k), ['time', 'x'], [''])
    a('spec1 type', lambda k, f: SpecData1D(W, W, type=k, freqtype=f), [('freq', 'w'), ('freq', 'f'), ('k1d', 'k')], [('', 'w'), ('enc', 'k')])
    a('spec1.moment type', lambda k: stype(spec(), k).moment(2), ['freq', 'enc', 'k1d'], ['dir', 'k2d', 'encdir', 'x'])
    a('spec2.moment type', lambda k: stype(spec2(), k).moment(2), ['dir'], ['freq', 'enc', 'k1d', 'x'])
    a('spec2.rotate type', lambda k: stype(spec2(), k).rotate(0.1), ['dir', 'encdir'], ['freq', 'enc', 'k1d'])
    a('to_t_pdf type', lambda t, k: stype(spec(), t).to_t_pdf(paramt=(0, 5, 3), kind=k, speed=9, seed=1), [('freq', 'Tc')], [('k1d', 'Tc'), ('enc', 'Tc'), ('freq', 'Lc'), ('enc', 'Lt')])
    a('plotnorm df', lambda k: plotnorm(X, df=k), [1, 5, 30, inf], [0, -1, 2.5, -inf, 0.5])
    a('sensortypeid', lambda *k: wwt.sensor_typeid(*k), ['n', ('u', 'v')], [1, ('n', 3), None])
    a('TrHermite back derivatives', lambda *d: wtm.TrHermite().gauss2dat(x9, *d), [()], [(x9,), (x9, x9)])
    a('TrOchi back derivatives', lambda *d: wtm.TrOchi(skew=0.1).gauss2dat(x9, *d), [()], [(x9,), (x9, x9)])
    a('TrOchi derivatives', lambda *d: wtm.TrOchi(skew=0.1).dat2gauss(x9, *d), [()], [(x9,), (x9, x9)])
    a('smoothn weights', lambda w: smoothn(X, s=1.0, weight=w), [np.ones(20), np.arange(20.)], [-np.ones(20), np.arange(20.) - 0.5])
    a('Hampel dx', lambda k: HampelFilter(dx=k)(X), [None, 1, 3, 0.5], [0, -1, [1, 2]])
    a('Rind size', lambda n: wgs.Rind(speed=9)(C3, np.zeros(3), -np.ones((1, n)), np.ones((1, n))), [3], [1, 2, 4])
    a('FitDistribution start index', lambda m: Profile(wst.weibull_min.fit2(dpos, floc=0, method=m)), ['ml', 'mps'], ['mom', 'ks', 'x'])
    for n in ('expon', 'gamma', 'uniform', 'lognorm', 'beta', 'norm'):
        fix = dict(floc=0, fscale=50.0)
        fix.update(dict(gamma=dict(fa=2.0), lognorm=dict(fs=2.0), beta=dict(fa=2.0, fb=2.0)).get(n, {}))
        free = dict(fix)
        free.pop('fscale')
        a(n + '.fit', (lambda n: lambda kw, d: getattr(wst, n).fit(d, **kw))(n), [(free, dpos / (20 if n == 'beta' else 1))],
          [(fix, dpos), (free, np.r_[dpos, nan]), (free, np.r_[dpos, inf]), (dict(nonsense=3), dpos)] + ([(free, np.r_[dpos, -1.0])] if n not in ('norm', 'uniform', 'beta') else []))
    a('uniform.fit range', lambda k: wst.uniform.fit(dpos, **k), [dict(floc=0), dict(fscale=10.0)], [dict(floc=1.0), dict(fscale=1.0)])
    return [t for t in T if t[2] or t[3]]


def cases(T):
    ok, bad = [], []
    for name, _fn, o, b in T:
        ok += [[name, k] for k in range(len(o))]
        bad += [[name, k] for k in range(len(b))]
    return ok, bad


TABLE = dict((t[0], t) for t in table())


def call(fn, args):
    tick()
    with warnings.catch_warnings(), np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        try:
            return fn(*args)
        finally:
            plt.close('all')


def show(args):
    return ', '.join(repr(v).replace('\n', ' ')[:80] for v in args)


def f_refuse(case):
    name, k = case
    _n, fn, _ok, bad = TABLE[name]
    try:
        r = call(fn, bad[k])
    except Exception:
        return name
    raise Fail('%s: (%s) is answered with %s' % (name, show(bad[k]), repr(r)[:80]))


def f_accept(case):
    name, k = case
    _n, fn, ok, _bad = TABLE[name]
    try:
        call(fn, ok[k])
    except Exception as e:
        raise Fail('%s: (%s) is refused: %s' % (name, show(ok[k]), e))
    return name


def groups(tier):
    T = table()
    assert len(set(t[0] for t in T)) == len(T)
    ok, bad = cases(T)
    return [Group('refused', bad, f_refuse, chunk=8), Group('accepted', ok, f_accept, chunk=8)]
