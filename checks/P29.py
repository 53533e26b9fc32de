"""P29 Optional arguments: left out, given by name or given by position, they mean the same, documented value."""
import inspect
import itertools
import warnings
import numpy as np
import numpy.random as npr
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from vk import Group, Fail, tick
from ref import require
import wafo.misc as wm
import wafo.polynomial as wp
import wafo.interpolate as wi
import wafo.integrate as wg
import wafo.integrate_oscillating as wo
import wafo.dctpack as wd
import wafo.padua as wpad
import wafo.gaussian as wgs
import wafo.markov as wmk
import wafo.objects as wob
import wafo.spectrum.models as wsm
import wafo.spectrum.core as wsc
from wafo.spectrum import SpecData1D
from wafo.covariance import CovData1D
import wafo.covariance.core as wcc
import wafo.covariance.estimation as wce
import wafo.transform.models as wtm
import wafo.transform.estimation as wte
import wafo.transform.core as wtc
import wafo.kdetools as wk
import wafo.kdetools.kernels as wkk
import wafo.kdetools.gridding as wkg
import wafo.stats as wst
import wafo.stats.core as wsco
import wafo.wave_theory as wwt
import wafo.wave_theory.dispersion_relation as wdr
from wafo.containers import PlotData

PROPERTY = 'P29'
ASSUMPTIONS = ['documented defaults are those of the reference documentation and signatures, transcribed in the table; the power of every '
               'entry is checked: another value of the argument has to give another result where the table names one',
               'generators are seeded identically before each call']

inf, nan = np.inf, np.nan
X = np.array([0.3, 1.2, -0.4, 0.9, -1.1, -0.2, 0.8, -0.6, 1.5, -1.3, 0.1, 0.7, -0.9, 0.2, 1.1, -0.5, -0.1, 0.6, -1.4, 0.4, 1.3, -0.7,
              0.5, -0.3, 0.95, -1.2, 0.15, 1.4, -0.8, 0.05])
Z = np.concatenate([X, -0.9 * X[::-1] + 0.05, X[::2] * 1.1 - X[1::2], 0.5 * X - 0.7 * X[::-1]])
W = np.linspace(0, 3, 65)


def ts(x=Z):
    return wob.TimeSeries(np.array(x, float), np.arange(len(x)) * 0.5)


def tp():
    return ts().turning_points()


def cp():
    return tp().cycle_pairs()


def lc():
    lev = np.arange(-16, 17) * 0.25
    return wob.LevelCrossings(np.round(400 * np.exp(-lev ** 2 / 2)), lev, mean=0.0, sigma=1.0)


def spec(h=inf):
    return SpecData1D(W ** 4 * np.exp(-2.5 * W), W, h=h)


def spec2():
    return wsm.Spreading('cos2s', theta0=0.3).tospecdata2d(wsm.Jonswap(Hm0=4, Tp=6).tospecdata(np.linspace(0, 3, 33)), nt=41)


def acf():
    return CovData1D(np.array([4.0, 2.2, 0.7, -0.3, -0.2, 0.1]), np.arange(6) * 0.5)


def seq(*shape):
    n = int(np.prod(shape))
    return (np.sin(1.7 * np.arange(n)) + 0.3 * np.cos(np.arange(n) ** 2)).reshape(shape)


def pp(**kw):
    return wi.PPform(np.array([[1., 2, 0.5], [0.2, 1, 3]]), np.array([0., 1, 2, 3]), **kw)


class E(object):
    """fn(*req, **opt): opt lists (name, documented default[, other value]) in the documented order; names in nopos are by name only"""
    def __init__(self, name, fn, req, opt, pos=True, light=False):
        self.name, self.fn, self.req, self.opt, self.pos, self.light = name, fn, req, opt, pos, light


def table():
    x9 = np.linspace(-1, 1, 9)
    exps = lambda x: np.exp(-x ** 2)
    pol = [1.0, 2.0, -1.0, 0.5]
    T = []

    def a(name, fn, req, *opt, **kw):
        T.append(E(name, fn, req, [o if isinstance(o, tuple) else (o,) for o in opt], **kw))
    # ---- misc
    a('detrendma', wm.detrendma, lambda: [seq(9, 7), 2], ('axis', 0, 1))
    a('moving_average', wm.moving_average, lambda: [seq(9, 7), 2], ('axis', 0, 1))
    a('discretize', wm.discretize, lambda: [lambda x: np.sin(3 * x), 0, 2], ('tol', 0.005, 0.05), ('n', 5, 12), ('method', 'linear', 'adaptive'))
    T[-1].req = lambda: [lambda x: 1. / x, 0.1, 1.0]
    a('ecross', wm.ecross, lambda: [np.arange(30.0), X, wm.findcross(X, 0.0)], ('v', 0, 0.04))
    a('findcross', wm.findcross, lambda: [X], ('v', 0.0, 0.5), ('kind', None, 'u'), ('method', 'clib'))
    a('findpeaks', wm.findpeaks, lambda: [X], ('n', 2, 4), ('min_h', None, 2.2), ('min_p', 0.0, 0.95))
    T[-1].req = lambda: [np.r_[0, 1, 0.6, 1.4, -2, 3, 0.0, 0.2, -1], 4]
    T[-1].opt = T[-1].opt[1:]
    a('findpeaks (n)', wm.findpeaks, lambda: [X], ('n', 2, 4))
    a('findrfc', wm.findrfc, lambda: [np.r_[0, 1, 0.6, 1.4, -2, 3, 0.0, 0.2, -1]], ('h', 0.0, 0.8), ('method', 'clib'))
    a('findtc', wm.findtc, lambda: [X], ('v', None, 0.45), ('kind', None, 'uw'))
    a('findtp', wm.findtp, lambda: [np.r_[0, 1, 0.6, 1.4, -2, 3, 0.0, 0.2, -1]], ('h', 0.0, 0.8), ('kind', None, 'Mw'), ('method', 'clib'))
    a('rfcfilter', wm.rfcfilter, lambda: [np.r_[0, 1, 0.5, 1.5, -2, 3, 0.0, 0.25, -1], 0.5], ('method', 0, 1))
    a('findoutliers', wm.findoutliers, lambda: [np.round(X, 0)], ('zcrit', 0.0, 1.0), ('dcrit', None, 0.1), ('ddcrit', None, 0.1), ('verbose', False))
    T[-1].req = lambda: [np.round(np.sin(np.arange(30) * 0.4), 3)]
    a('fourier', wm.fourier, lambda: [X], ('t', None, np.linspace(0, 1, 30) ** 2 * 3), ('period', None, 40.0), ('m', None, 5), ('method', 'trapz', 'fft'))
    a('good_bins', wm.good_bins, lambda: [X], ('range', None, (-3, 4)), ('num_bins', None, 25), ('odd', False, True), ('loose', True, False))
    a('gravity', wm.gravity, lambda: [], ('phi', 45, 60))
    a('index2sub', wm.index2sub, lambda: [(3, 4), [1, 5, 7]], ('order', 'C', 'F'))
    a('lazyselect', wm.lazyselect, lambda: [[X > 0.5, X < -0.5], [lambda x: x, lambda x: 2 * x], (X,)], ('default', 0, 7.0))
    a('lazywhere', wm.lazywhere, lambda: [X > 0.5, (X,), lambda x: x ** 2], ('f2', None), pos=False)
    T[-1].fn = lambda *r, **k: wm.lazywhere(*r, fillvalue=3.0, **k)
    a('lfind', lambda *r, **k: list(wm.lfind(*r, **k)), lambda: ['abcabcab', 'b'], ('maxiter', None, 2))
    a('narg_smallest', wm.narg_smallest, lambda: [X], ('n', 1, 3))
    a('num2pistr', wm.num2pistr, lambda: [11 * np.pi / 7], ('n', 3), ('numerator_max', 10, 12))
    a('num2pistr (denominator)', wm.num2pistr, lambda: [7 * np.pi / 13, 3, 10], ('denominator_max', 10, 16))
    a('num2pistr (digits)', wm.num2pistr, lambda: [7 * np.pi / 13], ('n', 3, 6))
    a('piecewise', wm.piecewise, lambda: [[X > 0.5, X < -0.5], [lambda x: x, lambda x: 2 * x], (X,)], ('fillvalue', 0.0, 2.0), ('args', ()))
    a('rotate', wm.rotate, lambda: [1.0, 2.0, 3.0], ('heading', 0, 0.3), ('pitch', 0, 0.4), ('roll', 0, 0.5))
    a('spaceline', wm.spaceline, lambda: [[0, 0, 0], [1, 2, 3.0]], ('num', 10, 7))
    a('trangood', wm.trangood, lambda: [x9, x9 ** 2], ('min_n', None, 15), ('min_x', None, -2.5), ('max_x', None, 2.0), ('max_n', inf, 5))
    a('valarray', wm.valarray, lambda: [(2, 3)], ('value', nan, 3.0), ('typecode', None))
    a('cart2polar', wm.cart2polar, lambda: [1.0, 2.0], ('z', None, 3.0))
    a('polar2cart', wm.polar2cart, lambda: [1.0, 2.0], ('z', None, 3.0))
    # ---- polynomials
    for n, f, r in (('polyshift', wp.polyshift, [pol]), ('polyishift', wp.polyishift, [pol]), ('poly2cheb', wp.poly2cheb, [pol]),
                    ('cheb2poly', wp.cheb2poly, [pol]), ('chebder', wp.chebder, [pol]), ('chebint', wp.chebint, [pol])):
        a(n, f, (lambda r: lambda: list(r))(r), ('a', -1, -2.0), ('b', 1, 3.0))
    a('chebfit', wp.chebfit, lambda: [np.exp], ('n', 10, 6), ('a', -1, -2.0), ('b', 1, 3.0), ('trace', False))
    a('chebfit_dct', wp.chebfit_dct, lambda: [np.exp], ('n', (10,), (6,)), ('domain', None, (-1, 2)), ('args', ()))
    a('chebinterpolate', wp.chebinterpolate, lambda: [lambda x, *u: np.exp(x) + sum(u), 6], ('args', (), (2.0,)), ('domain', None, (-1, 2)))
    a('chebroot', wp.chebroot, lambda: [5], ('kind', 1, 2))
    a('chebpoly', wp.chebpoly, lambda: [4], ('x', None, x9), ('kind', 1, 2))
    a('chebval', wp.chebval, lambda: [np.r_[x9 * 0.9, 4.0], pol], ('a', -1, -2.0), ('b', 1, 3.0), ('kind', 1, 2), ('fill', None, -7.0))
    a('cheb idct', wp.idct, lambda: [np.array(pol)], ('n', None, 6))
    a('padefit', lambda *r, **k: [np.asarray(p.coeffs) for p in wp.padefit(*r, **k)], lambda: [[1 / 24., 1 / 6., .5, 1, 1]], ('m', None, 1))
    a('padefitlsq', lambda *r, **k: [np.asarray(q.coeffs) for q in wp.padefitlsq(*r, **k)], lambda: [np.exp, 2, 2], ('a', -1, 0.0), ('b', 1, 2.0), ('trace', False), ('x', None, np.linspace(-1, 1, 30)), ('end_points', True, False))
    a('poly2hstr', wp.poly2hstr, lambda: [pol], ('variable', 'x', 't'))
    a('poly2str', wp.poly2str, lambda: [pol], ('variable', 'x', 't'))
    a('polyder', wp.polyder, lambda: [pol], ('m', 1, 2))
    a('polyint', wp.polyint, lambda: [pol], ('m', 1, 2), ('k', None, 3.0))
    a('polyreloc', wp.polyreloc, lambda: [pol, 0.5], ('y', 0, 2.0))
    a('polyrescl', wp.polyrescl, lambda: [pol, 0.5], ('y', 1.0, 2.0))
    a('Cheb1d', lambda *r, **k: (lambda c: (c(x9 * 0.9), c.a, c.b, c.kind))(wp.Cheb1d(*r, **k)), lambda: [np.array(pol)], ('a', -1, -2.0), ('b', 1, 3.0), ('kind', 1, 2))
    c1 = lambda: wp.Cheb1d(np.array(pol))
    a('Cheb1d.deriv', lambda *r, **k: c1().deriv(*r, **k)(x9), lambda: [], ('m', 1, 2))
    a('Cheb1d.integ', lambda *r, **k: c1().integ(*r, **k)(x9), lambda: [], ('m', 1, 2))
    # ---- interpolation
    a('SmoothSpline', lambda *r, **k: wi.SmoothSpline(*r, **k)(np.linspace(-1.5, 1.5, 13)), lambda: [x9, seq(9)], ('p', None, 0.5), ('lin_extrap', True, False), ('var', 1, 4.0))
    xq = np.linspace(-0.95, 0.95, 11)
    a('Stineman', lambda *r, **k: wi.StinemanInterp(*r, **k)(xq), lambda: [x9, seq(9)], ('yp', None, seq(9)), ('method', 'stineman', 'parabola'), ('monotone', False, True), ('scale', False))
    a('CubicHermite', lambda *r, **k: wi.CubicHermiteSpline(*r, **k)(xq), lambda: [x9, seq(9)], ('yp', None, seq(9)), ('method', 'Catmull-Rom', 'stineman'))
    a('Pchip', lambda *r, **k: wi.Pchip(*r, **k)(xq), lambda: [x9, np.cumsum(abs(seq(9)))], ('yp', None, 0.1 + 0 * x9), ('method', 'pchip', 'secant'))
    a('PPform', lambda *r, **k: wi.PPform(*r, **k)(np.linspace(-1, 4, 11)), lambda: [np.array([[1., 2, 0.5], [0.2, 1, 3]]), np.array([0., 1, 2, 3])], ('fill', 0.0, -2.0),
      ('sort', False), ('a', None, 0.7), ('b', None, 2.2))
    a('savitzky_golay', wi.savitzky_golay, lambda: [X, 7, 3], ('deriv', 0, 1))
    a('savitzky_golay_piecewise', wi.savitzky_golay_piecewise, lambda: [np.arange(60.0), np.r_[X, X]], ('kernel', 11, 7), ('order', 4, 2))
    a('slopes', wi.slopes, lambda: [x9 * 12, seq(9)], ('method', 'stineman', 'cardinal'), ('tension', 0), ('monotone', False, True), ('scale', False))
    a('slopes (cardinal)', wi.slopes, lambda: [x9, seq(9), 'cardinal'], ('tension', 0, 0.5), ('monotone', False, True), ('scale', False))
    a('stineman_interp', wi.stineman_interp, lambda: [xq, x9, seq(9)], ('yp', None, seq(9)))
    a('interp3', wi.interp3, lambda: [np.arange(5.), np.arange(5.), np.arange(5.), seq(5, 5, 5), np.r_[0.5, 1.5], np.r_[0.5, 2.5], np.r_[0.3, 1.1]], ('method', 'cubic', 'linear'))
    # ---- quadrature
    a('clencurt', wg.clencurt, lambda: [lambda x: np.exp(3 * x), 0, 2], ('n', 5, 2), ('trace', False))
    a('romberg', wg.romberg, lambda: [lambda x: np.exp(3 * x) * np.sin(9 * x), 0, 2], ('releps', 1e-3, 1e-12), ('abseps', 1e-3, 20.0))
    a('h_roots', wg.h_roots, lambda: [5], ('method', 'newton'))
    a('la_roots', wg.la_roots, lambda: [5], ('alpha', 0, 0.5), ('method', 'newton'))
    a('j_roots', wg.j_roots, lambda: [5, 0.5, 0.2], ('method', 'newton'))
    a('p_roots', wg.p_roots, lambda: [5], ('method', 'newton'), ('a', -1, 0.0), ('b', 1, 3.0))
    a('qrule', wg.qrule, lambda: [5], ('wfun', 1, 2), ('alpha', 0), ('beta', 0))
    a('qrule (jacobi)', wg.qrule, lambda: [5, 4], ('alpha', 0, 0.5), ('beta', 0, 0.3))
    a('gaussq', lambda *r, **k: wg.gaussq(*r, **k), lambda: [lambda x: np.exp(x) * np.sin(9 * x), 0.0, 2.0], ('wfun', 1, 5), ('alpha', 0), ('beta', 0), pos=False)
    a('quadgr', wg.quadgr, lambda: [lambda x: np.sqrt(x) * np.sin(9 * x), 0.0, 2.0], ('abseps', 1e-5, 1e-2), ('max_iter', 17, 2), pos=False)
    f, g, dg = (lambda x: 1 / (1 + x ** 2)), (lambda x: x + 0.2 * x ** 2), (lambda x: 1 + 0.4 * x)
    for cls, s in ((wo.QuadOsc, 15), (wo.EvansWebster, 8)):
        o = [('dg', None, dg), ('a', -1, -0.5), ('b', 1, 2.0), ('basis', wo.chebyshev_basis), ('s', s, 3), ('precision', 10), ('endpoints', False, True),
             ('full_output', False, True)] + ([('maxiter', 17, 2)] if cls is wo.QuadOsc else [])
        if cls is wo.QuadOsc:
            o[6] = ('endpoints', False)
            o[0], o[4], o[8] = ('dg', None), ('s', 15), ('maxiter', 17)
        else:
            o[0], o[4], o[6] = ('dg', None), ('s', 8, 1), ('endpoints', False)
        a(cls.__name__, (lambda cls: lambda *r, **k: list(np.atleast_1d(np.asarray(cls(*r, **k)(20.0), object)))[:2])(cls), lambda: [f, g], *o, light=True)
    for n in ('chebyshev_roots', 'chebyshev_extrema', 'tanh_sinh_nodes', 'tanh_sinh_open_nodes'):
        a(n, getattr(wo, n), lambda: [7], ('delta', None))
    # ---- transforms
    for n in ('dct', 'idct', 'dst', 'idst'):
        a(n, getattr(wd, n), lambda: [seq(4, 6)], ('type', 2, 3), ('n', None, 5), ('axis', -1, 0), ('norm', 'ortho', None))
    for n in ('dctn', 'idctn', 'dstn', 'idstn'):
        a(n, getattr(wd, n), lambda: [seq(4, 6)], ('type', 2, 3), ('shape', None, (3, 5)), ('axes', None, (0,)), ('norm', 'ortho', None))
    a('shiftdim', wd.shiftdim, lambda: [seq(2, 3, 4)], ('n', None, 2))
    dom = (0.0, 2.0, -1.0, 3.0)
    co = lambda: wpad.padua_fit(wpad.padua_points(4), lambda x, y: np.exp(x + 0.5 * y))[0]
    a('padua_points', wpad.padua_points, lambda: [4], ('domain', (-1, 1, -1, 1), dom))
    a('padua_cubature', wpad.padua_cubature, lambda: [co()], ('domain', (-1, 1, -1, 1), dom))
    a('padua_val', wpad.padua_val, lambda: [np.r_[0.1, 0.5, -0.3], np.r_[0.2, -0.4, 0.8], co()], ('domain', (-1, 1, -1, 1), dom), ('use_meshgrid', False, True))
    # ---- Gaussian probabilities
    C3 = [[1, .3, .2], [.3, 1, .4], [.2, .4, 1]]
    a('prbnormndpc', wgs.prbnormndpc, lambda: [[0.4, 0.6, 0.8], [-1, -2, -1.], [1, 2, 0.5]], ('abserr', 1e-4, 0.2), ('relerr', 1e-4), ('usesimpson', True, False), ('usebreakpoints', False, True))
    T[-1].opt[0], T[-1].opt[3] = ('abserr', 1e-4), ('usebreakpoints', False)
    a('prbnormtndpc', wgs.prbnormtndpc, lambda: [np.r_[0.4, 0.6, 0.8], np.r_[-1, -2, -1.], np.r_[1, 2, 0.5]], ('d', None, np.r_[0.5, 0, 0]), ('df', 0, 4), ('abseps', 1e-4), ('ierc', 0), ('hnc', 0.24))
    # ---- Markov
    M = lambda: np.array([[0., 3, 2, 1], [0, 0, 4, 2], [0, 0, 0, 5], [0, 0, 0, 0]])
    a('nt2cmat', wmk.nt2cmat, lambda: [wmk.cmat2nt(M())], ('kind', 1))
    a('cmat2nt', wmk.cmat2nt, lambda: [M()], ('kind', 1))
    a('nt2fr', wmk.nt2fr, lambda: [wmk.cmat2nt(M())], ('kind', 0, 1))
    a('mktestmat', wmk.mktestmat, lambda: [], ('param', (-1, 1, 32), (-2, 1, 8)), ('x0', None, [0.2, 0.1]), ('s', None, 0.7), ('lam', 1, 2.0), ('numsubzero', 0, 2))
    # ---- records, cycles, crossings
    a('turning_points', lambda *r, **k: ts().turning_points(*r, **k), lambda: [], ('h', 0.0, 1.0), ('wavetype', None, 'mw'))
    a('trough_crest', lambda *r, **k: ts().trough_crest(*r, **k), lambda: [], ('v', None, 0.3), ('wavetype', None, 'uw'))
    a('wave_periods', lambda *r, **k: ts().wave_periods(*r, **k), lambda: [], ('vh', None, 0.3), ('pdef', 'd2d', 'u2u'), ('wdef', None, 'uw'), ('index', None), ('rate', 1, 4))
    a('wave_parameters', lambda *r, **k: ts().wave_parameters(*r, **k), lambda: [], ('rate', 1, 4))
    a('wave_height_steepness', lambda *r, **k: ts().wave_height_steepness(*r, **k), lambda: [], ('kind', 'Vcf', 'Vcb'), ('rate', 1, 4), ('g', None))
    a('wave_height_steepness (g)', lambda *r, **k: ts().wave_height_steepness(*r, **k), lambda: [2, 1], ('g', None, 5.0))
    a('tocovdata', lambda *r, **k: ts().tocovdata(*r, **k), lambda: [10], ('tr', None, wtm.TrHermite(mean=0.1, sigma=1.2, skew=.2, kurt=3.3)), ('detrend', wob.detrend_mean),
      ('window', 'boxcar', 'parzen'), ('flag', 'biased', 'unbiased'), ('norm', False, True), ('dt', None, 0.25))
    a('tospecdata', lambda *r, **k: ts().tospecdata(*r, **k), lambda: [10], ('tr', None, wtm.TrHermite(mean=0.1, sigma=1.2, skew=.2, kurt=3.3)), ('method', 'cov', 'psd'),
      ('detrend', wob.detrend_mean), ('window', 'parzen', 'hann'), ('noverlap', 0), ('ftype', 'w', 'f'), ('alpha', None, 0.1), light=True)
    a('tospecdata (psd)', lambda *r, **k: ts().tospecdata(10, method='psd', *r, **k), lambda: [], ('window', 'parzen', 'hann'), ('noverlap', 0, 5), ('ftype', 'w', 'f'), ('alpha', None, 0.1), pos=False)
    a('trdata', lambda *r, **k: (lambda g: (g[0].data, g[1].data))(ts().trdata(*r, **k)), lambda: [], ('method', 'nonlinear', 'mnonlinear'))
    a('cycle_pairs', lambda *r, **k: tp().cycle_pairs(*r, **k), lambda: [], ('h', 0, 1.0), ('kind', 'min2max', 'max2min'), ('method', 'clib'))
    a('rainflow_filter', lambda *r, **k: tp().rainflow_filter(*r, **k), lambda: [], ('h', 0.0, 1.0), ('method', 'clib'))
    a('damage', lambda *r, **k: cp().damage(*r, **k), lambda: [[3.0, 5.0]], ('K', 1, 2.0))
    a('level_crossings', lambda *r, **k: cp().level_crossings(*r, **k), lambda: [], ('kind', 'uM', 'um'), ('intensity', False, True))
    a('cycle_matrix', lambda *r, **k: cp().cycle_matrix(*r, **k), lambda: [(-2, 2, 9)], ('ddef', 1, 0), ('method', 0, 1), ('h', None), ('NOsubzero', 0), ('alpha', 0.5))
    a('extrapolate', lambda *r, **k: lc().extrapolate(*r, **k), lambda: [], ('u_min', None, -1.0), ('u_max', None, 1.0), ('method', 'ml', 'mps'), ('dist', 'genpar', 'expon'), ('plotflag', 0), light=True)
    a('lc.sim', lambda *r, **k: (npr.seed(3), lc().sim(*r, **k))[1], lambda: [20, 0.7], )
    # ---- spectra
    for c, o in (('Bretschneider', [('Hm0', 7.0, 4.0), ('Tp', 11.0, 8.0), ('N', 5, 6), ('M', 4, 3), ('chk_seastate', True)]),
                 ('Jonswap', [('Hm0', 7.0, 4.0), ('Tp', 11.0, 8.0), ('gamma', None, 2.0), ('sigmaA', .07, .05), ('sigmaB', .09, .12), ('Ag', None, .4), ('N', 5, 6), ('M', 4, 3),
                              ('method', 'integration', 'parametric'), ('wnc', 6.0, 3.0), ('chk_seastate', True)]),
                 ('McCormick', [('Hm0', 7, 4.0), ('Tp', 11, 8.0), ('Tz', None, 8.0), ('M', None, 3.0), ('chk_seastate', True)]),
                 ('OchiHubble', [('Hm0', 7, 4.0), ('par', 1, 2), ('chk_seastate', True)]),
                 ('Tmaspec', [('Hm0', 7.0, 4.0), ('Tp', 11.0, 8.0), ('gamma', None, 2.0), ('sigmaA', .07, .05), ('sigmaB', .09, .12), ('Ag', None, .4), ('N', 5, 6), ('M', 4, 3),
                              ('method', 'integration', 'parametric'), ('wnc', 6.0, 3.0), ('chk_seastate', True), ('h', 42, 20.0), ('g', 9.81, 5.0)]),
                 ('Torsethaugen', [('Hm0', 7, 4.0), ('Tp', 11, 8.0), ('method', 'integration', 'parametric'), ('wnc', 6, 3.0), ('gravity', 9.81, 7.0), ('chk_seastate', True)]),
                 ('Wallop', [('Hm0', 7, 4.0), ('Tp', 11, 8.0), ('N', None, 6), ('chk_seastate', True)])):
        a(c, (lambda c: lambda *r, **k: getattr(wsm, c)(*r, **k)(np.linspace(0, 3, 40)))(c), lambda: [], *o, light=len(o) > 6)
    a('model.tospecdata', lambda *r, **k: wsm.Bretschneider().tospecdata(*r, **k), lambda: [], ('w', None, W), ('wc', None, 2.0), ('nw', 257, 65))
    th = np.linspace(-np.pi, np.pi, 61)
    for m in ('cos-2s', 'poisson', 'wrap_norm', 'mises', 'sech2', 'box'):
        a('Spreading ' + m, (lambda m: lambda *r, **k: wsm.Spreading(m)(*r, **k))(m), lambda: [th], ('w', 1, 1.7), ('wc', 1, 0.6))
    wv = np.linspace(0.2, 3, 7)
    a('Spreading()', lambda *r, **k: wsm.Spreading(*r, **k)(th, wv, 0.8), lambda: [], ('type', 'cos-2s', 'poisson'), ('theta0', 0, 0.5), ('method', 'mitsuyasu', 'donelan'),
      ('s_a', 15.0, 8.0), ('s_b', 15.0, 9.0), ('m_a', 5.0, 4.0), ('m_b', -2.5, -1.5), ('wn_lo', 0.0, 0.7), ('wn_c', 1.0), ('wn_up', inf, 2.0), light=True)
    a('tospecdata2d', lambda *r, **k: wsm.Spreading().tospecdata2d(*r, **k), lambda: [wsm.Bretschneider().tospecdata(np.linspace(0, 2, 17))], ('theta', None, th), ('wc', 0.52, 0.7), ('nt', 51, 45))
    a('jonswap_seastate', wsm.jonswap_seastate, lambda: [10.0], ('fetch', 150000.0, 1e5), ('method', 'lewis', 'hasselman73'), ('g', 9.81, 5.0), ('output', 'dict', 'list'))
    a('phi1', wsm.phi1, lambda: [wv, 20.0], ('g', 9.81, 5.0))
    a('bandwidth', lambda *r, **k: spec().bandwidth(*r, **k), lambda: [], ('factors', 0, [1, 2]))
    a('characteristic', lambda *r, **k: spec().characteristic(*r, **k), lambda: [], ('fact', 'Hm0', 'Tm02'), ('T', 1200, 600.0), ('g', 9.81, 5.0))
    T[-1].opt = [('fact', 'Hm0', 'Tm02'), ('T', 1200), ('g', 9.81)]
    a('characteristic (all)', lambda *r, **k: spec().characteristic(*r, **k), lambda: [list(range(15))], ('T', 1200, 600.0), ('g', 9.81, 5.0))
    a('moment', lambda *r, **k: spec().moment(*r, **k), lambda: [], ('nr', 2, 4), ('even', True, False), ('j', 0, 1))
    a('resample', lambda *r, **k: (lambda s: (s.resample(*r, **k), s.data, s.args)[1:])(spec()), lambda: [], ('dt', None, 0.5), ('Nmin', 0, 200), ('Nmax', 8193, 30), ('method', 'stineman', 'linear'))
    T[-1].opt = [('dt', None, 0.5), ('Nmin', 0, 200), ('Nmax', 8193), ('method', 'stineman')]
    a('sim', lambda *r, **k: spec().sim(*r, **k), lambda: [40], ('cases', 1, 3), ('dt', None, 0.5), ('iseed', None, 5), ('method', 'random', 'exact'), ('derivative', False, True))
    a('sim_nl', lambda *r, **k: spec().sim_nl(*r, **k), lambda: [40], ('cases', 1, 3), ('dt', None, 0.5), ('iseed', None, 5), ('method', 'random', 'apdeterministic'),
      ('fnlimit', 2 ** .5, 0.5), ('reltol', 1e-3, 0.3), ('g', 9.81, 5.0), ('verbose', False), ('output', 'timeseries', 'matrix'), light=True)
    a('stats_nl', lambda *r, **k: spec(30.0).stats_nl(*r, **k), lambda: [], ('h', None, 12.0), ('moments', 'sk', 'mvsk'), ('method', 'approximate'), ('g', 9.81, 5.0))
    a('normalize', lambda *r, **k: (lambda s: (s.normalize(*r, **k), s.data, s.args)[1:])(spec()), lambda: [], ('gravity', 9.81))
    a('spec.tocovdata', lambda *r, **k: (lambda c: (c.data, c.args) + tuple(getattr(c, n) for n in ('Rx', 'Rxt', 'Rt', 'Rtt') if hasattr(c, n)))(spec().tocovdata(*r, **k)), lambda: [], ('nr', 0, 2), ('nt', None, 12), ('rate', None, 4))
    a('tocov_matrix', lambda *r, **k: spec().tocov_matrix(*r, **k), lambda: [], ('nr', 0, 2), ('nt', None, 12), ('dt', None, 0.5))
    a('spec2.moment', lambda *r, **k: spec2().moment(*r, **k), lambda: [], ('nr', 2, 4), ('vari', 'xt', 'xyt'))
    a('qtf', wsc.qtf, lambda: [wv], ('h', inf, 30.0), ('g', 9.81, 5.0), ('method', 'winterstein'), ('rtol', 1e-7), ('atol', 0))
    a('to_t_pdf', lambda *r, **k: (lambda f: (f.data, f.args))(spec().to_t_pdf(paramt=(0, 8, 9), seed=1, *r, **k)), lambda: [], ('u', None, 0.1), ('kind', 'Tc', 'Tt'), pos=False)
    T[-1].opt = [('u', None, 0.1), ('kind', 'Tc')]
    mm = dict(paramt=(0, 0, 0), paramu=(-0.6, 0.6, 9))
    a('to_mm_pdf', lambda *r, **k: (lambda f: (f.data, f.args))(spec().to_mm_pdf(paramt=(0, 7, 8), paramu=(-.6, .6, 7), *r, **k)), lambda: [], ('utc', None), ('nit', 2, 0), ('EPS', 5e-5), ('EPSS', 1e-6),
      ('C', 4.5), ('EPS0', 1e-5), ('IAC', 1), ('ISQ', 0), ('verbose', False), pos=False, light=True)
    # ---- covariance
    a('cov.sim', lambda *r, **k: acf().sim(*r, **k), lambda: [9], ('cases', 1, 3), ('dt', None), ('iseed', None, 5), ('derivative', False, True))
    a('cov.tospecdata', lambda *r, **k: acf().tospecdata(*r, **k), lambda: [], ('rate', None, 4), ('method', 'fft', 'linear'), ('nugget', 0.0, 0.3), ('trunc', 1e-5, 0.6), ('fast', True, False))
    T[-1].opt[1], T[-1].opt[3], T[-1].opt[4] = ('method', 'fft'), ('trunc', 1e-5), ('fast', True)
    xo = np.r_[0.5, nan, 1.0, -0.3, nan, nan, 0.2, 0.6, 0.1, nan, -0.5]
    a('simcond', lambda *r, **k: [np.asarray(v) for v in acf().simcond(*r, **k)], lambda: [xo], ('method', 'approx', 'exact'), ('i_unknown', None))
    T[-1].opt[0] = ('method', 'approx')
    a('rndnormnd', wcc.rndnormnd, lambda: [[0., 1, 2], np.array(C3)], ('cases', 1, 4))
    a('CovarianceEstimator', lambda *r, **k: wce.CovarianceEstimator(*r, **k)(ts()), lambda: [10], ('tr', None), ('detrend', None), ('window', 'boxcar', 'parzen'), ('flag', 'biased', 'unbiased'), ('norm', False, True), ('dt', None, .25))
    # ---- transformations
    for c, s in (('TrHermite', {}), ('TrOchi', {}), ('TrLinear', {})):
        cls = getattr(wtm, c)
        o = [('mean', 0.0, 0.5)] + ([('var', 1.0, 2.0)] if c == 'TrLinear' else [('var', 1, 2.0), ('skew', 0.16, 0.1), ('kurt', 3.04, 3.2)])
        if c == 'TrOchi':
            o[3] = ('kurt', 3.04)
        a(c, (lambda cls: lambda *r, **k: (lambda g: (g.dat2gauss(x9), g.gauss2dat(x9)))(cls(*r, **k)))(cls), lambda: [], *o)
    g0 = lambda: wtm.TrHermite(skew=.2, kurt=3.3)
    a('dist2gauss', lambda *r, **k: g0().dist2gauss(*r, **k), lambda: [], ('x', None, x9), ('xnmin', -5, -3.0), ('xnmax', 5, 4.0), ('n', 513, 65))
    a('tr.trdata', lambda *r, **k: (lambda t: (t.data, t.args))(g0().trdata(*r, **k)), lambda: [], ('x', None, x9), ('xnmin', -5, -3.0), ('xnmax', 5, 4.0), ('n', 513, 65))
    a('TransformEstimator', lambda *r, **k: [np.asarray(v.data) for v in lc().trdata(*r, **k)], lambda: [],
      ('chkder', True), ('plotflag', False), ('csm', 0.95, 0.3), ('gsm', 0.05, 0.6), ('param', (-5, 5, 513), (-4, 4, 65)), ('delay', 2), ('ntr', 10000),
      ('linextrap', True, False), ('ne', 7, 4), ('cvar', 1, 5.0), ('gvar', 1, 5.0), pos=False, light=True)
    T[-1].opt = [o if o[0] not in ('csm', 'cvar') else o[:2] for o in T[-1].opt]
    # ---- kernel methods
    d1 = np.r_[0.2, 1.0, 1.7, 2.0, 3.1, 4.2]
    for c, o in (('KDE', []), ('TKDE', [('L2', None, 0.5)])):
        a(c, (lambda c: lambda *r, **k: (lambda q: (q.eval_grid(), q.args, q.hs))(getattr(wk, c)(*r, **k)))(c), lambda: [d1], ('hs', None, 0.8), ('kernel', None, wkk.Kernel('epan')),
          ('alpha', 0.0, 0.5), ('xmin', None, -3.0 if c == 'KDE' else 0.1), ('xmax', None, 9.0), ('inc', 512, 64), *o, light=True)
    yk = np.r_[1., 3, 2, 0, 4, 1]
    a('KRegression', lambda *r, **k: (lambda p: (p.data, p.args))(wk.KRegression(*r, **k)(output='plot')), lambda: [d1, yk], ('p', 0, 1), ('hs', None, 0.8), ('kernel', None, wkk.Kernel('epan')), ('alpha', 0.0),
      ('xmin', None, -3.0), ('xmax', None, 9.0), ('inc', 128, 64), ('L2', None), light=True)
    y01 = np.r_[0, 0, 1, 0, 1, 1]
    a('BKRegression', lambda *r, **k: (lambda q: (q.prb_empirical(xi=np.linspace(0, 5, 6)).dataCI, q.prb_ci(np.r_[3., 5], np.r_[.2, .5])))(wk.BKRegression(hs_e=1.0, hs=.7, *r, **k)), lambda: [d1, y01],
      ('method', 'beta', 'wilson'), ('a', 0.05, 0.5), ('b', 0.05, 0.5), pos=False)
    bk = lambda: wk.BKRegression(d1, y01, hs_e=1.0, hs=0.7)
    a('prb_ci', lambda *r, **k: bk().prb_ci(*r, **k), lambda: [np.r_[3., 5], np.r_[.2, .5]], ('alpha', 0.05, 0.2))
    a('Kernel', lambda *r, **k: wkk.Kernel(*r, **k).get_smoothing(d1), lambda: ['gauss'], ('fun', 'hste', 'hns'))
    kk = lambda: wkk.Kernel('gauss')
    a('hisj', lambda *r, **k: kk().hisj(*r, **k), lambda: [np.sin(np.arange(60) ** 2) * 2], ('inc', 512, 128), ('L', 7, 5))
    a('hldpi', lambda *r, **k: kk().hldpi(*r, **k), lambda: [d1], ('L', 2, 3), ('inc', 128, 64))
    a('hscv', lambda *r, **k: kk().hscv(*r, **k), lambda: [d1], ('hvec', None, [0.5, 0.6, 0.7]), ('inc', 128), ('maxit', 100), ('fulloutput', False))
    for n in ('hste', 'hstt'):
        a(n, (lambda n: lambda *r, **k: getattr(kk(), n)(*r, **k))(n), lambda: [d1], ('h0', None), ('inc', 128, 64), ('maxit', 100, 1), ('releps', 0.01, 0.5), ('abseps', 0.0, 0.5))
    T[-1].opt = [o[:2] if o[0] in ('releps', 'abseps') else o for o in T[-1].opt]
    T[-2].opt = [o[:2] if o[0] in ('releps', 'abseps') else o for o in T[-2].opt]
    a('norm_factor', lambda *r, **k: wkk.Kernel('epan').norm_factor(*r, **k), lambda: [], ('d', 1, 2), ('n', None))
    a('iqrange', wkk.iqrange, lambda: [seq(5, 4)], ('axis', None, 0))
    z2 = np.exp(-np.linspace(-3, 3, 61) ** 2)
    a('qlevels', wkk.qlevels, lambda: [z2], ('p', (10, 30, 50, 70, 90, 95, 99, 99.9), (20, 40)), ('xi', (), (np.linspace(0, 1, 61) ** 2,)), ('indexing', 'xy'))
    a('sphere_volume', wkk.sphere_volume, lambda: [3], ('r', 1.0, 2.0))
    am = np.array([0, 1, 0, 2, 1, 4])
    a('accum', wkg.accum, lambda: [am, yk], ('func', None, np.max), ('shape', None, [7]), ('fill_value', 0, -1), ('dtype', None, int))
    T[-1].opt = [o if o[0] != 'dtype' else o[:2] for o in T[-1].opt]
    a('accumsum', wkg.accumsum, lambda: [am, yk], ('shape', None, [7]))
    a('gridcount', wkg.gridcount, lambda: [d1, np.linspace(0, 5, 6)], ('y', 1, yk))
    # ---- statistics
    d2 = np.abs(np.r_[X, 1.7 * X[::-1], X[::3] * 2, X * 1.3])
    a('findpot', wsco.findpot, lambda: [d2, None, 0.7], ('tmin', 1, 4))
    a('decluster', wsco.decluster, lambda: [d2, None, 0.7], ('tmin', 1, 4))
    a('findpot (t)', wsco.findpot, lambda: [d2], ('t', None, np.arange(len(d2)) * 0.5), pos=False)
    T[-1].fn = lambda *r, **k: wsco.findpot(*r, thresh=0.7, **k)
    a('reslife', lambda *r, **k: (lambda m: (m.data, m.args))(wsco.reslife(*r, **k)), lambda: [d2], ('u', None, np.r_[0.2, 0.5, 1.0]), ('umin', None, 0.3), ('umax', None, 1.5), ('nu', None, 7), ('nmin', 3, 20),
      ('alpha', 0.05), ('plotflag', False))
    a('dispersion_idx', lambda *r, **k: (lambda m: (m[0].data, m[0].args, m[1:]))(wsco.dispersion_idx(*r, **k)), lambda: [d2], ('t', None, np.arange(len(d2)) * 0.5), ('u', None, np.r_[0.2, 0.5, 1.0]), ('umin', None, .3),
      ('umax', None, 1.2), ('nu', None, 7), ('nmin', 10, 30), ('tb', 1, 7), ('alpha', .05), ('plotflag', False), light=True)
    a('edf', lambda *r, **k: (lambda m: (m.data, m.args))(wsco.edf(*r, **k)), lambda: [d1], ('method', 2, 1))
    a('edfcnd', lambda *r, **k: (lambda m: (m.data, m.args))(wsco.edfcnd(*r, **k)), lambda: [d1], ('c', None, 1.5), ('method', 2, 1))
    a('returnperiod2sf', wsco.returnperiod2sf, lambda: [[10., 100.]], ('num_events_per_unit', 1, 30))
    T[-1].opt = [(n, 1, 30) for n in list(inspect.signature(wsco.returnperiod2sf).parameters)[1:2]]
    a('sf2returnperiod', wsco.sf2returnperiod, lambda: [[.1, .01]], ('numevents_per_unit', 1, 30))
    T[-2].opt = [('numevents_per_unit', 1, 30)]
    for n, sh in (('norm', ()), ('expon', ()), ('gumbel_r', ()), ('genpareto', (0.2,)), ('weibull_min', (1.7,)), ('truncrayleigh', (0.5,)), ('lognorm', (0.5,)), ('gamma', (2.0,))):
        for m in ('pdf', 'cdf', 'sf', 'ppf', 'isf', 'logpdf', 'logcdf', 'logsf'):
            a('%s.%s' % (n, m), (lambda n, m: lambda *r, **k: getattr(getattr(wst, n), m)(*r, **k))(n, m), (lambda sh: lambda: [np.r_[0.3, 0.7]] + list(sh))(sh), ('loc', 0, 0.1), ('scale', 1, 2.0))
        a('%s.stats' % n, (lambda n: lambda *r, **k: getattr(wst, n).stats(*r, **k))(n), (lambda sh: lambda: list(sh))(sh), ('loc', 0, 0.1), ('scale', 1, 2.0), ('moments', 'mv', 'mvsk'))
        a('%s.rvs' % n, (lambda n: lambda *r, **k: getattr(wst, n).rvs(*r, **k))(n), (lambda sh: lambda: list(sh))(sh), ('loc', 0, 0.1), ('scale', 1, 2.0), ('size', None, 5))
    fit = lambda: wst.weibull_min.fit2(np.array(d1) + 0.1, floc=0)
    a('ci_sf', lambda *r, **k: fit().ci_sf(*r, **k), lambda: [[0.2]], ('alpha', 0.05, 0.2), ('i', 2, 0))
    a('ci_logsf', lambda *r, **k: fit().ci_logsf(*r, **k), lambda: [[-1.5]], ('alpha', 0.05, 0.2), ('i', 2, 0))
    a('ci_quantile', lambda *r, **k: fit().ci_quantile(*r, **k), lambda: [[4.0]], ('alpha', 0.05, 0.2), ('i', 2))
    # ---- waves
    a('k2w', wdr.k2w, lambda: [wv], ('k2', 0.0, 0.3), ('h', inf, 10.0), ('g', 9.81, 5.0), ('u1', 0.0, 0.5), ('u2', 0.0, 0.5))
    T[-1].opt = [o if o[0] != 'u2' else o[:2] for o in T[-1].opt]
    a('k2w (2d)', wdr.k2w, lambda: [wv, 0.3], ('h', inf, 10.0), ('g', 9.81, 5.0), ('u1', 0.0, 0.5), ('u2', 0.0, 0.5))
    a('w2k', wdr.w2k, lambda: [wv], ('theta', 0.0, 0.4), ('h', inf, 10.0), ('g', 9.81, 5.0), ('count_limit', 100), ('rtol', 1e-7), ('atol', 1e-14))
    a('wave_pressure', wwt.core.wave_pressure, lambda: [np.r_[-5., -1], 3.0], ('h', 10000, 12.0), ('g', 9.81, 5.0), ('rho', 1028, 1000.0))
    tf = lambda *r, **k: [np.asarray(v) for v in wwt.core.TransferFunction(*r, **k).tran(wv, np.r_[0, 0.5])]
    a('TransferFunction', tf, lambda: [], ('pos', (0, 0, 0), (1.0, 2.0, -1.0)), ('sensortype', 'n', 'p'), ('h', inf, 20.0), ('g', 9.81, 5.0), ('rho', 1028, 1000.0), ('bet', 1, -1), ('igam', 1, 2),
      ('thetax', 90, 30.0), ('thetay', 0, 20.0), light=True)
    T[-1].opt = [o if o[0] in ('pos', 'sensortype') else o[:2] for o in T[-1].opt]
    tf2 = lambda *r, **k: [np.asarray(v) for v in wwt.core.TransferFunction((1., 2., -3.), 'p', 20.0, **k).tran(wv, np.r_[0, 0.5])]
    a('TransferFunction (pressure)', tf2, lambda: [], ('g', 9.81, 5.0), ('rho', 1028, 1000.0), ('bet', 1, -1), pos=False)
    tf1 = lambda *r, **k: [np.asarray(v) for v in wwt.core.TransferFunction((1., 2., -3.), 'p', *r, **k).tran(wv, np.r_[0, 0.5])]
    a('TransferFunction (depth)', tf1, lambda: [], ('h', inf, 20.0), ('g', 9.81, 5.0), ('rho', 1028, 1000.0))
    tf3 = lambda *r, **k: [np.asarray(v) for v in wwt.core.TransferFunction((1., 2., -3.), 'n_x', 20.0, **k).tran(wv, np.r_[0, 0.5])]
    a('TransferFunction (slope)', tf3, lambda: [], ('bet', 1, -1), ('igam', 1, 2), ('thetax', 90, 30.0), pos=False)
    tf4 = lambda *r, **k: [np.asarray(v) for v in wwt.core.TransferFunction((1., 2., -3.), 'v', 20.0, **k).tran(wv, np.r_[0, 0.5])]
    a('TransferFunction (velocity)', tf4, lambda: [], ('bet', 1), ('igam', 1, 3), ('thetax', 90), ('thetay', 0, 20.0), pos=False)
    a('tran', lambda *r, **k: [np.asarray(v) for v in wwt.core.TransferFunction((1., 2., -3.), 'p', 20.0).tran(*r, **k)], lambda: [wv], ('theta', 0, 0.5), ('kw', None, wv ** 2 / 9.0))
    return T


def differ(a, b, path=''):
    """first difference between two results, or '' """
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%s: %d and %d values' % (path, len(a), len(b))
        for i, (u, v) in enumerate(zip(a, b)):
            d = differ(u, v, '%s[%d]' % (path, i))
            if d:
                return d
        return ''
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(map(str, a)) != sorted(map(str, b)):
            return '%s: keys %s and %s' % (path, sorted(a), sorted(b))
        for k in a:
            d = differ(a[k], b[k], '%s[%r]' % (path, k))
            if d:
                return d
        return ''
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return '' if (a is None and b is None) or (a is not None and b is not None and a == b) else '%s: %r and %r' % (path, a, b)
    if hasattr(a, 'data') and hasattr(a, 'args') and hasattr(b, 'data') and not isinstance(a, np.ndarray):
        for n in ('data', 'args') + tuple(k for k in ('freqtype', 'h', 'phi', 'norm', 'lag', 'Bw', 'CI', 'L', 'mean', 'sigma', 'intensity', 'kind') if k in getattr(a, '__dict__', {}) or k in getattr(b, '__dict__', {})):
            d = differ(getattr(a, n, None), getattr(b, n, None), '%s.%s' % (path, n))
            if d:
                return d
        return '' if type(a) is type(b) else '%s: %s and %s' % (path, type(a), type(b))
    if callable(a) and callable(b):
        return ''
    try:
        u, v = np.asarray(a), np.asarray(b)
        if u.dtype == object or v.dtype == object:
            return differ(list(np.ravel(u)), list(np.ravel(v)), path + '(object)') if u.shape == v.shape and u.ndim else ('' if type(a) is type(b) else '%s types' % path)
        if u.shape != v.shape:
            return '%s: shapes %s and %s' % (path, u.shape, v.shape)
        if u.size and not np.allclose(u, v, rtol=1e-5, atol=1e-12, equal_nan=True):
            return '%s: %s and %s' % (path, np.ravel(u)[:4], np.ravel(v)[:4])
        return ''
    except (TypeError, ValueError):
        return '' if a == b else '%s: %r and %r' % (path, a, b)


def call(e, pos, kw):
    npr.seed(11)
    tick()
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            return e.fn(*(list(e.req()) + list(pos)), **kw)
        finally:
            plt.close('all')


TABLE = dict((e.name, e) for e in table())


def f_defaults(case):
    """every subset of the optional arguments named with its documented value gives the result of leaving it out"""
    name, mask = case
    e = TABLE[name]
    base = call(e, [], {})
    kw = dict((o[0], o[1]) for i, o in enumerate(e.opt) if mask >> i & 1)
    d = differ(base, call(e, [], kw))
    require(not d, '%s(%s) is not what leaving them out gives: %s' % (name, ', '.join('%s=%r' % i for i in sorted(kw.items(), key=str)), d))
    return name


def f_position(case):
    """a value given by position means what it means by name (the others at their documented values)"""
    name, i, alt = case
    e = TABLE[name]
    vals = [o[1] for o in e.opt]
    if alt:
        vals[i] = e.opt[i][2]
    named = call(e, [], {e.opt[i][0]: vals[i]})
    if alt:
        require(differ(call(e, [], {}), named), '%s: %s=%r has no effect' % (name, e.opt[i][0], vals[i]))
    if e.pos:
        d = differ(named, call(e, vals[:i + 1], {}))
        require(not d, '%s: %s by position and by name differ: %s' % (name, e.opt[i][0], d))
    return name


def groups(tier):
    T = [e for e in table() if e.opt]
    assert len(set(e.name for e in T)) == len(T)
    sub, pos = [], []
    for e in T:
        n = len(e.opt)
        full = n <= (6 if tier == 'thorough' else 5) and not (e.light and tier != 'thorough')
        masks = range(1, 2 ** n) if full else sorted(set([2 ** i for i in range(n)] + [2 ** n - 1] + [2 ** n - 1 - 2 ** i for i in range(n)]))
        sub += [[e.name, int(m)] for m in masks]
        pos += [[e.name, i, alt] for i in range(n) for alt in (False, True) if (alt and len(e.opt[i]) > 2) or (not alt and e.pos)]
    return [Group('left-out', sub, f_defaults, chunk=8), Group('by-position', pos, f_position, chunk=8)]
