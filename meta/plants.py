"""Planted bugs (python3 lib/mkplants.py writes seeded/ from this)."""
PLANTS = [
    dict(id='b02', prop='P02', file='src/wafo/misc.py',
         old='''            ind = ind[1::]

        # make sure the number of minima and Maxima are according to the''',
         new='''            ind = ind[1::] if ind.size > 3 else ind

        # make sure the number of minima and Maxima are according to the''',
         needs='a wave definition on a record whose turning points are so few that trimming the first leaves two',
         breaks='the sequence starts with the wrong type of extreme for the requested wave definition',
         demo='''
import numpy as np
import wafo.misc as wm
x = np.array([0., 1., 0., 1., 0.])
for kind, up in (('mw', True), ('Mw', False)):
    for rec in (x, -x, np.r_[0., -1., 1., -1.], np.r_[1., 0., 2., 1.], np.r_[2., 0., 1., 0.5]):
        i = wm.findtp(rec, 0.0, kind)
        if i is not None and len(i) > 1:
            assert (rec[i[1]] > rec[i[0]]) == up, (kind, rec, i)
'''),
    dict(id='b04', prop='P04', file='src/wafo/_misc_numba.py',
         old='''                a[j - 2] = a[j]
                t[j - 2] = t[j]
                j = j - 2''', new='''                a[j - 2] = a[j]
                t[j - 2] = t[j - 1]
                j = j - 2''',
         needs='a cycle nested inside a larger range, counted with times, and a later cycle that starts or ends at '
               'the reversal that closed the nested one',
         breaks='start and period of the enclosing cycle are taken from an inner reversal',
         demo='''
import numpy as np
from wafo._misc_numba import findrfc_astm
v = np.array([0., 3., 1., 2., -1., 4., -2.])
t = np.arange(len(v)) * 1.0
c = findrfc_astm(v, t)
for a, m, n, s, p in c:
    i = int(round(s)); j = int(round(s + p / 2))
    assert abs(abs(v[i] - v[j]) / 2 - a) < 1e-12 and abs((v[i] + v[j]) / 2 - m) < 1e-12, (a, m, n, s, p)
'''),
    dict(id='b01', prop='P01', file='src/wafo/misc.py',
         old="            t_0 = int(xn[ind[0] + 1] > 0)\n            ind = ind[t_0::2]",
         new="            t_0 = int(xn[ind[0]] < 0)\n            ind = ind[t_0::2]",
         needs='selecting down-crossings of a record whose last sample before its first crossing lies exactly on the level',
         breaks='up-crossings are returned instead of down-crossings',
         demo='''
import numpy as np
import wafo.misc as wm
x = np.array([-1., 0., 1., -1., 1., -2.])
assert list(wm.findcross(x, 0.0, 'd')) == [2, 4], wm.findcross(x, 0.0, 'd')
'''),
    dict(id='b03', prop='P03', file='source/c_library/c_functions.c',
         old='     if ( (*(y+2*i+1)-xplus) >= hmin) {', new='     if ( (*(y+2*i+1)-xplus) > hmin) {',
         needs='a cycle closed by the minimum on its right whose height equals the threshold exactly',
         breaks='a cycle of exactly the threshold height is dropped when it is closed on the right',
         demo='''
import itertools
import numpy as np
import wafo.misc as wm
for n in (6, 7, 8):
    for v in itertools.product(range(4), repeat=n):
        y = np.array(v, float)
        d = np.diff(y)
        if d[0] > 0 and np.all(d[:-1] * d[1:] < 0):
            for h in (0.5, 1.0, 1.5, 2.0):
                a, b = wm.findrfc(y, h, 'clib'), wm.findrfc(y, h, '2')
                assert list(a) == list(b), (h, y, a, b)
'''),
    dict(id='b05', prop='P05', file='src/wafo/misc.py',
         old="if (2 * n_tc + 1 < n_c) and (kind in (None, 'tw', 'cw')):", new="if (2 * n_tc + 1 < n_c) and (kind in (None, 'tw')):",
         needs="the crest-to-crest wave definition and a last crest that is not the first sample after its crossing",
         breaks='the last crest of the sequence is not the highest sample between its crossings',
         demo='''
import numpy as np
import wafo.misc as wm
x = np.array([-1., 1., 2., 1., -1., -2., -1., 1., 3., 1., -1., -2., 1.])
tc, v = wm.findtc(x, 0.0, 'cw')
assert list(tc) == [2, 5, 8], (tc, v)
'''),
    dict(id='b06', prop='P06', file='src/wafo/markov.py',
         old='nt[1:n, :n - 1] = flip(csum(flip(csum(cmat[:-1, 1:], axis=0)), axis=1))',
         new='nt[1:n, :n - 1] = flip(csum(flip(csum(np.triu(cmat)[:-1, 1:], axis=0)), axis=1))',
         needs='a cycle matrix with entries below its diagonal (maxima below minima, as in max-to-min counting)',
         breaks='the counting distribution loses the cycles below the diagonal',
         demo='''
import numpy as np
import wafo.markov as m
c = np.zeros((4, 4))
c[2, 1] = 3
c[0, 3] = 1
assert np.allclose(m.cmat2nt(c, 1), m.cmat2nt(c, 11)), (m.cmat2nt(c, 1), m.cmat2nt(c, 11))
'''),
    dict(id='b10', prop='P10', file='src/wafo/wave_theory/dispersion_relation.py',
         old='    if (hi > 1e25).all():', new='    if (hi > 1e25).any():',
         needs='a vector of water depths of which only some are infinite',
         breaks='finite depths next to an infinite one get the deep-water wave number',
         demo='''
import numpy as np
from wafo.wave_theory.dispersion_relation import w2k
a, b = w2k(0.5, 0.0, np.array([10.0, np.inf]))
assert abs(a[0] - w2k(0.5, 0.0, 10.0)[0]) < 1e-9, a
'''),
    dict(id='b11', prop='P11', file='source/c_library/c_functions.c',
         old='       rvec[i] +=  2.0*(rrA+iiA)*Edij;', new='       rvec[0] +=  2.0*(rrA+iiA)*Edij;',
         needs='two or more replicates at once in finite water depth',
         breaks='the mean set-down of every replicate is added to the first one',
         demo='''
import numpy as np
from wafo import c_library
n, m, h, g = 8, 2, 20.0, 9.81
w = np.arange(n // 2 + 1) * 0.4
kw = w ** 2 / g + 1e-3
rA, iA = np.zeros((n, m)), np.zeros((n, m))
rA[1], rA[2] = (1.0, 2.0), (0.5, 0.25)
r, i = c_library.disufq(rA.ravel(), iA.ravel(), w, kw, h, g, 2, 3, m, n)
r1, i1 = c_library.disufq(rA[:, 1].copy(), iA[:, 1].copy(), w, kw, h, g, 2, 3, 1, n)
assert np.allclose(r.reshape(n, m)[:, 1], r1), (r, r1)
'''),
    dict(id='b12', prop='P12', file='src/wafo/spectrum/core.py',
         old='            rper = -1j * w * rper', new='            rper = -1j * abs(w) * rper if i == 3 else -1j * w * rper',
         needs='the third (or higher) derivative of the covariance function',
         breaks='odd derivatives from the third on come out as zero or wrong',
         demo='''
import numpy as np
from wafo.spectrum import SpecData1D
w = np.linspace(0, 2, 9)
S = w * (2 - w)
R = SpecData1D(S, w).tocovdata(nr=3)
t = R.args
d = np.trapz(S * w ** 3 * np.sin(w * t[:, None]), w)
assert np.allclose(R.Rttt, d, atol=1e-8), (R.Rttt, d)
'''),
    dict(id='b13', prop='P13', file='src/wafo/covariance/core.py',
         old='                                    y[2:ns + 2, 0:cases1].imag))',
         new='                                    y[2:ns + 2, cases2 - cases1:cases2].real))',
         needs='simulating two or more replicates from a covariance function',
         breaks='half of the replicates are copies of the others instead of independent',
         demo='''
import numpy as np
from wafo.covariance import CovData1D
R = CovData1D(np.array([2., 1., .3, .1]), np.arange(4) * .5)
x = R.sim(ns=50, cases=4, iseed=1)[:, 1:]
c = np.corrcoef(x.T)
assert np.all(np.abs(c - np.eye(4)) < 0.99), c
'''),
    dict(id='b07', prop='P07', file='src/wafo/dctpack.py',
         old='        n = shape[axes.index(dim)]', new='        n = shape[sorted(axes).index(dim)]',
         needs='axes given in descending order together with a non-square array or shape',
         breaks='the lengths are assigned to the wrong axes',
         demo='''
import numpy as np
from wafo.dctpack import dctn, idctn
x = np.arange(6.0).reshape(2, 3) ** 2
assert np.allclose(dctn(x, axes=(1, 0)), dctn(x, axes=(0, 1)))
assert dctn(x, shape=(4, 2), axes=(1, 0)).shape == (2, 4)
assert np.allclose(idctn(dctn(x, axes=(1, 0)), axes=(1, 0)), x)
'''),
    dict(id='b08', prop='P08', file='src/wafo/bitwise.py',
         old='bitwise_and(i, val0)', new='bitwise_xor(i, val1)',
         needs='clearing a bit that is already clear',
         breaks='clearing toggles the bit instead',
         demo='''
from wafo.bitwise import setbit
assert int(setbit(5, 1, 0)) == 5 and int(setbit(7, 1, 0)) == 5
'''),
    dict(id='b09', prop='P09', file='src/wafo/transform/models.py',
         old='p = np.poly1d([-c4, -c3, 1. + 3. * c4, c3])', new='p = np.poly1d([-c4, -c3, 1. + 3. * abs(c4), c3])',
         needs='a hardening process (kurtosis below 3)',
         breaks='the Hermite transformation no longer meets its defining polynomial',
         demo='''
import numpy as np
import wafo.transform.models as m
g = m.TrHermite(mean=0., var=1., skew=0.1, kurt=2.6)
x = np.linspace(-1, 1, 5)
c3, c4 = 0.1 / 6, -0.4 / 24
assert np.allclose(g.dat2gauss(x), x - c3 * (x ** 2 - 1) - c4 * (x ** 3 - 3 * x))
'''),
    dict(id='b14', prop='P14', file='src/wafo/spectrum/models.py',
         old='        area2, unused_err2 = integrate.quad(self._localspec, 1, self.wnc)',
         new='        area2, unused_err2 = integrate.quad(self._localspec, 1, max(self.wnc, 6.0))',
         needs='a normalised cut-off frequency below six',
         breaks='the energy below the cut-off is not Hm0**2/16',
         demo='''
import warnings
warnings.simplefilter('ignore')
import numpy as np
from scipy.integrate import quad
import wafo.spectrum.models as m
S = m.Jonswap(Hm0=7, Tp=11, gamma=3.3, wnc=3.0)
wp = 2 * np.pi / 11
f = lambda w: float(S(w)[0])
assert abs(quad(f, 0, wp)[0] + quad(f, wp, 3 * wp)[0] - 49 / 16.) < 1e-5
'''),
    dict(id='b15', prop='P15', file='src/wafo/kdetools/kdetools.py',
         old='            factor = v2 * np.sign(v2) if v2 else 1', new='            factor = v2 if v2 else 1',
         needs='a transformation with a negative power',
         breaks='the density comes out negative',
         demo='''
import numpy as np
from wafo.kdetools import TKDE
k = TKDE(np.array([1.0, 2.0, 5.0]), hs=0.5, L2=-1.0)
assert (np.asarray(k.eval_points(np.array([1.0, 2.0]))) > 0).all()
'''),
    dict(id='b16', prop='P16', file='src/wafo/polynomial.py',
         old='        cond = (abs(y) <= 1)', new='        cond = (abs(y) < 1)',
         needs='a Chebyshev series evaluated with a fill value exactly at an end of its interval',
         breaks='the end points of the interval count as outside',
         demo='''
import numpy as np
from wafo.polynomial import chebval
assert chebval(np.array([3.0]), [1.0, 2.0], a=1, b=3, fill=-7.0)[0] == 3.0
'''),
    dict(id='b17', prop='P17', file='src/wafo/interpolate.py',
         old='        w1 = dx[-1] / (dx[-1] + dx[-2])', new='        w1 = dx[-1] / (dx[-1] + dx[0])',
         needs='steffen slopes of unequally spaced data, first spacing different from the last but one',
         breaks='the slope at the last point uses the wrong weight',
         demo='''
import numpy as np
from wafo.interpolate import slopes
x = np.array([0.0, 4.0, 5.0, 6.0]); y = np.array([0.0, 1.0, 3.0, 4.0])
f = slopes(x, y, method='steffen')
b = slopes(-x[::-1], -y[::-1], method='steffen')[::-1]
assert np.allclose(f, b), (f, b)
'''),
    dict(id='b18', prop='P18', file='src/wafo/integrate.py',
         old='            x = (x_n + shift) * jacob[k, :] + a_0[k, :]', new='            x = (x_n + shift) * jacob[k, :] + a_0[:len(k), :]',
         needs='several integrals at once that converge at different steps',
         breaks='integrals still being refined take the lower limits of the first ones',
         demo='''
import numpy as np
from wafo.integrate import gaussq
v, e = gaussq(lambda x: np.exp(-x * x) * np.cos(3 * x), np.array([0.0, 1.0]), np.array([1e-3, 7.0]), releps=1e-10, abseps=1e-10)
w, e = gaussq(lambda x: np.exp(-x * x) * np.cos(3 * x), 1.0, 7.0, releps=1e-10, abseps=1e-10)
assert abs(v[1] - w) < 1e-8, (v, w)
'''),
    dict(id='b19', prop='P19', file='src/wafo/gaussian.py',
         old='        return bvd(-upper[0], lower[1], -correl)', new='        return bvd(-upper[0], lower[1], correl)',
         needs='first variable bounded above only, second bounded below only, correlated',
         breaks='the probability of the quadrant uses the correlation with the wrong sign',
         demo='''
import numpy as np
from wafo.gaussian import prbnorm2d
p = prbnorm2d([-np.inf, 0.0], [0.0, np.inf], 0.5)
assert abs(p - (0.25 - np.arcsin(0.5) / 2 / np.pi)) < 1e-6, p
'''),
    dict(id='b20', prop='P20', file='src/wafo/stats/core.py',
         old='        di_e = di_e[i]\n', new='',
         needs='observation times that are not in order',
         breaks='the peaks are compared with the values of other times',
         demo='''
import numpy as np
from wafo.stats.core import findpot
t = np.array([1.0, 0.0]); x = np.array([2.0, 3.0])
assert sorted(findpot(x, t, 1.0, 2.0)) == [1], findpot(x, t, 1.0, 2.0)
'''),
    dict(id='b21', prop='P21', file='src/wafo/stats/estimation.py',
         old='unknown_numpar=len(par) - len(fixedn)))', new='unknown_numpar=len(par)))',
         needs='a fit with fixed parameters',
         breaks='the p-value of the fit counts the fixed parameters as estimated',
         demo='''
import numpy as np
from wafo.stats import expon
from wafo.stats.estimation import FitDistribution
x = np.array([0.3, 0.7, 1.1, 2.3, 4.0, 0.2])
f = FitDistribution(expon, x, floc=0)
assert abs(f.pvalue - f._pvalue(f.par, f.data, unknown_numpar=1)) < 1e-12
'''),
    dict(id='b22', prop='P22', file='src/wafo/sg_filter/_core.py',
         old='        return (np.array(y.shape) != 1).sum()', new='        return y.ndim',
         needs='a row or column vector given as a matrix, with automatic or robust smoothing',
         breaks='leverage and limits of the smoothing parameter are those of two-dimensional data',
         demo='''
import numpy as np
from wafo.sg_filter import smoothn
y = np.array([0, 1.2, 0.7, 2, 12.6, 3.1, 3.9])
a = smoothn(y.copy(), s=2.0, robust=True)
b = smoothn(y.copy().reshape(1, -1), s=2.0, robust=True)
assert np.allclose(a, b.ravel()), (a, b)
'''),
    dict(id='b23', prop='P23', file='src/wafo/containers.py',
         old='            res_ci = [child.integrate(a, b, method=method)', new='            res_ci = [child.integrate(a, b)',
         needs='an integral with confidence limits by another rule than the trapezoidal one',
         breaks='the limits are integrated by another rule than the curve, and may leave it outside',
         demo='''
import numpy as np
from wafo.containers import PlotData
x = np.linspace(0, 1, 3)
d = PlotData(x ** 2, x)
d.children = [PlotData(np.vstack((x ** 2, x ** 2)).T, x)]
d.children[0].data = x ** 2
v = d.integrate(0, 1, return_ci=True, method='simpson')
assert np.allclose(v, 1 / 3.), v
'''),
    dict(id='b24', prop='P24', file='src/wafo/padua.py',
         old='    integral = (b - a) * (d - c) * C0fM.sum() / 4', new='    integral = (b - a) ** 2 * C0fM.sum() / 4',
         needs='a rectangle that is not a square',
         breaks='the integral over a rectangle uses one side twice',
         demo='''
import numpy as np
from wafo.padua import padua_points, padua_fit, padua_cubature
dom = (0, 2, 0, 1)
c, e = padua_fit(padua_points(3, dom), lambda x, y: 1.0 + 0 * x)
assert abs(padua_cubature(c, dom) - 2) < 1e-9
'''),
    dict(id='b25', prop='P25', file='src/wafo/misc.py',
         old='            i_p += 1  # the point after the jump', new='            i_p += name == "D^2x"  # the point after the jump',
         needs='a positive jump between two points',
         breaks='the point before a positive jump is reported instead of the one after it',
         demo='''
import numpy as np
from wafo.misc import findoutliers
ind, good = findoutliers(np.array([0.0, 0.1, 0.3, 9.0, 9.1, 9.3]), zcrit=0.0, dcrit=5.0, ddcrit=1e9)
assert 3 in ind, ind
'''),
    dict(id='b26', prop='P26', file='src/wafo/objects.py',
         old='            if f[i] > ff[-1]:', new='            if f[i] > f[i - 1]:',
         needs='a crossing spectrum whose tail is not monotone',
         breaks='exceedances are made up from local bumps of the tail (negative numbers of them are ignored or fail)',
         demo='''
import numpy as np
import wafo.objects as wo
lev = np.arange(-16, 17) * 0.25
cnt = np.round(400 * np.exp(-lev ** 2 / 2))
cnt[-9:] = [30, 31, 20, 12, 6, 4, 9, 3, 1]
r = wo.LevelCrossings(cnt, lev, mean=0.0, sigma=1.0).extrapolate(u_min=-1.5, u_max=1.5, dist='expon')
x = np.sort(r.phat_high.data)
u = lev[lev > 1.5]
want = np.sort(np.concatenate([[a - 1.5] * int(n) for a, n in
               ((4.0, 1), (3.75, 2), (3.5, 6), (2.75, 3), (2.5, 8), (2.25, 11))] +
               [[1.75 - 1.5] * int(max(cnt[23] - 31, 0))]))
assert len(x) == len(want) and np.allclose(x, want), (x, want)
'''),
    dict(id='b27', prop='P27', file='src/wafo/spectrum/core.py',
         old="            2 * pi * sqrt(-R[0, 0] / R[0, 2])) + (un ** 2 / (2 * R[0, 0]))",
         new="            2 * pi * sqrt(-R[0, 0] / R[0, 2])) + (un * abs(un) / (2 * R[0, 0]))",
         needs='crests above a level below the mean (or troughs below a level above it)',
         breaks='the density of periods is divided by the wrong crossing intensity and does not integrate to one',
         demo='''
import numpy as np
import wafo.spectrum.models as sm
w = np.linspace(0, 1.5, 129)
S = sm.Jonswap(Hm0=7, Tp=11).tospecdata(w)
s = np.sqrt(S.moment(2)[0][0])
for u in (s, -s):
    f = S.to_t_pdf(u=u, kind='Tc', paramt=(0, 40, 21), speed=7, seed=1)
    tot = f.data.sum() * f.args[1]
    assert 0.75 < tot < 1.1, (u, tot)
'''),
    dict(id='b28', prop='P28', file='src/wafo/stats/estimation.py',
         old='        grid_max = (np.ceil(xmax / delta) + 1) * delta + odd * delta / 2',
         new='        grid_max = np.ceil(xmax / delta) * delta + odd * delta / 2',
         needs='a largest observation that falls in the last cell of the histogram grid',
         breaks='the histogram of the density plot leaves out the largest observations and is scaled up for the others',
         demo='''
import numpy as np
import wafo.stats as ws
x = np.r_[0.05, 0.4, 0.7, 1.1, 1.6, 2.2, 2.9, 3.9]
f = ws.expon.fit2(x, floc=0)
g, h = f._get_empirical_pdf()
assert g.min() <= x.min() and g.max() >= x.max(), g
'''),
    dict(id='b29', prop='P13', file='src/wafo/objects.py',
         old='                noverlap = nperseg // 2', new='                noverlap = L // 2',
         needs='method psdo',
         breaks='segments overlap by a quarter instead of half; fewer segments are averaged',
         demo='''
import numpy as np
import wafo.objects as wo
x = np.sin(np.arange(200) ** 2 * 0.37)
ts = wo.TimeSeries(x, np.arange(200) * 0.5)
a = ts.tospecdata(16, method='psdo', window='hann')
b = ts.tospecdata(16, method='psd', window='hann', noverlap=15)
assert np.allclose(a.data, b.data)
'''),
    dict(id='b30', prop='P29', file='src/wafo/wave_theory/core.py',
         old='def wave_pressure(z, Hm0, h=10000, g=9.81, rho=1028):', new='def wave_pressure(z, Hm0, h=10000, rho=1028, g=9.81):',
         needs='acceleration of gravity and density given by position',
         breaks='gravity and density are taken for each other in part of the formula',
         demo='''
import numpy as np
from wafo.wave_theory.core import wave_pressure
z = np.r_[-5.0, -1.0]
assert np.allclose(wave_pressure(z, 3.0, 20.0, 9.81), wave_pressure(z, 3.0, h=20.0))
'''),
    dict(id='b31', prop='P30', file='src/wafo/interpolate.py',
         old='    if np.any(dx <= 0):\n        raise ValueError("`x` must be strictly increasing sequence.")',
         new='    if np.sum(dx) <= 0:\n        raise ValueError("`x` must be strictly increasing sequence.")',
         needs='abscissas that increase as a whole but not at every step',
         breaks='slopes of unsorted data are computed from negative or zero steps instead of being refused',
         demo='''
import numpy as np
import wafo.interpolate as wi
try:
    r = wi.slopes([0.0, 2.0, 1.0, 3.0], [1.0, 3.0, 2.0, 5.0])
except ValueError:
    pass
else:
    raise AssertionError(r)
'''),
    dict(id='b32', prop='P27', file='source/mreg/intfcmod.f',
         old='      HT(N)=0.5d0*(T(N)-T(N-1))', new='      HT(N)=T(N)-T(N-1)',
         needs='a range of times that ends before every minimum has been reached',
         breaks='the last point of time has twice its weight in the joint density of maxima and minima',
         demo='''
import numpy as np
import wafo.spectrum.models as sm
S = sm.Jonswap(Hm0=7, Tp=11).tospecdata(np.linspace(0, 2, 129))
m = S.moment(nr=4, even=True)[0]
s, t = np.sqrt(m[0]), 1.2 * np.pi * np.sqrt(m[1] / m[2])
a = S.to_mm_pdf(paramt=(0, t, 16), paramu=(-4 * s, 4 * s, 17), nit=2).data.sum()
b = S.to_mm_pdf(paramt=(0, t, 61), paramu=(-4 * s, 4 * s, 17), nit=2).data.sum()
assert abs(a - b) < 0.004, (a, b)
'''),
    dict(id='b33', prop='P19', file='source/mvnprd/mvnprodcorrprb.f',
         old='            prb    = (FI(mB(1)*mDen(1))-FI(mA(1)*mDen(1))) * val0',
         new='            prb    =  FI(mB(1)*mDen(1))-FI(mA(1)*mDen(1))',
         needs='exactly one variable with a correlation and others without',
         breaks='the variables without correlation are left out of the probability',
         demo='''
import numpy as np
from scipy.special import ndtr
from wafo.gaussian import prbnormndpc
for k in range(3):
    rho, b = np.zeros(3), np.r_[0.3, 0.8, 1.2]
    rho[k] = 0.6
    p = prbnormndpc(rho, -np.ones(3), b)[0]
    want = np.prod(ndtr(b) - ndtr(-1))
    assert abs(p - want) < 1e-4, (k, p, want)
'''),
]
