"""P28 Fitting finds parameters at least as good as any known ones, for every distribution; its plots and intervals show the fit."""
import itertools
import math
import warnings
import numpy as np
from scipy import stats as ss
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from vk import Group, Fail, tick
from ref import close, require, rnd
import wafo.stats as ws
import wafo.stats.estimation as we
from wafo.stats.distributions import truncrayleigh

PROPERTY = 'P28'
ASSUMPTIONS = ['data sets are exact quantiles of a known member of the family (12 to 60 values, three arrangements), so that the parameters '
               'they were made from are a witness the fit has to match; scipy.stats is trusted for densities; families whose simplex '
               'search from the default start is known to stop at a poorer local optimum (weibull_max; ncx2, nct and chi2 with small scales or '
               'many data) are not asked for']


def quiet(f, *a, **k):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        import io
        import contextlib
        with contextlib.redirect_stdout(io.StringIO()):
            return f(*a, **k)


FAM = {'betaprime': [(3., 6.)], 'bradford': [(2.,), (0.5,)], 'chi': [(4.,)], 'f': [(6., 9.)], 'weibull_min': [(1.8,), (0.9,), (3.0,)],
       'genpareto': [(0.1,), (-0.2,), (0.3,)], 'genextreme': [(0.1,), (-0.15,), (0.3,)], 'lognorm': [(0.6,), (0.3,)], 'gibrat': [()],
       'ncx2': [(4., 1.5)], 'nct': [(8., 0.5)], 'reciprocal': [(1., 4.)], 'norm': [()], 'expon': [()], 'rayleigh': [()], 'gumbel_r': [()],
       'gumbel_l': [()], 'gamma': [(2.5,), (1.2,)], 'truncrayleigh': [(0.5,), (1.0,)], 'laplace': [()], 'logistic': [()], 't': [(6.,)],
       'beta': [(2., 3.)], 'exponweib': [(1.5, 1.2)], 'genexpon': [(1., .5, .3)], 'pareto': [(3.,)], 'uniform': [()], 'invgauss': [(1.,)],
       'maxwell': [()], 'chi2': [(5.,)]}
# the simplex search from the default start is known to stop at a poorer local optimum for small scales or many data
HARD = ('ncx2', 'nct', 'chi2')
ONE = [n for n in sorted(FAM) if len(FAM[n][0]) <= 1]


def arrange(x, how):
    n = len(x)
    if how == 'sorted':
        return x
    if how == 'mixed':
        return np.concatenate([x[1::2], x[::2]])
    return x[::-1].copy()


def make(name, sh, loc, scale, n, how):
    d = getattr(ws, name)
    q = (np.arange(n) + 0.5) / n
    return d, arrange(np.asarray(d.ppf(q, *sh, loc=loc, scale=scale)), how)


def score(name, par, x, method):
    """log likelihood or sum of the log spacings, from the densities of scipy"""
    if name == 'truncrayleigh':
        c, loc, s = par
        r = (np.sort(x) - loc) / s
        lp = np.log(r + c) - ((r + c) ** 2 - c * c) / 2 - math.log(s)
        cdf = -np.expm1(-((r + c) ** 2 - c * c) / 2)
    else:
        d = getattr(ss, name)
        lp, cdf = (d.logpdf(np.sort(x), *par), None) if method == 'ml' else (None, d.cdf(np.sort(x), *par))
    if method == 'ml':
        return float(np.sum(lp))
    return float(np.sum(np.log(np.diff(np.concatenate([[0.0], cdf, [1.0]])))))


def moran(n, k, lps):
    """p-value of Moran's statistic with k estimated parameters (Cheng and Stephens)"""
    m = (n + 1) * (math.log(n + 1) + 0.57722) - 0.5 - 1 / (12.0 * (n + 1))
    v = (n + 1) * (math.pi ** 2 / 6 - 1) - 0.5 - 1 / (6.0 * (n + 1))
    t = (-lps + k / 2.0 - (m - math.sqrt(0.5 * n * v))) / math.sqrt(v / (2.0 * n))
    return ss.chi2.sf(max(t, 0), n)


def f_recover(case):
    name, sh, loc, scale, n, how, method = case
    d, x = make(name, sh, loc, scale, n, how)
    keep = x.copy()
    tick()
    kw = {'floc': loc} if name == 'genpareto' else {}      # (as it is used for excesses; a free location sits on the smallest value)
    ph = quiet(d.fit2, x, method=method, **kw)
    require(np.array_equal(x, keep), 'fit2 changed the data of the caller')
    require(len(ph.par) == len(sh) + 2 and np.all(np.isfinite(ph.par)) and ph.par[-1] > 0, 'parameters %s' % (ph.par,))
    true = list(sh) + [loc, scale]
    got = quiet(score, name, ph.par, x, method)
    want = quiet(score, name, true, x, method)
    require(got >= want - 1e-3, '%s fit of %s: score %.6g, the parameters the data were made from give %.6g' % (method, np.round(ph.par, 4), got, want))
    lps = quiet(score, name, ph.par, x, 'mps')
    close(ph.LLmax, quiet(score, name, ph.par, x, 'ml'), 'reported log likelihood', 1e-6, 1e-6)
    if np.isfinite(lps):
        close(ph.LPSmax, lps, 'reported log product of spacings', 1e-6, 1e-6)
        close(ph.pvalue, moran(n, len(ph.par) - len(kw), lps), "p-value of Moran's statistic", 1e-5, 1e-7)
    close(np.asarray(ph.data), np.sort(x), 'data of the fit', 0, 0)
    require(ph.dist.name == d.name, 'distribution')
    if method == 'ml':
        tick()
        r = quiet(d.fit, x, **kw)
        require(np.array_equal(x, keep), 'fit changed the data of the caller')
        if name != 'reciprocal':                # (scipy fixes the scale of reciprocal)
            require(quiet(score, name, r, x, method) >= want - 1e-3, 'fit %s is worse than %s' % (r, true))
    q = np.array([0.01, 0.3, 0.5, 0.9])
    tick(6)
    for m in ('ppf', 'isf'):
        close(getattr(ph, m)(q), getattr(d, m)(q, *ph.par), m, 1e-12, 1e-12)
    xs = np.asarray(ph.ppf(q))
    for m in ('pdf', 'logpdf', 'cdf', 'sf', 'logcdf', 'logsf'):
        close(getattr(ph, m)(xs), getattr(d, m)(xs, *ph.par), m, 1e-12, 1e-12)
    if name in ('norm', 'gumbel_r', 'weibull_min', 'expon', 'logistic'):
        close(np.array([ph.mean(), ph.var(), ph.std(), ph.median()]), np.array([f(*ph.par) for f in (d.mean, d.var, d.std, d.median)]), 'moments', 1e-12, 1e-12)
    return (round(got, 2), round(want, 2))


def lines(ax):
    return [(np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)) for l in ax.get_lines()]


def same(ax, want, what):
    got = lines(ax)
    require(len(got) == len(want), '%s: %d curves, want %d' % (what, len(got), len(want)))
    for k, ((gx, gy), (wx, wy)) in enumerate(zip(got, want)):
        close(gx, np.asarray(wx, dtype=float), '%s: abscissas of curve %d' % (what, k), 1e-10, 1e-12)
        close(gy, np.asarray(wy, dtype=float), '%s: ordinates of curve %d' % (what, k), 1e-8, 1e-10)


def f_plots(case):
    name, sh, loc, scale, n, how = case
    d, x = make(name, sh, loc, scale, n, how)
    ph = quiet(d.fit2, x)
    xs = np.sort(x)
    k = np.arange(1, n + 1)
    P = ph.par
    close(P, ph.par, 'par')
    want = {'plotesf': [(xs, 1 - k / (n + 1.0)), (xs, d.sf(xs, *P))],
            'plotecdf': [(xs, k / (n + 1.0)), (xs, d.cdf(xs, *P))],
            'plotresq': [(xs, d.ppf(k / (n + 1.0), *P)), (xs[[0, -1]], xs[[0, -1]])],
            'plotresprb': [(k / (n + 1.0), d.cdf(xs, *P)), ([0, 1], [0, 1])]}
    for f in want:
        fig, ax = plt.subplots()
        tick()
        quiet(getattr(ph, f), axis=ax)
        same(ax, want[f], f)
        plt.close(fig)
    fig, ax = plt.subplots()
    tick()
    quiet(ph.plotepdf, axis=ax)
    (px, py), (hx, hy) = lines(ax)
    close(px, xs, 'abscissas of the density')
    close(py, d.pdf(xs, *P), 'density', 1e-9, 1e-12)
    # the staircase: zero at both ends and between bars, each bar is the density of the data in it
    require(hy[0] == 0 and hy[-1] == 0 and len(hx) == len(hy), 'staircase ends')
    bars = [(hx[i], hx[i + 1], hy[i]) for i in range(len(hx) - 1) if hx[i] < hx[i + 1]]
    total = 0.0
    for i, (a, b, v) in enumerate(bars):
        cnt = int(np.sum((xs >= a) & ((xs < b) | ((i == len(bars) - 1) & (xs == b)))))
        lo = int(np.sum((xs >= a + 1e-9) & (xs < b - 1e-9)))
        hi = int(np.sum((xs >= a - 1e-9) & (xs < b + 1e-9)))
        require(lo - 1e-6 <= v * n * (b - a) <= hi + 1e-6, 'bar [%g, %g] of height %g holds %d of %d values' % (a, b, v, cnt, n))
        total += v * (b - a)
        require(abs((b - a) - (bars[0][1] - bars[0][0])) < 1e-9 * max(1, abs(b)), 'bars of one width')
    close(total, 1.0, 'area under the histogram', 1e-9, 0)
    require(bars[0][0] <= xs[0] and bars[-1][1] >= xs[-1], 'histogram covers the data')
    plt.close(fig)
    return rnd(P, 3)


def f_summary(case):
    name, kw, n, method = case
    kw = dict(kw)
    d, x = make(name, FAM[name][0], 0.0, 1.0, n, 'mixed')
    ph = quiet(d.fit2, x, method=method, **kw)
    tick(2)
    quiet(ph.plotfitsummary)
    fig = plt.gcf()
    axes = fig.get_axes()
    require(len(axes) == 4, '%d panels' % len(axes))
    titles = [a.get_title() for a in axes]
    require(titles == ['Empirical SF plot', 'Density plot', 'Residual Quantile Plot', 'Residual Probability Plot'], 'titles %s' % titles)
    txt = ' '.join(t.get_text() for t in fig.texts)
    require(('Fit method: %s,' % method.upper()) in txt, 'method in %r' % txt)
    require(('Fit p-value: %2.2f' % ph.pvalue) in txt, 'p-value in %r' % txt)
    require('phat=[%s]' % ', '.join('%.2g' % v for v in ph.par) in txt, 'parameters in %r' % txt)
    for v, m in ((ph.LPSmax, 'Lps_max'), (ph.LLmax, 'Ll_max')):
        require('%s=%s' % (m, '{:2.2g}'.format(v)) in txt, '%s in %r' % (m, txt))
    fixed = sorted({'f0': 0, 'floc': len(ph.par) - 2, 'fscale': len(ph.par) - 1}[k] for k in kw)
    if fixed:
        require('Fixed: phat[%s] = %s' % (', '.join('%d' % i for i in fixed), ', '.join('%g' % ph.par[i] for i in fixed)) in txt, 'fixed in %r' % txt)
    else:
        require('Fixed' not in txt, 'nothing is fixed: %r' % txt)
    r = repr(ph)
    for a in ('alpha', 'method', 'LLmax', 'LPSmax', 'pvalue', 'par_lower', 'par_upper', 'par_fix', 'par_cov'):
        require('\n%s = %s\n' % (a, getattr(ph, a)) in r, '%s in the printed fit' % a)
    plt.close('all')
    return txt


def f_cov(case):
    """covariance: minus the inverse of the matrix of second derivatives over the free parameters; normal limits from it"""
    name, kw, n, method, alpha, copy = case
    kw = dict(kw)
    d, x = make(name, FAM[name][0], 0.5, 2.0, n, 'mixed')
    keep = x.copy()
    tick()
    opt = {} if alpha is None else {'alpha': alpha}
    if copy is not None:
        opt['copydata'] = copy
    ph = quiet(d.fit2, x, method=method, **kw, **opt)
    if copy is False:
        require(np.array_equal(np.sort(x), np.sort(keep)), 'values of the data')
    else:
        require(np.array_equal(x, keep), 'data was changed')
    p = len(ph.par)
    fixed = sorted({'f0': 0, 'floc': p - 2, 'fscale': p - 1}[k] for k in kw)
    free = [i for i in range(p) if i not in fixed]
    par = np.array(ph.par, dtype=float)
    h = [1e-3 * (abs(v) + 0.3) for v in par]

    def f(*st):
        q = par.copy()
        for i, t in st:
            q[i] += t * h[i]
        return quiet(score, name, q, keep, method)
    H = np.zeros((len(free),) * 2)
    for a, i in enumerate(free):
        H[a, a] = (-f((i, 2)) + 16 * f((i, 1)) - 30 * f() + 16 * f((i, -1)) - f((i, -2))) / (12 * h[i] ** 2)
        for b, j in enumerate(free[:a]):
            H[a, b] = H[b, a] = (f((i, 1), (j, 1)) + f((i, -1), (j, -1)) - f((i, 1), (j, -1)) - f((i, -1), (j, 1))) / (4 * h[i] * h[j])
    C = np.zeros((p, p))
    C[np.ix_(free, free)] = -np.linalg.inv(H)
    sd = np.sqrt(np.diag(C))
    e = np.abs(ph.par_cov - C) / (np.outer(sd, sd) + 1e-300)
    e[fixed, :] = np.abs(ph.par_cov[fixed, :])
    e[:, fixed] = np.abs(ph.par_cov[:, fixed])
    require(e.max() < 0.01, 'covariance %s, want %s' % (ph.par_cov.tolist(), C.tolist()))
    z = ss.norm.isf((0.05 if alpha is None else alpha) / 2.0) * np.sqrt(np.diag(ph.par_cov))
    close(ph.par_lower, par - z, 'lower limits', 1e-9, 1e-12)
    close(ph.par_upper, par + z, 'upper limits', 1e-9, 1e-12)
    close(ph.alpha, 0.05 if alpha is None else alpha, 'alpha', 0, 0)
    close(ph.pvalue, moran(n, len(free), ph.LPSmax), "p-value of Moran's statistic", 1e-6, 1e-8)
    if fixed:
        require([i for i in range(p) if np.isfinite(ph.par_fix[i])] == fixed, 'par_fix %s' % (ph.par_fix,))
    else:
        require(ph.par_fix is None, 'par_fix %s' % (ph.par_fix,))
    # plots go to the current axes if none is given
    for m, lab in (('plotesf', ('x', 'F(x) (%s)')), ('plotecdf', ('x', 'F(x) (%s)')), ('plotepdf', ('x', 'f(x) (%s)')),
                   ('plotresq', ('Empirical', 'Model (%s)')), ('plotresprb', ('Empirical', 'Model (%s)'))):
        fig, (a1, a2) = plt.subplots(1, 2)
        plt.sca(a1)
        tick()
        quiet(getattr(ph, m))
        require(len(a1.get_lines()) == 2 and not a2.get_lines(), '%s draws in the current axes' % m)
        require((a1.get_xlabel(), a1.get_ylabel()) == tuple(s % d.name if '%' in s else s for s in lab), '%s: labels %s, %s' % (m, a1.get_xlabel(), a1.get_ylabel()))
        plt.close(fig)
    return rnd(par, 3)


def f_ci(case):
    name, kw, n, method, i, alpha = case
    kw = dict(kw)
    d, x = make(name, FAM[name][0], 0.0, 1.0, n, 'mixed')
    ph = quiet(d.fit2, x, method=method, **kw)
    qs = [0.3, 0.1]
    tick(4)
    a = quiet(ph.ci_sf, qs, alpha=alpha, i=i)
    b = quiet(ph.ci_logsf, np.log(qs), alpha=alpha, i=i)
    xq = np.asarray(ph.isf(qs))
    c = quiet(ph.ci_quantile, xq, alpha=alpha, i=i)
    for m in (a, b, c):
        require(np.shape(m) == (2, 2), 'one interval per value: %s' % (m,))
    close(a, np.exp(b), 'interval of the probability', 1e-9, 1e-12)
    for k, q in enumerate(qs):
        P = quiet(lambda: ph.profile_probability(math.log(q), i=i).get_bounds(alpha=alpha))
        close(b[k], np.array(P), 'interval of log sf', 1e-9, 1e-9)
        P = quiet(lambda: ph.profile_quantile(xq[k], i=i).get_bounds(alpha=alpha))
        close(c[k], np.array(P), 'interval of the quantile', 1e-9, 1e-9)
        require(a[k][0] < q < a[k][1] and c[k][0] < xq[k] < c[k][1], 'the estimates are inside: %s %s %s' % (q, a[k], c[k]))
    if name == 'expon':
        # one free parameter: the interval is where the likelihood ratio statistic is below the chi-square quantile
        lev = ss.chi2.isf(alpha, 1) / 2
        for k, q in enumerate(qs):
            for s in (-xq[k] / b[k]):
                drop = -quiet(score, 'expon', [0.0, s], x, method) + quiet(score, 'expon', ph.par, x, method)
                close(drop, lev, 'likelihood ratio at the end of the interval', 0.02, 0.01)
            for s in (-c[k] / math.log(q)):
                drop = -quiet(score, 'expon', [0.0, s], x, method) + quiet(score, 'expon', ph.par, x, method)
                close(drop, lev, 'likelihood ratio at the end of the interval', 0.02, 0.01)
    tick()
    bad = quiet(ph.ci_quantile, float(xq[0]), alpha=alpha, i=i)
    close(bad, c[:1], 'one value instead of a list', 1e-12, 0)
    return rnd(np.ravel(a), 2)


def f_profplot(case):
    name, kw, n, method, what = case
    kw = dict(kw)
    d, x = make(name, FAM[name][0], 0.0, 1.0, n, 'mixed')
    ph = quiet(d.fit2, x, method=method, **kw)
    i = len(ph.par) - 1
    q = 0.1
    xq = float(ph.isf(q))
    tick(2)
    P = quiet(ph.profile, i=i) if what == 'par' else quiet(ph.profile_quantile, xq, i=i) if what == 'quantile' else quiet(ph.profile_probability, math.log(q), i=i)
    used = []
    if what != 'par':
        # a connection given by the caller is the one that is used
        cls, arg = (we.ProfileQuantile, xq) if what == 'quantile' else (we.ProfileProbability, math.log(q))

        def link(x_, lsf, par_, ix):
            used.append(ix)
            return we.LINKS[name](x_, lsf, par_, ix)
        Q = quiet(cls, ph, arg, i=i, link=link)
        require(used, 'the given link is not used')
        close(Q.args, P.args, 'arguments with the link given', 0, 0)
        close(Q.data, P.data, 'profile with the link given', 0, 0)
    Q = quiet(we.Profile, ph, i=i, alpha=0.2) if what == 'par' else quiet(cls, ph, arg, i=i, alpha=0.2)
    for R, a in ((P, 95), (Q, 80)):
        fig, ax = plt.subplots()
        plt.sca(ax)
        quiet(R.plot)
        require(len(ax.get_lines()) == 3, 'drawn in the current axes')
        require(ax.get_title() == '%d%% CI for %s %s' % (a, name, {'par': 'params'}.get(what, what)), 'title %r' % ax.get_title())
        require(ax.get_xlabel() == {'par': 'phat[%d]' % i, 'quantile': 'x', 'probability': 'log(sf)'}[what], 'label %r' % ax.get_xlabel())
        require(ax.get_ylabel() == 'Profile log' + ('likelihood' if method == 'ml' else 'product spacing'), 'label %r' % ax.get_ylabel())
    fig, ax = plt.subplots()
    quiet(P.plot, axis=ax)
    ci = quiet(P.get_bounds, P.alpha)
    curves = lines(ax)
    ok = [k for k, (gx, gy) in enumerate(curves) if len(gx) == len(P.args) and np.array_equal(gx, P.args) and np.array_equal(gy, P.data)]
    require(ok, 'the profile itself is not drawn')
    rest = [c for k, c in enumerate(curves) if k not in ok]
    require(len(rest) == 2, '%d lines beside the profile' % len(rest))
    for gx, gy in rest:
        close(gx, np.array(ci, dtype=float), 'ends of the horizontal lines', 1e-9, 1e-9)
    close(np.array(sorted(float(gy[0]) for gx, gy in rest)), np.array([P.alpha_cross_level, P.profile_max]), 'heights of the horizontal lines', 1e-12, 0)
    vs = []
    for col in ax.collections:
        for seg in col.get_segments():
            require(seg[0][0] == seg[1][0], 'vertical')
            close(max(seg[0][1], seg[1][1]), P.profile_max, 'top of the line', 1e-12, 0)
            vs.append(float(seg[0][0]))
    centre = ph.par[i] if what == 'par' else xq if what == 'quantile' else math.log(q)
    close(np.array(sorted(vs)), np.array(sorted([float(ci[0]), float(ci[1]), centre])), 'marks at the estimate and the ends of its interval', 1e-6, 1e-9)
    plt.close('all')
    return rnd(vs, 2)


def f_allprof(case):
    name, kw, n, method = case
    d, x = make(name, FAM[name][0], 0.0, 1.0, n, 'mixed')
    ph = quiet(d.fit2, x, method=method, **dict(kw))
    plt.figure()
    tick()
    r = quiet(we.plot_all_profiles, ph)
    require(r is ph, 'returns the fit')
    free = [j for j in range(len(ph.par)) if ph.par_fix is None or not np.isfinite(ph.par_fix[j])]
    axes = plt.gcf().get_axes()
    require(len(axes) == len(free), '%d panels for %d free parameters' % (len(axes), len(free)))
    for j, ax in zip(free, axes):
        xs = sorted(float(s[0][0]) for c in ax.collections for s in c.get_segments())
        require(any(abs(v - ph.par[j]) < 1e-6 * max(1, abs(v)) for v in xs), 'panel of parameter %d marks %s, the estimate is %s' % (j, xs, ph.par[j]))
    for k, ax in enumerate(axes):
        require((ax.get_title() != '') == (k == 0) and (ax.get_ylabel() != '') == (k == len(free) // 2), 'title above the first panel, label at the middle one')
    sup = plt.gcf()._suptitle.get_text()
    require('(fit metod: %s)' % method in sup or '(fit method: %s)' % method in sup, 'title %r' % sup)
    plt.close('all')
    return rnd(ph.par, 3)


def groups(tier):
    T = tier == 'thorough'
    hows = ('mixed', 'sorted', 'reversed')
    rc = [(n, s, l, c, k, hows[(i + j) % 3] if not T else h, m)
          for n in sorted(FAM) for s in FAM[n] for i, (l, c) in enumerate(((0., 1.), (2., 3.), (0.0, 0.1)))
          for j, k in enumerate((25, 60) if not T else (15, 25, 40, 60, 100)) for h in (hows if T else ('',)) for m in ('ml', 'mps')]
    rc = [c for c in rc if c[0] not in HARD or (c[3] >= 1 and c[4] < 60)]
    pl = [(n, s, l, c, k, hows[(i + j) % 3]) for n in ONE for s in FAM[n][:2] for i, (l, c) in enumerate(((0., 1.), (2., 30.))) for j, k in enumerate((5, 12, 40))
          if n not in ('t', 'chi', 'pareto')]
    ks = ((), (('floc', 0.0),))
    sm = [(n, k, 20, m) for n in ('weibull_min', 'expon', 'gumbel_r', 'genpareto') for k in ks for m in ('ml', 'mps')]
    ci = [('expon', (('floc', 0.0),), n, m, 1, a) for n in (12, 40) for m in ('ml', 'mps') for a in (0.05, 0.1, 0.3)]
    ci += [('weibull_min', (('floc', 0.0),), n, m, i, a) for n in (12, 40) for m in ('ml', 'mps') for i in (0, 2) for a in (0.05, 0.2)]
    pp = [(n, (('floc', 0.0),), k, m, w) for n in ('expon', 'weibull_min', 'rayleigh') for k in (12, 40) for m in ('ml', 'mps') for w in ('par', 'quantile', 'probability')]
    ap = [(n, k, 20, m) for n in ('weibull_min', 'gumbel_r', 'expon') for k in (((), (('floc', 0.0),)) if n != 'expon' else ((('floc', 0.0),),)) for m in ('ml', 'mps')]
    cv = [(n_, k, n, m, a, c) for n_ in ('norm', 'gumbel_r', 'gumbel_l', 'logistic', 'genextreme', 'expon', 'rayleigh', 'weibull_min', 'gamma', 'lognorm')
          for k in ((), (('floc', 0.5),), (('fscale', 2.0),), (('floc', 0.5), ('fscale', 2.0)))
          if (k and dict(k).get('floc') is not None or n_ in ('norm', 'gumbel_r', 'gumbel_l', 'logistic', 'genextreme')) and not (len(k) == 2 and not FAM[n_][0])
          for n in (20, 60) for m in ('ml', 'mps') for a, c in ((None, None), (0.3, False), (0.01, True))
          if T or (n, a) in ((20, None), (60, None), (20, 0.3), (60, 0.01))]
    return [Group('covariance', cv, f_cov, chunk=2, note='free and fixed parameters x sizes x methods x confidence levels: second derivatives of the score'),
            Group('recover', rc, f_recover, chunk=1, note='every family with its own start values and 18 others x shapes x location and scale x size x arrangement x method'),
            Group('plots', pl, f_plots, chunk=2),
            Group('summary', sm, f_summary, chunk=1),
            Group('intervals', ci, f_ci, chunk=1),
            Group('profile-plots', pp, f_profplot, chunk=1),
            Group('all-profiles', ap, f_allprof, chunk=1)]


