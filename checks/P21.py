"""P21 Fitting of distributions: estimates, fixed parameters, scores, covariances, profiles, link functions, truncrayleigh, pbinom."""
import itertools
import math
import warnings
import numpy as np
from scipy import optimize, special, stats as ss
from vk import Group, Fail, tick
from ref import close, require, rnd
import wafo.stats as ws
import wafo.stats.estimation as we
from wafo.stats.distributions import pbinom, truncrayleigh

PROPERTY = 'P21'
ASSUMPTIONS = ['data sets of at most 8 values over small lattices (all orders, with and without ties); distributions with a known or '
               'cheaply recomputed optimum; parameters of the link functions over small lattices; scipy.stats is trusted for the '
               'densities of its own distributions; profile bounds are compared to about 2 per cent of the likelihood ratio level']


def quiet(f, *a, **k):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return f(*a, **k)


# ---------------------------------------------------------------- link functions
def tr_logsf(x, c, loc, scale):
    r = (x - loc) / scale
    return -((r + c) ** 2 - c * c) / 2


LSF = {'truncrayleigh': tr_logsf}
LPAR = {
    'expon': [(0.0, 1.0), (1.5, 0.5), (-1.0, 3.0)],
    'weibull_min': [(c, l, s) for c in (0.7, 1.0, 2.5) for l in (0.0, -1.0) for s in (1.0, 2.5)],
    'genpareto': [(c, l, s) for c in (-0.4, 0.0, 0.3, 1.2) for l in (0.0, 1.0) for s in (1.0, 2.5)],
    'genexpon': [(a, b, c, l, s) for a in (0.5, 2.0) for b in (0.7, 1.5) for c in (0.3, 2.0) for l in (0.0, 1.0) for s in (1.0, 2.0)],
    'gumbel_r': [(0.0, 1.0), (2.0, 0.5), (-1.0, 3.0)],
    'rayleigh': [(0.0, 1.0), (1.5, 0.5), (-1.0, 3.0)],
    'truncrayleigh': [(c, l, s) for c in (0.0, 0.5, 2.0) for l in (0.0, -1.0) for s in (1.0, 2.5)],
    'genextreme': [(c, l, s) for c in (-0.4, 0.0, 0.3) for l in (0.0, 1.0) for s in (1.0, 2.5)],
    'exponweib': [(a, c, l, s) for a in (0.5, 1.0, 3.0) for c in (0.8, 2.0) for l in (0.0, 1.0) for s in (1.0, 2.5)],
    'burr': [(c, d, l, s) for c in (0.8, 2.0, 5.0) for d in (0.5, 1.0, 3.0) for l in (0.0, 1.0) for s in (1.0, 2.5)],
}
LSKIP = {('genpareto', 0), ('genextreme', 0), ('genexpon', 2), ('genexpon', 3), ('genexpon', 4)}


def f_link(case):
    name, par, q, i, other = case
    if (name, i) in LSKIP:
        return 'not implemented'
    dist = getattr(ws, name)
    link = we.LINKS[name]
    if name == 'truncrayleigh':
        c, l, s = par
        x = l + s * (math.sqrt(c * c - 2 * math.log(q)) - c)
        logsf = math.log(q)
    else:
        x = float(getattr(ss, name).isf(q, *par))
        logsf = float(getattr(ss, name).logsf(x, *par))
    if i == len(par) - 3 and name in ('weibull_min', 'exponweib', 'burr') and abs(math.log(abs((x - par[-2]) / par[-1]))) < 1e-6:
        return 'undetermined'
    if i == 0 and name == 'burr' and abs((x - par[-2]) / par[-1] - 1) < 1e-6:
        return 'undetermined'
    ph = list(par)
    ph[i] = ph[i] if other == 'same' else 1.2345          # the value at index i must not matter
    tick()
    got = quiet(link, x, logsf, np.array(ph), i)
    close(got, par[i], '%s link for parameter %d of %s at x=%s' % (name, i, par, x), 1e-7, 1e-7)
    return rnd(got)


# ---------------------------------------------------------------- truncrayleigh
_GX, _GW = np.polynomial.legendre.leggauss(60)


def f_truncmom(case):
    return f_trunc(case, True)


def f_trunc(case, moments=False):
    c, loc, scale = case
    F = lambda r: -math.expm1(-((r + c) ** 2 - c * c) / 2)
    f = lambda r: (r + c) * math.exp(-((r + c) ** 2 - c * c) / 2)
    r = [0.01, 0.1, 0.5, 1.0, 2.0, 4.0]
    x = np.array([loc + scale * v for v in r])
    D = truncrayleigh
    tick(10)
    close(D.cdf(x, c, loc, scale), [F(v) for v in r], 'cdf', 1e-11, 1e-13)
    close(D.sf(x, c, loc, scale), [1 - F(v) for v in r], 'sf', 1e-9, 1e-12)
    close(D.pdf(x, c, loc, scale), [f(v) / scale for v in r], 'pdf', 1e-10, 1e-14)
    close(D.logpdf(x, c, loc, scale), [math.log(v + c) - ((v + c) ** 2 - c * c) / 2 - math.log(scale) for v in r], 'logpdf', 1e-10, 1e-12)
    close(D.logsf(x, c, loc, scale), [-((v + c) ** 2 - c * c) / 2 for v in r], 'logsf', 1e-10, 1e-12)
    require(D.cdf(loc - 0.1, c, loc, scale) == 0 and D.pdf(loc - 0.1, c, loc, scale) == 0 and D.sf(loc - 0.1, c, loc, scale) == 1, 'below the support')
    q = np.array([0.001, 0.1, 0.5, 0.9, 0.999])
    close(D.cdf(D.ppf(q, c, loc, scale), c, loc, scale), q, 'cdf(ppf)', 1e-9)
    close(D.sf(D.isf(q, c, loc, scale), c, loc, scale), q, 'sf(isf)', 1e-9)
    e = np.linspace(0, math.sqrt(c * c + 80) - c, 9)
    h, m = np.diff(e) / 2, (e[1:] + e[:-1]) / 2
    X = (m[:, None] + h[:, None] * _GX).ravel()
    W = (h[:, None] * _GW).ravel() * np.array([f(v) for v in X])
    mu = np.sum(W * X)
    cm = [np.sum(W * (X - mu) ** k) for k in (2, 3, 4)]
    st = []
    if moments or c == 0:
        st = [float(v) for v in D.stats(c, loc, scale, moments='mvsk')]
        close(st[0], loc + scale * mu, 'mean', 1e-8, 1e-10)
        close(st[1], scale ** 2 * cm[0], 'variance', 1e-7, 1e-10)
        close(st[2], cm[1] / cm[0] ** 1.5, 'skewness', 1e-5, 1e-6)
        close(st[3], cm[2] / cm[0] ** 2 - 3, 'kurtosis', 1e-4, 1e-5)
    ent = -np.sum(W * np.log([f(v) if v + c > 0 else 1 for v in X])) + math.log(scale)
    close(D.entropy(c, loc, scale), ent, 'entropy', 1e-5, 1e-5)
    s1, s2 = D.rvs(c, loc, scale, size=4, random_state=7), D.rvs(c, loc, scale, size=4, random_state=7)
    require(list(s1) == list(s2) and (s1 >= loc).all(), 'random numbers')
    return rnd(st[:2])


# ---------------------------------------------------------------- pbinom
def f_pbinom(case):
    p, kind = case
    tick(8)
    B = pbinom(list(p) if kind == 'list' else np.array(p, dtype=float))
    n = len(p)
    w = [1.0]
    for v in p:
        w = [a * (1 - v) + b * v for a, b in zip(w + [0.0], [0.0] + w)]
    cdf = [sum(w[:k + 1]) for k in range(n + 1)]
    ks = list(range(-1, n + 2))
    want = [w[k] if 0 <= k <= n else 0.0 for k in ks]
    close(B.pmf(ks), want, 'pmf', 1e-9, 1e-12)
    close(B.pmf(np.array(ks, dtype=float)), want, 'pmf of floats', 1e-9, 1e-12)
    wc = [0.0 if k < 0 else 1.0 if k >= n else cdf[k] for k in ks]
    close(B.cdf(ks), wc, 'cdf', 1e-9, 1e-12)
    close(B.sf(ks), [1 - v for v in wc], 'sf', 1e-9, 1e-12)
    half = [k + 0.5 for k in ks]
    close(B.cdf(half), wc, 'cdf between', 1e-9, 1e-12)
    close(B.sf(half), [1 - v for v in wc], 'sf between', 1e-9, 1e-12)
    close(B.pmf(half), [0.0] * len(half), 'pmf between')
    for k in range(n + 1):
        close(B.pmf(k), w[k], 'scalar pmf', 1e-9, 1e-12)
    for q in (0.03, 0.21, 0.47, 0.68, 0.93):
        if min(abs(v - q) for v in cdf) > 1e-6:
            require(B.ppf(q) == min(k for k in range(n + 1) if cdf[k] >= q), 'ppf(%s) = %s' % (q, B.ppf(q)))
        if min(abs(1 - v - q) for v in cdf) > 1e-6:
            require(B.isf(q) == min(k for k in range(n + 1) if 1 - cdf[k] <= q), 'isf(%s) = %s' % (q, B.isf(q)))
    close(B.mean(), sum(p), 'mean', 1e-10, 1e-12)
    close(B.var(), sum(v * (1 - v) for v in p), 'variance', 1e-10, 1e-12)
    v2 = sum(v * (1 - v) for v in p)
    if v2 > 0:
        m = sum(p)
        sk, ku = [float(v) for v in B.stats(moments='sk')]
        close(sk, sum(a * (k - m) ** 3 for k, a in enumerate(w)) / v2 ** 1.5, 'skewness', 1e-8, 1e-9)
        close(ku, sum(a * (k - m) ** 4 for k, a in enumerate(w)) / v2 ** 2 - 3, 'kurtosis', 1e-8, 1e-9)
    r = B.rvs(size=6, random_state=3)
    require(list(r) == list(pbinom(list(p)).rvs(size=6, random_state=3)), 'random numbers differ for the same seed')
    sure, most = sum(1 for v in p if v == 1), sum(1 for v in p if v > 0)
    require(np.shape(r) == (6,) and all(sure <= int(k) <= most for k in r), 'random numbers %s' % (list(r),))
    return rnd(w)


def f_pbad(case):
    try:
        pbinom(list(case))
    except ValueError:
        tick()
        return 'refused'
    raise Fail('probabilities %s were accepted' % (case,))


# ---------------------------------------------------------------- scores
def spacing(dist, par, data, pdf):
    x = sorted(data)
    F = [0.0] + [float(v) for v in dist.cdf(x, *par)] + [1.0]
    out = []
    for k in range(len(x) + 1):
        if 0 < k < len(x) and x[k] == x[k - 1]:
            out.append(math.log(pdf(x[k])))
        else:
            out.append(math.log(F[k + 1] - F[k]))
    return sum(out)


def moran(n, k, lps):
    """p-value of Moran's statistic with k estimated parameters"""
    m = (n + 1) * (math.log(n + 1) + 0.57722) - 0.5 - 1 / (12.0 * (n + 1))
    v = (n + 1) * (math.pi ** 2 / 6 - 1) - 0.5 - 1 / (6.0 * (n + 1))
    T = (-lps + k / 2.0 - (m - math.sqrt(0.5 * n * v))) / math.sqrt(v / (2.0 * n))
    return ss.chi2.sf(max(T, 0), n)


def f_score(case):
    name, par, data, kind = case
    dist, sd = getattr(ws, name), getattr(ss, name)
    d = list(data) if kind == 'list' else np.array(data)
    keep = list(d)
    for method in ('ml', 'mps'):
        tick()
        ph = quiet(dist.fit2, d, *par, method=method, search=False)
        require(list(d) == keep, 'data was changed')
        close(ph.par, par, 'parameters', 1e-14)
        require(list(ph.data) == sorted(data), 'sorted copy of the data')
        ll = sum(float(v) for v in sd.logpdf(sorted(data), *par))
        close(ph.LLmax, ll, 'log likelihood', 1e-10, 1e-10)
        lps = spacing(sd, par, data, lambda v: float(sd.pdf(v, *par)))
        close(ph.LPSmax, lps, 'log product of spacings', 1e-9, 1e-9)
        close(ph.pvalue, moran(len(data), len(par), lps), "p-value of Moran's statistic", 1e-7, 1e-9)
        close(ph.fitfun(ph.par), -ll if method == 'ml' else -lps, 'objective', 1e-9, 1e-9)
        xs = [0.7, 1.9]
        close(ph.cdf(xs), sd.cdf(xs, *par), 'fitted cdf', 1e-12, 1e-14)
        close(ph.pdf(xs), sd.pdf(xs, *par), 'fitted pdf', 1e-12, 1e-14)
        close(ph.sf(xs), sd.sf(xs, *par), 'fitted sf', 1e-12, 1e-14)
        close(ph.isf(0.2), sd.isf(0.2, *par), 'fitted isf', 1e-12, 1e-14)
    return (rnd(ll), rnd(lps))


# ---------------------------------------------------------------- estimates
CLOSED = {
    'expon': (dict(floc=0), lambda x: (0.0, sum(x) / len(x))),
    'rayleigh': (dict(floc=0), lambda x: (0.0, math.sqrt(sum(v * v for v in x) / (2.0 * len(x))))),
    'norm': (dict(), lambda x: (sum(x) / len(x), math.sqrt(sum(v * v for v in x) / len(x) - (sum(x) / len(x)) ** 2))),
}


def f_closed(case):
    name, data = case
    kw, sol = CLOSED[name]
    dist = getattr(ws, name)
    n = len(data)
    tick(3)
    d = np.array(data)
    ph = quiet(dist.fit2, d, **kw)
    want = sol(data)
    require(list(d) == list(data), 'data was changed')
    close(ph.par, want, 'maximum likelihood estimate', 2e-4, 2e-4)
    close(quiet(dist.fit1, d, **kw), ph.par, 'fit1', 1e-9, 1e-12)
    require(list(d) == list(data), 'data was changed by fit1')
    s = want[1]
    cov = {'expon': [[0, 0], [0, s * s / n]], 'rayleigh': [[0, 0], [0, s * s / (4.0 * n)]],
           'norm': [[s * s / n, 0], [0, s * s / (2.0 * n)]]}[name]
    close(ph.par_cov, cov, 'covariance', 5e-3, 5e-4)
    z = ss.norm.isf(0.025)
    sd = np.sqrt(np.diag(ph.par_cov))
    close(ph.par_lower, ph.par - z * sd, 'lower limits', 1e-9, 1e-12)
    close(ph.par_upper, ph.par + z * sd, 'upper limits', 1e-9, 1e-12)
    pa = quiet(dist.fit2, d, alpha=0.3, **kw)
    z = ss.norm.isf(0.15)
    close(pa.par_upper, pa.par + z * np.sqrt(np.diag(pa.par_cov)), 'upper limits for alpha=0.3', 1e-9, 1e-12)
    return rnd(want)


def f_order(case):
    name, kw, data, method = case
    dist = getattr(ws, name)
    base = None
    for k, perm in enumerate(itertools.permutations(data)):
        for kind in ('list', 'array', 'column'):
            if k % 4 and kind != 'array':
                continue
            d = list(perm) if kind == 'list' else np.array(perm) if kind == 'array' else np.array(perm).reshape(-1, 1)
            tick(2)
            ph = quiet(dist.fit2, d, method=method, **kw)
            p1 = quiet(dist.fit1, np.array(perm), method=method, **kw)
            if base is None:
                base = ph
            close(ph.par, base.par, 'estimate for the order %s (%s)' % (perm, kind), 1e-9, 1e-10)
            close(p1, base.par, 'fit1 for the order %s' % (perm,), 1e-9, 1e-10)
            require(np.array_equal(np.ravel(d), perm), 'data was changed to %s' % (np.ravel(d),))
    for i in range(len(base.par)):
        if base.par_fix is None or np.isnan(base.par_fix[i]):
            for step in (-0.02, 0.02):
                p = base.par.copy()
                p[i] += step * max(1, abs(p[i]))
                v = base.fitfun(p)
                require(not v < base.fitfun(base.par) - 1e-5, 'the estimate %s is not optimal: %s is better' % (base.par, p))
    return rnd(base.par)


def f_fixed(case):
    name, names, vals, alias, method = case
    dist = getattr(ws, name)
    numpar = len(names)
    kw = {}
    for i, v in vals:
        kw[alias[i]] = v
    data = np.array([0.6, 0.9, 1.1, 1.3, 1.6, 1.8, 2.3, 2.9])
    tick()
    if len(vals) == numpar:
        try:
            quiet(dist.fit2, data, method=method, **kw)
        except ValueError:
            return 'refused'
        raise Fail('all parameters fixed was accepted')
    ph = quiet(dist.fit2, data, method=method, **kw)
    fx = [i for i, _ in vals]
    close(ph.pvalue, moran(len(data), numpar - len(fx), ph.LPSmax), 'p-value with %d fixed parameters' % len(fx), 1e-7, 1e-9)
    for i, v in vals:
        require(ph.par[i] == v, 'fixed parameter %d is %s instead of %s' % (i, ph.par[i], v))
        require(ph.par_fix[i] == v, 'par_fix[%d] = %s' % (i, ph.par_fix[i]))
    if fx:
        require(list(ph.i_fixed) == fx and list(ph.i_notfixed) == [i for i in range(numpar) if i not in fx], 'indices')
        for i in range(numpar):
            if i not in fx:
                require(np.isnan(ph.par_fix[i]), 'par_fix of a free parameter')
        require(not ph.par_cov[fx, :].any() and not ph.par_cov[:, fx].any(), 'covariance of fixed parameters')
        require(list(ph.par_lower[fx]) == [v for _, v in vals] == list(ph.par_upper[fx]), 'limits of fixed parameters')
        # the free parameters are optimal given the fixed ones
        ok = method == 'mps' or name in ('gumbel_r', 'genextreme') or numpar - 2 in fx   # else the likelihood is unbounded in loc
        fr = [i for i in range(numpar) if i not in fx and ok]
        f0 = ph.fitfun(ph.par)
        for i in fr:
            for step in (-0.02, 0.02):
                p = ph.par.copy()
                p[i] += step * max(1, abs(p[i]))
                v = ph.fitfun(p)
                require(not v < f0 - 1e-4, 'free parameter %d is not optimal given the fixed ones: %s' % (i, ph.par))
    else:
        require(ph.par_fix is None, 'par_fix without fixed parameters')
    return rnd(ph.par)


def f_refuse(case):
    name, kw, exc = case
    tick()
    try:
        quiet(getattr(ws, name).fit2, np.array([0.6, 0.9, 1.1, 1.3]), **kw)
    except {'T': TypeError, 'V': ValueError}[exc]:
        return 'refused'
    raise Fail('%s was accepted' % (kw,))


OPS = [('ml', {}), ('mps', {}), ('same', {}), ('ml', dict(fc=2.0)), ('mps', dict(fc=2.0)), ('same', dict(fscale=1.5))]
_HDATA = [0.6, 0.9, 1.1, 1.3, 1.6, 1.8, 2.3, 2.9]


def f_refit(case):
    data = np.array(_HDATA)
    start, seq = case
    tick(2 * len(seq))
    obj = quiet(ws.weibull_min.fit2, data, method=start, floc=0)
    method = start
    for k in seq:
        m, kw = OPS[k]
        kw = dict(kw, floc=0)
        if m != 'same':
            kw['method'] = method = m
        quiet(obj.fit, **kw)
        fresh = quiet(ws.weibull_min.fit2, data, **dict(kw, method=method))
        close(obj.par, fresh.par, 'parameters after %s' % (seq,), 1e-3, 1e-3)
        close([obj.LLmax, obj.LPSmax, obj.pvalue], [fresh.LLmax, fresh.LPSmax, fresh.pvalue], 'scores', 1e-4, 1e-4)
        close(obj.par_cov, fresh.par_cov, 'covariance', 1e-2, 1e-4)
        close(obj.par_lower, fresh.par_lower, 'limits', 5e-3, 2e-3)
        require(list(obj.i_fixed) == list(fresh.i_fixed), 'fixed parameters')
        close(obj.cdf([0.5, 1.5]), ws.weibull_min.cdf([0.5, 1.5], *obj.par), 'fitted cdf', 1e-12)
        require(obj.method == method, 'method is %s' % obj.method)
        close(obj.fitfun(obj.par), fresh.fitfun(obj.par), 'objective', 1e-10)
    require(list(data) == _HDATA, 'data was changed')
    return rnd(obj.par)


# ---------------------------------------------------------------- profiles
def solve(name, par, i, x, logsf):
    """value of parameter i for which log sf(x) = logsf"""
    y = list(par)
    if name == 'expon':
        return -(x - y[0]) / logsf if i == 1 else x + y[1] * logsf
    if name == 'rayleigh':
        g = math.sqrt(-2 * logsf)
        return (x - y[0]) / g if i == 1 else x - y[1] * g
    if name == 'gumbel_r':
        g = -math.log(-math.log(-math.expm1(logsf)))
        return x - y[1] * g if i == 0 else (x - y[0]) / g
    if name == 'weibull_min':
        return (x - y[1]) / (-logsf) ** (1 / y[0])


def f_profile(case):
    name, kw, data, method, what, i, alpha = case
    dist, sd = getattr(ws, name), getattr(ss, name)
    tick()
    ph = quiet(dist.fit2, np.array(data), method=method, **kw)
    free = [j for j in range(len(ph.par)) if ph.par_fix is None or np.isnan(ph.par_fix[j])]
    fr = [j for j in free if j != i]
    q = 0.2
    xq = float(ph.isf(q))
    if what == 'par':
        P = quiet(ph.profile, i=i)
        centre = ph.par[i]
    elif what == 'quantile':
        P = quiet(ph.profile_quantile, xq, i=i)
        centre = xq
    else:
        P = quiet(ph.profile_probability, math.log(q), i=i)
        centre = math.log(q)
    lo, hi = [float(v) for v in quiet(P.get_bounds, alpha)]
    require(lo < centre < hi, 'interval (%s, %s) does not contain the estimate %s' % (lo, hi, centre))
    level = ss.chi2.isf(alpha, 1) / 2

    def obj(par):
        if par[-1] <= 0:
            return 1e10
        if method == 'ml':
            v = -np.sum(sd.logpdf(sorted(data), *par))
        else:
            v = -np.sum(np.log(np.diff(np.hstack((0, sd.cdf(sorted(data), *par), 1))) + 1e-300))
        return v if np.isfinite(v) else 1e10
    top = -obj(ph.par)

    def prof(v):
        def f(z):
            par = ph.par.copy()
            par[fr] = z
            if par[-1] <= 0 and (len(par) - 1) in fr:
                return 1e10
            par[i] = v if what == 'par' else solve(name, par, i, v, math.log(q)) if what == 'quantile' else solve(name, par, i, xq, v)
            return obj(par)
        if not fr:
            return -f([])
        return max(-optimize.minimize(f, s, method='Nelder-Mead', options=dict(xatol=1e-8, fatol=1e-9, maxiter=4000)).fun
                   for s in (ph.par[fr], ph.par[fr] * 1.3 + 0.05))
    for b in (lo, hi):
        drop = quiet(lambda: top - prof(b))
        require(abs(drop - level) < 0.03 * max(level, 0.5), 'the profile at the bound %s is %s below the maximum instead of %s (interval (%s, %s))' % (b, drop, level, lo, hi))
    close(P.profile_max, top, 'maximum of the profile', 1e-5, 1e-5)
    for v, a in list(zip(P.data, P.args))[::23]:
        close(v, quiet(prof, a), 'profile at %s' % a, 2e-3, 2e-3)
    return (rnd(lo, 2), rnd(hi, 2))


DATA = [(0.3, 0.5, 0.9, 1.1, 1.2, 1.7, 2.2, 3.0), (1.0, 1.4, 1.5, 2.1, 2.2, 2.9), (0.2, 0.25, 0.7, 0.8, 2.0, 2.6, 2.7)]


def groups(tier):
    T = tier == 'thorough'
    lk = [(n, p, q, i, o) for n in LPAR for p in LPAR[n] for q in ((0.9, 0.5, 0.1, 0.01) if not T else (0.95, 0.9, 0.7, 0.5, 0.3, 0.1, 0.01, 1e-4))
          for i in range(len(p)) for o in ('same', 'other') if not (o == 'other' and n in ('genpareto', 'genextreme') and i == 0)]
    tr = [(c, l, s) for c in (0.0, 0.2, 1.0, 2.5, 5.0) for l in (0.0, -1.0, 2.0) for s in (1.0, 0.5, 3.0)]
    grid = (0.0, 0.1, 0.5, 0.9, 1.0)
    pb = [(p, k) for n in range(1, 5 if not T else 6) for p in itertools.product(grid, repeat=n) for k in (('list', 'array') if n < 4 else ('list',))]
    pb += [(tuple(0.05 + 0.9 * ((7 * k) % n) / n for k in range(n)), 'array') for n in range(5, 31)]
    bad = [p for n in (1, 2, 3) for p in itertools.product((0.5, -0.1, 1.1), repeat=n) if set(p) != {0.5}]
    sc = [(n, p, d, k) for n, ps in (('expon', [(0.0, 1.0), (0.0, 2.5)]), ('norm', [(1.0, 1.0), (0.0, 2.0)]), ('weibull_min', [(2.0, 0.0, 1.5), (0.9, 0.2, 1.0)]), ('gumbel_r', [(1.0, 0.7)]))
          for p in ps for m in (2, 3, 4) for d in itertools.product((0.5, 1.0, 2.5), repeat=m) for k in ('list', 'array')]
    cl = [(n, d) for n in CLOSED for m in (3, 4) for d in itertools.product((0.5, 1.0, 2.5, 4.0), repeat=m) if len(set(d)) > 1]
    od = [('expon', dict(floc=0), d, m) for d in itertools.combinations((0.4, 0.9, 1.0, 2.2, 3.1), 4) for m in ('ml', 'mps')]
    od += [('weibull_min', dict(floc=0), d, m) for d in itertools.combinations((0.4, 0.9, 1.3, 2.2, 3.1), 4) for m in ('ml', 'mps')]
    od += [('gumbel_r', {}, d, m) for d in itertools.combinations((0.4, 0.9, 1.3, 2.2, 3.1), 4) for m in ('ml', 'mps')]
    od += [('genextreme', dict(f0=0.1), d, m) for d in itertools.combinations((0.4, 0.9, 1.3, 2.2, 3.1), 4) for m in ('ml', 'mps')]
    fx = []
    for name, names, base in (('weibull_min', ('c', 'loc', 'scale'), (2.0, 0.2, 1.5)), ('exponweib', ('a', 'c', 'loc', 'scale'), (1.5, 2.0, 0.0, 1.4)),
                              ('gumbel_r', ('loc', 'scale'), (1.0, 0.7)), ('genextreme', ('c', 'loc', 'scale'), (0.1, 1.2, 0.6))):
        ns = len(names) - 2
        for r in range(len(names) + 1):
            for sub in itertools.combinations(range(len(names)), r):
                if name == 'exponweib' and r < 2:
                    continue
                for st in range(3):
                    alias = [('f%d' % j, 'f' + names[j], 'fix_' + names[j])[st] for j in range(ns)] + ['floc', 'fscale']
                    if st and not any(j < ns for j in sub):
                        continue
                    for m in ('ml', 'mps'):
                        fx.append((name, names, tuple((j, base[j]) for j in sub), alias, m))
    rf = [('weibull_min', dict(nonsense=1), 'T'), ('weibull_min', dict(f0=1, fc=1), 'V'), ('weibull_min', dict(fc=1, fix_c=1), 'V'),
          ('exponweib', dict(f1=1, fix_c=2), 'V'), ('expon', dict(optimizer='nonsense'), 'V'), ('expon', dict(fc=1), 'T')]
    hi = [(s, q) for s in ('ml', 'mps') for n in range(1, 4 if T else 3) for q in itertools.product(range(len(OPS)), repeat=n)]
    pr = []
    for name, kw, free in (('expon', dict(floc=0), (1,)), ('rayleigh', dict(floc=0), (1,)), ('gumbel_r', {}, (0, 1)), ('norm', {}, (0, 1)),
                           ('weibull_min', dict(floc=0), (0, 2))):
        for d in DATA:
            for m in ('ml', 'mps'):
                for i in free:
                    for w in ('par', 'quantile', 'probability'):
                        if w != 'par' and (name == 'norm' or (name == 'weibull_min' and i == 0)):
                            continue
                        for a in (0.05, 0.1, 0.3) if len(free) == 1 or T else (0.1,):
                            pr.append((name, kw, d, m, w, i, a))
    return [
        Group('links', lk, f_link, note='every link function x parameters x probabilities x parameter index'),
        Group('truncrayleigh', tr, f_trunc),
        Group('truncrayleigh-moments', [(0.5, 0.0, 1.0)], f_truncmom, note='recorded finding: moments ignore the truncation'),
        Group('pbinom', pb, f_pbinom, note='all probability vectors over 5 values'),
        Group('pbinom-refuses', bad, f_pbad),
        Group('scores', sc, f_score, note='all small data sets including ties x parameters'),
        Group('closed-form', cl, f_closed),
        Group('order', od, f_order, note='all orders of the data, both methods, list, vector and column'),
        Group('fixed', fx, f_fixed, note='every subset of fixed parameters under every name'),
        Group('refuses', rf, f_refuse),
        Group('refit-history', hi, f_refit, note='all histories of refits with changing method and fixed parameters'),
        Group('profiles', pr, f_profile, chunk=1),
    ]
