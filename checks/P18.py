"""P18 Quadrature: Gauss rules, gaussq, Clenshaw-Curtis, Romberg, quadgr, closed Newton-Cotes rules, oscillating integrals."""
import itertools
import math
import numpy as np
from vk import Group, Fail, tick
from ref import close, require, rnd
import wafo.integrate as wi
import wafo.integrate_oscillating as wo

PROPERTY = 'P18'
ASSUMPTIONS = ['limits, coefficients and parameters over small lattices; reference values are closed forms or composite '
               '20-point Gauss rules on 60..400 panels, exact to about 1e-12']


# ---- moments of the weight functions --------------------------------------------------------------------------------
def beta_f(p, q):
    return math.exp(math.lgamma(p) + math.lgamma(q) - math.lgamma(p + q))


def moment(wfun, k, al, be):
    """(basis function, integral of basis_k * weight) over the standard interval"""
    if wfun == 1:
        return lambda x: x ** k, 0.0 if k % 2 else 2.0 / (k + 1)
    if wfun == 2:
        return lambda x: x ** k, 0.0 if k % 2 else math.gamma((k + 1) / 2)
    if wfun == 3:
        return lambda x: x ** k, math.gamma(al + k + 1)
    if wfun == 4:
        return lambda x: ((1 + x) / 2) ** k, 2 ** (al + be + 1) * beta_f(al + 1, be + k + 1)
    if wfun == 5:
        return lambda x: ((1 + x) / 2) ** k, beta_f(0.5, k + 0.5)
    if wfun == 6:
        return lambda x: ((1 + x) / 2) ** k, 4 * beta_f(1.5, k + 1.5)
    if wfun == 7:
        return lambda x: x ** k, beta_f(k + 1.5, 0.5)
    if wfun == 8:
        return lambda x: x ** k, beta_f(k + 1, 0.5)
    return lambda x: x ** k, beta_f(k + 1, 1.5)


def check_rule(x, w, n, wfun, al, be, what):
    require(np.shape(x) == (n,) and np.shape(w) == (n,), '%s: shapes %s %s for n=%d' % (what, np.shape(x), np.shape(w), n))
    require(np.all(w > 0), '%s: weights %s' % (what, w))
    require(len(set(np.round(x, 12))) == n, '%s: nodes are not distinct %s' % (what, x))
    lo, hi = {1: (-1, 1), 2: (-np.inf, np.inf), 3: (0, np.inf), 4: (-1, 1), 5: (-1, 1), 6: (-1, 1)}.get(wfun, (0, 1))
    require(np.all((x > lo) & (x < hi)), '%s: nodes outside the interval %s' % (what, x))
    for k in range(2 * n):
        b, m = moment(wfun, k, al, be)
        got, scale = np.sum(w * b(x)), np.sum(w * abs(b(x)))
        if not abs(got - m) <= 1e-9 * scale + 1e-13:
            raise Fail('%s: moment %d is %r, want %r' % (what, k, got, m))


def f_rule(case):
    wfun, n, al, be, route = case
    tick()
    if route == 'qrule':
        x, w = wi.qrule(n, wfun, al, be)
    elif wfun == 1:
        x, w = wi.p_roots(n, route)
    elif wfun == 2:
        x, w = wi.h_roots(n, route)
    elif wfun == 3:
        x, w = wi.la_roots(n, al, route)
    else:
        x, w = wi.j_roots(n, al, be, route)
    check_rule(np.asarray(x), np.asarray(w), n, wfun, al, be, 'wfun %d n=%d alpha=%s beta=%s %s' % (wfun, n, al, be, route))
    return rnd(np.sort(x), 8)


def f_prule(case):
    n, a, b, route = case
    x, w = wi.p_roots(n, route, a=a, b=b)
    tick()
    require(np.shape(x) == np.shape(w) == (n,), 'shape %s' % (np.shape(x),))
    for k in range(2 * n):
        c = max(abs(a), abs(b))
        want = (b * (b / c) ** k - a * (a / c) ** k) / (k + 1)
        close(np.sum(w * (x / c) ** k), want, 'degree %d over [%s, %s]' % (k, a, b), 1e-10, 1e-11)
    return rnd(x)


# ---- gaussq ---------------------------------------------------------------------------------------------------------
def poly_weighted(wfun, c, a, b, al, be):
    """integral of polyval(c, x)*weight over (a, b) through the binomial moments of the mapped variable"""
    if wfun == 2:
        return sum(ck * (0.0 if k % 2 else math.gamma((k + 1) / 2)) for k, ck in enumerate(c[::-1]))
    if wfun == 3:
        return sum(ck * math.gamma(al + k + 1) for k, ck in enumerate(c[::-1]))
    L = b - a
    tot = 0.0
    p, q = {1: (0, 0), 4: (be, al), 5: (-0.5, -0.5), 6: (0.5, 0.5), 7: (0.5, -0.5), 8: (0, -0.5), 9: (0, 0.5)}[wfun]
    for k, ck in enumerate(c[::-1]):           # x = a + L*u, weight (x-a)**p (b-x)**q
        for j in range(k + 1):
            tot += ck * math.comb(k, j) * a ** (k - j) * L ** j * beta_f(j + p + 1, q + 1)
    if wfun == 1:
        return tot * L
    return tot * L ** (p + q + 1)


def f_gq(case):
    wfun, a, b, c, al, be, kind = case
    fun = (lambda x: np.polyval(c, x)) if kind == 'float' else (lambda x: np.array(np.polyval(c, np.floor(x)), int))
    tick()
    v, e = wi.gaussq(fun, a, b, wfun=wfun, alpha=al, beta=be, releps=1e-9, abseps=1e-9)
    require(np.shape(v) == (1,) and np.shape(e) == (1,) and np.all(np.asarray(e) >= 0), 'shape %s error %s' % (np.shape(v), e))
    close(v[0], poly_weighted(wfun, c, a, b, al, be), 'integral of %s, weight %d over (%s, %s)' % (c, wfun, a, b), 1e-8, 1e-8)
    return rnd(v)


def f_gqconst(case):
    """functions with integer or boolean values"""
    a, b, dt, val = case
    v, e = wi.gaussq(lambda x: np.full(np.shape(x), val, dtype=dt), a, b)
    tick(3)
    close(v[0], (b - a) * float(val), 'gaussq of a constant of type %s' % dt)
    q = wi.quadgr(lambda x: np.full(np.shape(x), val, dtype=dt), a, b)
    close(q[0], (b - a) * float(val), 'quadgr of a constant of type %s' % dt)
    y = wi.clencurt(lambda x: np.full(np.shape(x), val, dtype=dt), a, b)
    close(y[0][0], (b - a) * float(val), 'clencurt of a constant of type %s' % dt)
    return rnd(v)


def f_gqvec(case):
    freqs, a, b, eps = case
    f = np.array(freqs, float)

    def fun(x, w):
        return np.cos(w * x)
    A, B = np.array(a, float), np.array(b, float)
    keep = [v.copy() for v in (f, A, B)]
    tick(1 + len(freqs))
    v, e = wi.gaussq(fun, A, B, args=(f,), releps=eps, abseps=eps)
    shp = np.broadcast(f, A, B).shape
    require(np.shape(v) == shp and np.shape(e) == shp, 'shape %s, want %s' % (np.shape(v), shp))
    bf, bA, bB = np.broadcast_arrays(f, A, B)
    for i in np.ndindex(*shp):
        w, lo, hi = bf[i], bA[i], bB[i]
        want = (math.sin(w * hi) - math.sin(w * lo)) / w if w else hi - lo
        require(abs(v[i] - want) <= max(eps, eps * abs(want)) * 1.01 + 1e-12, 'component %s: %r, want %r' % (i, v[i], want))
        one, err = wi.gaussq(fun, lo, hi, args=(w,), releps=eps, abseps=eps)
        close(v[i], one[0], 'component %s alone' % (i,), 1e-12, 1e-13)
        close(e[i], err[0], 'error of component %s alone' % (i,), 1e-9, 1e-12)
    for p, q in zip(keep, (f, A, B)):
        require(np.array_equal(p, q), 'limits or parameters were changed')
    return rnd(v)


OPS = [(1, 0, 0), (3, 0, 0), (3, 0.5, 0), (3, 0.5000001, 0), (4, 0.5, 0), (4, 0, 0.5), (4, 0.5, 0.5), (5, 0, 0), (2, 0, 0)]


def f_gqhist(case):
    store = getattr(wi, '_NODES_AND_WEIGHTS', None)
    if hasattr(store, 'clear'):
        store.clear()
    out = []
    for op in case:
        wfun, al, be = OPS[op]
        tick()
        v, _e = wi.gaussq(lambda x: x * x + x + 1, -1, 1, wfun=wfun, alpha=al, beta=be, releps=1e-10, abseps=1e-10)
        want = poly_weighted(wfun, [1, 1, 1], -1, 1, al, be)
        require(abs(v[0] - want) <= 1e-10 * abs(want), 'call %s of the history %s: %.12g, want %.12g' % (
            OPS[op], [OPS[o] for o in case], v[0], want))
        out.append(v[0])
    return rnd(out)


# ---- Clenshaw-Curtis ------------------------------------------------------------------------------------------------
def polyint(c, a, b):
    p = np.polyint(np.array(c, float))
    return float(np.polyval(p, b) - np.polyval(p, a))


def f_cc(case):
    n, c, lims = case
    A, B = np.array([l[0] for l in lims], float), np.array([l[1] for l in lims], float)
    tick(3)
    store = []

    def fun(x):
        y = np.polyval(c, x)
        store.append((y, y.copy()))
        return y
    q, e = wi.clencurt(fun, A, B, n)
    require(np.shape(q) == (len(lims),) and np.shape(e) == (len(lims),), 'shape %s' % (np.shape(q),))
    want = [polyint(c, a, b) for a, b in lims]
    close(q, want, 'clencurt n=%d of %s over %s' % (n, c, lims), 1e-10, 1e-10)
    require(np.all(np.asarray(e) >= 0), 'negative error estimate %s' % (e,))
    for y, k in store:
        require(np.array_equal(y, k), 'the values returned by the function were changed')
    if len(lims) == 4:
        q2, _ = wi.clencurt(fun, A.reshape(2, 2), B.reshape(2, 2), n)
        require(np.shape(q2) == (2, 2), 'shape %s' % (np.shape(q2),))
        close(np.ravel(q2), want, 'matrix of limits', 1e-10, 1e-10)
    if len(lims) == 1:
        a, b = lims[0]
        x = np.cos(np.pi * np.arange(2 * n, -1, -1) / (2 * n)) * (b - a) / 2. + (b + a) / 2
        T = np.c_[x, np.polyval(c, x), x]
        keep = T.copy()
        q3, _ = wi.clencurt(T, a, b, n)
        close(q3, [want[0], (b * b - a * a) / 2], 'table', 1e-10, 1e-10)
        require(np.array_equal(T, keep), 'the table was changed')
    return rnd(q)


# ---- scalar rules ---------------------------------------------------------------------------------------------------
FUNS = {
    'exp': (np.exp, lambda t: math.exp(t)),
    'cos': (np.cos, lambda t: math.sin(t)),
    'rat': (lambda x: 1 / (1 + x * x), lambda t: math.atan(t)),
    'quad': (lambda x: 3 * x ** 2 - x + 2, lambda t: t ** 3 - t * t / 2 + 2 * t),
    'quint': (lambda x: x ** 5 - x ** 4, lambda t: t ** 6 / 6 - t ** 5 / 5),
    'lin': (lambda x: 1.0 * x, lambda t: t * t / 2),
    'one': (lambda x: np.ones(np.shape(x)), lambda t: t),
}


def f_romberg(case):
    name, a, b, eps = case
    f, F = FUNS[name]
    tick()
    v, e = wi.romberg(f, a, b, releps=eps, abseps=eps)
    want = F(b) - F(a)
    require(abs(float(v) - want) <= max(eps, eps * abs(want)) + 1e-12, 'romberg of %s over (%s, %s) eps=%g: %r, want %r' % (name, a, b, eps, v, want))
    require(float(e) >= 0, 'error %s' % e)
    return rnd(v)


def f_quadgr(case):
    name, a, b, eps = case
    f, F = FUNS[name]
    tick()
    v, e = wi.quadgr(f, a, b, abseps=eps)
    want = F(b) - F(a)
    require(abs(v - want) <= max(eps, 1e-11 * abs(want)), 'quadgr of %s over (%s, %s) eps=%g: %r, want %r' % (name, a, b, eps, v, want))
    require(np.isscalar(v) or np.ndim(v) == 0, 'shape')
    require(e >= 0, 'error %s' % e)
    return rnd(v)


INF = float('inf')
TAILS = {
    'exp': (lambda c: (lambda x: np.exp(-c * np.abs(x))), lambda c, t: math.exp(-c * t) / c),
    'gauss': (lambda c: (lambda x: np.exp(-(c * x) ** 2)), lambda c, t: math.sqrt(math.pi) / 2 / c * math.erfc(c * t)),
    'cauchy': (lambda c: (lambda x: c / (c * c + x * x)), lambda c, t: math.pi / 2 - math.atan(t / c)),
    'skew': (lambda c: (lambda x: np.where(x > 0, 1, 2) * np.exp(-c * np.abs(x))), lambda c, t: math.exp(-c * t) / c),
}


def tail_ref(name, c, a, b):
    T = TAILS[name][1]

    def right(t):               # integral over (t, inf)
        if t == INF:
            return 0.0
        if t == -INF:
            return T(c, 0) * (3 if name == 'skew' else 2)
        if t >= 0:
            return T(c, t)
        k = 2 if name == 'skew' else 1
        return T(c, 0) + k * (T(c, 0) - T(c, -t))
    return right(a) - right(b)


def f_quadinf(case):
    name, c, a, b = case
    f = TAILS[name][0](c)
    tick()
    v, e = wi.quadgr(f, a, b, abseps=1e-8)
    want = tail_ref(name, c, a, b)
    require(abs(v - want) <= 1e-6, 'quadgr of %s(%s) over (%s, %s): %r, want %r' % (name, c, a, b, v, want))
    return rnd(v, 6)


def f_quadz(case):
    c, a, b = case
    tick()
    v, e = wi.quadgr(lambda z: np.polyval(c, z), complex(*a), complex(*b))
    p = np.polyint(np.array(c, complex))
    want = np.polyval(p, complex(*b)) - np.polyval(p, complex(*a))
    require(abs(v - want) <= 1e-9 * (1 + abs(want)), 'line integral of %s from %s to %s: %r, want %r' % (c, a, b, v, want))
    return rnd([np.real(v), np.imag(v)])


def f_closed(case):
    n, a, b, c = case
    x = np.linspace(a, b, n)
    y = np.polyval(c, x)
    want = polyint(c, a, b)
    tick(2)
    if len(c) <= 6 and (n - 1) % 4 == 0:
        close(wi.boole(y, x), want, 'boole', 1e-10, 1e-10)
    if len(c) <= n:
        close(wi.chebychev(y, x), want, 'chebychev', 1e-7, 1e-7)
        if len(c) <= n - 1:
            close(wi.chebychev(y, x, n - 1), want, 'chebychev of lower degree', 1e-7, 1e-7)
    return rnd(want)


# ---- oscillating integrals ------------------------------------------------------------------------------------------
def osc_ref(f, g, a, b, om, panels=400):
    x, w = np.polynomial.legendre.leggauss(20)
    e = np.linspace(a, b, panels + 1)
    h, m = np.diff(e) / 2, (e[1:] + e[:-1]) / 2
    X = m[:, None] + h[:, None] * x
    return np.sum(w * h[:, None] * f(X) * np.exp(1j * om * g(X)))


OF = {'1': lambda x: 0. * x + 1, 'x': lambda x: 1. * x, 'x2+1': lambda x: x * x + 1, 'exp': lambda x: np.exp(x), 'rat': lambda x: 1 / (1 + x * x)}
OG = {'x': (lambda x: 1. * x, lambda x: 0. * x + 1), '2x+1': (lambda x: 2. * x + 1, lambda x: 0. * x + 2), '-x': (lambda x: -1. * x, lambda x: 0. * x - 1),
      'x2': (lambda x: x * x, lambda x: 2. * x), 'x2+x': (lambda x: x * x + x, lambda x: 2. * x + 1), 'exp': (lambda x: np.exp(x), lambda x: np.exp(x))}


def f_osc(case):
    cls, fn, gn, a, b, om, basis, endp = case
    f, (g, dg) = OF[fn], OG[gn]
    kw = dict(dg=dg, a=a, b=b, basis=getattr(wo, basis), full_output=True)
    if endp is not None:
        kw['endpoints'] = endp
    tick(2)
    r = getattr(wo, cls)(f, g, **kw)
    v, info = r(om)
    want = osc_ref(f, g, a, b, om)
    tol = 1e-7 if basis == 'chebyshev_basis' else 1e-5
    require(np.all(abs(v - want) <= tol * (1 + abs(want))), '%s of %s exp(i %s (%s)) over (%s, %s): %r, want %r' % (cls, fn, om, gn, a, b, v, want))
    require(np.all(np.asarray(info.error_estimate) >= 0) and info.n > 0, 'info %s' % (info,))
    r2 = getattr(wo, cls)(f, g, **dict(kw, full_output=False))(om)
    require(np.all(r2 == v), 'full_output changed the value')
    v3, _ = r(om)
    require(np.all(v3 == v), 'a second call of the same integrator gave %r after %r' % (v3, v))
    return rnd([np.real(v), np.imag(v)], 5)


def f_oschist(case):
    """the same integrator object used for a history of frequencies"""
    cls, oms = case
    f, (g, dg) = OF['exp'], OG['x2+x']
    r = getattr(wo, cls)(f, g, dg=dg, a=0, b=1)
    out = []
    for om in oms:
        tick()
        v = r(om)
        want = osc_ref(f, g, 0, 1, om)
        require(np.all(abs(v - want) <= 1e-7), 'omega=%s after %s: %r, want %r' % (om, oms, v, want))
        out.append(complex(np.ravel(v)[0]))
    return rnd([z.real for z in out], 6)


def f_oscinf(case):
    a, b, om, c = case

    def f(x):
        return np.exp(-c * np.abs(x))
    tick()
    v, info = wo.QuadOsc(f, lambda x: x, lambda x: 0 * x + 1., a=a, b=b, full_output=True)(om)

    def right(t):
        return np.exp((-c + 1j * om) * t) / (c - 1j * om)

    def left(t):
        return np.exp((c + 1j * om) * t) / (c + 1j * om)
    lo, hi = min(a, b), max(a, b)
    if lo == -INF and hi == INF:
        want = right(0) + left(0)
    elif hi == INF:
        want = right(lo) if lo >= 0 else right(0) + left(0) - left(lo)
    else:
        want = left(hi) if hi <= 0 else left(0) + right(0) - right(hi)
    if a > b:
        want = -want
    require(np.all(abs(v - want) <= 1e-6), 'omega=%s over (%s, %s): %r, want %r' % (om, a, b, v, want))
    return rnd([np.real(v), np.imag(v)], 5)


def f_nodes(case):
    name, m, delta = case
    x = np.asarray(getattr(wo, name)(m, delta))
    tick()
    require(np.all(np.abs(x) <= 1), '%s(%s): outside [-1, 1]: %s' % (name, m, x))
    s = np.sort(x)
    require(len(s) == 1 or np.all(np.diff(s) > 0), '%s(%s): not distinct %s' % (name, m, x))
    if not (name in ('adaptive_levin_points',) and m % 2 == 0 or name == 'open_levin_points' and m % 2 == 0):
        close(s, -s[::-1], '%s(%s) is symmetric' % (name, m), 0, 1e-12)
    if name in ('chebyshev_extrema', 'chebyshev_roots', 'adaptive_levin_points', 'open_levin_points'):
        require(len(x) == m, '%s(%s) has %d nodes' % (name, m, len(x)))
    if name == 'chebyshev_extrema':
        close(s, -np.cos(np.pi * np.arange(m) / (m - 1)), name, 0, 1e-13)
    if name == 'chebyshev_roots':
        close(s, -np.cos(np.pi * (np.arange(m) + 0.5) / m), name, 0, 1e-13)
    if name == 'adaptive_levin_points':
        close([s[0], s[-1]], [-1, 1], 'end points', 0, 1e-13)
    return rnd(x)


def f_basis(case):
    name, k, n, t = case
    b = getattr(wo, name)
    c = [0.0] * k + [1.0]
    t = np.array(t, float)
    P = np.polynomial.chebyshev.cheb2poly(c) if name.startswith('cheb') else np.array(c)
    tick(2)
    close(b(t, k), np.polynomial.polynomial.polyval(t, P), 'basis', 1e-10, 1e-10)
    D = np.polynomial.polynomial.polyder(P, n) if n <= k else np.zeros(1)
    close(b.derivative(t, k, n=n), np.polynomial.polynomial.polyval(t, D), 'derivative', 1e-9, 1e-9)
    return rnd(P)


def f_bookkeep(case):
    """nested grids of the tanh-sinh rules; extrapolation of the last three terms of a geometric sequence"""
    q, r, n = case
    seq = [1.0 + q * r ** i for i in range(n)]
    tick(2)
    for mod in (wi, wo):
        close(mod.richardson(np.array(seq), n - 1), 1.0, 'limit of the geometric sequence', 1e-9, 1e-9)
    return rnd(seq)


def groups(tier):
    T = tier == 'thorough'
    N = range(1, 33 if T else 19)
    AL = [-0.75, -0.5, 0.0, 0.5, 1.0, 2.0] + ([-0.9, 1.7, 3.0] if T else [])
    rules = []
    for n in N:
        for wf in (1, 2, 5, 6, 7, 8, 9):
            rules.append((wf, n, 0, 0, 'qrule'))
        rules += [(1, n, 0, 0, r) for r in ('newton', 'newton1', 'eigenvalue')] + [(2, n, 0, 0, r) for r in ('newton', 'eigenvalue')]
        if n <= 16:
            rules += [(3, n, al, 0, r) for al in AL for r in ('qrule', 'newton', 'eigenvalue')]
        rules += [(4, n, al, be, r) for al in AL for be in AL for r in ('qrule', 'eigenvalue')]
    lims = [(0, 1), (-1, 1), (1, 3), (-2, 0.5), (2, 2.25), (0, 4)]
    polys = [[1], [2, 1], [1, 0, 0], [1, -1, 2], [1, 0, -2, 1], [3, 1, 0, 0, -1], [1, 0, 0, 2, 0, 1]]
    if T:
        polys += [[a, b, c, d] for a in (-1, 0, 2) for b in (-1, 0, 1) for c in (0, 3) for d in (-2, 1)]
        lims += [(0.1, 0.2), (-5, -3), (10, 11)]
    rev = [(b, a) for a, b in lims]
    gq = [(w, a, b, c, al, be, 'float') for w in range(1, 10) for a, b in lims + (rev if w == 1 else [])
          for c in polys for al, be in ([(0, 0)] if w not in (3, 4) else [(0.5, 0), (0, 0)] if w == 3 else
                                        [(0, 0), (0.5, 0), (0, 1), (-0.5, 0.5), (1, 0.5)])]
    FR = [0, 0.5, 3, 9, 25]
    vec = [(f, a, b, eps) for f in itertools.product(FR, repeat=2) for a in (0, [0, 1]) for b in (2, [2, 1.5], [[2], [3]]) for eps in (1e-3, 1e-8)]
    vec += [(f, 0, 2, 1e-6) for f in itertools.product(FR, repeat=3)]
    depth = 4 if T else 3
    hist = [h for d in range(1, depth + 1) for h in itertools.product(range(len(OPS)), repeat=d)]
    cc = []
    for n in range(1, 7):
        for c in polys:
            if len(c) <= 2 * n + 1:
                cc += [(n, c, [l]) for l in lims + rev]
                cc += [(n, c, list(p)) for p in itertools.product(lims[:3] + rev[:2], repeat=2)]
                cc += [(n, c, list(p)) for p in itertools.permutations(lims + rev[:1], 4)][::1 if T else 40]
    pts = [-2, -1, 0, 0.25, 0.5, 1, 3]
    sc = [(f, a, b, e) for f in sorted(FUNS) for a in pts for b in pts for e in (1e-3, 1e-5, 1e-8) if a != b]
    qi = [(n, c, a, b) for n in sorted(TAILS) for c in (0.5, 1, 2) for a, b in
          [(t, INF) for t in (-1, 0, 0.5, 2)] + [(-INF, t) for t in (-1, 0, 0.5, 2)] + [(-INF, INF), (INF, -INF), (INF, 1), (0, -INF)]
          if not (n in ('skew', 'exp') and ((a < 0 and a != -INF) or (b > 0 and b != INF) or (a == INF and b == 1)) )]
    qz = [(c, a, b) for c in polys for a in itertools.product((-1, 0, 2), repeat=2) for b in itertools.product((-1, 1), repeat=2) if a != b]
    cl = [(n, a, b, c) for n in (2, 3, 4, 5, 6, 9, 13, 17) for a, b in lims for c in polys]
    osc = [('QuadOsc', f, g, a, b, om, 'chebyshev_basis', e) for f in sorted(OF) for g in sorted(OG) for a, b in [(0, 1), (-1, 1), (-1, 2), (1, 0), (2, -1)]
           for om in (0, 1, 7.5, 40) for e in (None, True)]
    osc += [('EvansWebster', f, g, a, b, om, 'chebyshev_basis', e) for f in sorted(OF) for g in sorted(OG) for a, b in [(0, 1), (-1, 1), (-1, 2)]
            for om in (0, 1, 7.5, 40) for e in (None, True)]
    osc += [('AdaptiveLevin', f, g, a, b, om, 'chebyshev_basis', e) for f in sorted(OF) for g in ('x', '-x', 'x2', '2x+1') for a, b in [(0, 1), (-1, 1)]
            for om in ((1, 7.5, 40) if T else (1, 40)) for e in (None, False)]
    osc += [(c, f, g, 0, 1, om, 'poly_basis', None) for c in ('QuadOsc', 'EvansWebster') for f in ('1', 'x2+1') for g in ('x', 'x2') for om in (1, 7.5)]
    oh = [(c, h) for c in ('QuadOsc', 'EvansWebster') for h in itertools.product((0, 3, 20, 60), repeat=3)]
    oi = [(a, b, om, c) for a, b in [(0, INF), (1, INF), (-INF, 0), (-INF, -1), (INF, 1), (-1, -INF)] for om in (0.5, 1, 3) for c in (1, 2)]
    nd = [(n, m, d) for n in ('chebyshev_extrema', 'chebyshev_roots') for m in range(2, 41) for d in (None, 10)]
    nd += [('chebyshev_roots', 1, None)]
    nd += [(n, m, d) for n in ('adaptive_levin_points', 'open_levin_points') for m in range(3, 24) for d in (1, 5, 10, 50, 300)]
    nd += [(n, m, None) for n in ('tanh_sinh_nodes', 'tanh_sinh_open_nodes') for m in range(3, 60)]
    bs = [(nm, k, n, t) for nm in ('chebyshev_basis', 'poly_basis') for k in range(8) for n in range(1, 5) for t in ([-1, -0.4, 0, 0.3, 1], [0.5])]
    return [
        Group('gauss-rules', rules, f_rule, note='qrule and root functions, 9 weight functions, every n up to the bound: all moments up to degree 2n-1'),
        Group('legendre-limits', [(n, a, b, r) for n in range(1, 12) for a, b in lims + rev for r in ('newton', 'newton1', 'eigenvalue')], f_prule),
        Group('gaussq', gq, f_gq, note='9 weight functions x limits x polynomials against closed forms'),
        Group('integer-valued', [(a, b, d, v) for a, b in lims + rev for d, v in (('int64', 1), ('int64', 3), ('bool', True), ('float32', 2))], f_gqconst),
        Group('gaussq-vectorised', vec, f_gqvec, note='every vector of frequencies: components converge at different refinements'),
        Group('gaussq-history', hist, f_gqhist, note='all call histories over 9 rules: the cache of rules must not change an answer'),
        Group('clencurt', cc, f_cc),
        Group('romberg', sc, f_romberg),
        Group('quadgr', sc, f_quadgr),
        Group('quadgr-infinite', qi, f_quadinf),
        Group('quadgr-complex', qz, f_quadz),
        Group('tabulated', cl, f_closed),
        Group('oscillating', osc, f_osc, chunk=6),
        Group('oscillating-history', oh, f_oschist),
        Group('oscillating-infinite', oi, f_oscinf),
        Group('nodes', nd, f_nodes),
        Group('basis', bs, f_basis),
        Group('richardson', [(q, r, n) for q in (-2., .5, 1, 3) for r in (0.1, 0.25, 0.5) for n in (3, 4, 5)], f_bookkeep),
    ]
