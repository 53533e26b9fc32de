"""P19 Multivariate normal probabilities and expectations: cdfnorm2d, prbnorm2d, prbnormndpc, prbnormtndpc, prbnormnd, Rind, cdflomax."""
import itertools
import math
import numpy as np
from scipy.special import ndtr
from vk import Group, Fail, tick
from ref import close, require, rnd
import wafo.gaussian as wg

PROPERTY = 'P19'
INF = float('inf')
ASSUMPTIONS = ['dimension at most 4, limits, means and correlations over small lattices; reference values are tensor Gauss rules '
               'over the truncated densities; Monte Carlo based methods run with a fixed seed and are compared at their '
               'requested accuracy']
_X, _W = np.polynomial.legendre.leggauss(40)


def panels(lo, hi, n):
    e = np.linspace(lo, hi, n + 1)
    h, m = np.diff(e) / 2, (e[1:] + e[:-1]) / 2
    return (m[:, None] + h[:, None] * _X).ravel(), (h[:, None] * _W).ravel()


_T, _TW = panels(-9, 9, 6)
_PHI = _TW * np.exp(-_T * _T / 2) / math.sqrt(2 * math.pi)


def ref2(b1, b2, r):
    """P(X1 < b1, X2 < b2)"""
    if abs(r) == 1:
        if r > 0:
            return float(ndtr(min(b1, b2)))
        return max(0.0, float(ndtr(b1) - ndtr(-b2)))
    hi = min(b1, 9.0)
    if hi <= -9:
        return 0.0
    s = math.sqrt(1 - r * r)
    cuts = sorted({-9.0, hi} | ({c for c in [b2 / r + k * s / abs(r) for k in (-4, -1, 0, 1, 4)] if -9 < c < hi} if r and abs(b2) < 1e9 else set()))
    tot = 0.0
    for lo, up in zip(cuts, cuts[1:]):
        x, w = panels(lo, up, 2)
        tot += np.sum(w * np.exp(-x * x / 2) * ndtr((b2 - r * x) / s))
    return float(tot / math.sqrt(2 * math.pi))


def f_cdf2(case):
    b1, b2, r = case
    tick()
    got = wg.cdfnorm2d(b1, b2, r)
    require(np.shape(got) == (), 'shape %s' % (np.shape(got),))
    close(got, ref2(b1, b2, r), 'P(X1<%s, X2<%s), r=%s' % case, 1e-10, 1e-12)
    return rnd(got)


ITEMS = [(-0.5, 1.0, 0.1), (0.3, -0.7, -0.6), (1.0, 0.2, 0.8), (1.0, 0.5, 0.95), (0.4, 1.2, -0.97), (0.2, 0.9, 1.0), (0.5, 0.3, -1.0)]


def f_cdf2vec(case):
    it = [ITEMS[i] for i in case]
    A = [np.array([t[k] for t in it]) for k in range(3)]
    keep = [a.copy() for a in A]
    tick(2)
    got = wg.cdfnorm2d(*A)
    want = [ref2(*t) for t in it]
    require(np.shape(got) == (len(it),), 'shape %s' % (np.shape(got),))
    close(got, want, 'components %s' % (it,), 1e-10, 1e-12)
    if len(it) == 4:
        m = wg.cdfnorm2d(*[a.reshape(2, 2) for a in A])
        require(np.shape(m) == (2, 2), 'shape %s' % (np.shape(m),))
        close(np.ravel(m), want, 'matrix', 1e-10, 1e-12)
    for a, b in zip(keep, A):
        require(np.array_equal(a, b), 'arguments were changed')
    g2 = wg.cdfnorm2d(A[0], it[0][1], A[2])
    close(g2, [ref2(t[0], it[0][1], t[2]) for t in it], 'broadcast limit', 1e-10, 1e-12)
    return rnd(got)


def f_prb2(case):
    a, b, r = case
    tick()
    got = float(wg.prbnorm2d(list(a), list(b), r))
    want = ref2(b[0], b[1], r) - ref2(a[0], b[1], r) - ref2(b[0], a[1], r) + ref2(a[0], a[1], r)
    if a[0] >= b[0] or a[1] >= b[1]:
        want = 0.0
    close(got, want, 'P(%s < X < %s), r=%s' % (a, b, r), 1e-9, 1e-11)
    return rnd(got)


# ---- product correlation --------------------------------------------------------------------------------------------
def refpc(rho, a, b):
    v = np.ones_like(_T)
    for r, lo, hi in zip(rho, a, b):
        if abs(r) == 1:
            v = v * ((r * _T > lo) & (r * _T < hi))
        else:
            s = math.sqrt(1 - r * r)
            v = v * (ndtr((hi - r * _T) / s) - ndtr((lo - r * _T) / s))
    return float(np.sum(_PHI * v))


def f_pc(case):
    rho, a, b, simpson, breaks = case
    R, A, B = np.array(rho, float), np.array(a, float), np.array(b, float)
    keep = [v.copy() for v in (R, A, B)]
    tick()
    v, e, ier = wg.prbnormndpc(R, A, B, 1e-6, 1e-6, usesimpson=simpson, usebreakpoints=breaks)
    want = refpc(rho, a, b)
    close(v, want, 'P(%s < X < %s), product correlation %s' % (a, b, rho), 0, 2e-6)
    require(ier == 0 and e >= 0, 'ier %s error %s' % (ier, e))
    for p, q in zip(keep, (R, A, B)):
        require(np.array_equal(p, q), 'arguments were changed')
    return rnd(v, 5)


def f_tpc(case):
    rho, a, b, df, d = case
    R, A, B, D = np.array(rho, float), np.array(a, float), np.array(b, float), np.array(d, float)
    keep = [v.copy() for v in (R, A, B, D)]
    tick(2)
    out = wg.prbnormtndpc(R, A, B, D, df=df, abseps=1e-5)
    v = out[0] if np.ndim(out) or isinstance(out, tuple) else out
    aa, bb = A - D, B - D
    if df == 0:
        want = refpc(rho, aa, bb)
    else:
        s, w = panels(1e-9, 6, 3)
        lg = 0.5 * df * math.log(df) - (0.5 * df - 1) * math.log(2) - math.lgamma(0.5 * df)
        dens = w * np.exp(lg + (df - 1) * np.log(s) - df * s * s / 2)
        want = sum(c * refpc(rho, [x * si if abs(x) != INF else x for x in aa], [x * si if abs(x) != INF else x for x in bb])
                   for c, si in zip(dens, s) if c > 1e-14)
    close(v, want, 'P(%s < X < %s) df=%s d=%s' % (a, b, df, d), 0, 5e-4)
    if not any(d):
        o2 = wg.prbnormtndpc(R, A, B, df=df, abseps=1e-5)
        close(o2[0], v, 'default noncentrality', 0, 0)
    for p, q in zip(keep, (R, A, B, D)):
        require(np.array_equal(p, q), 'arguments were changed')
    return rnd(v, 4)


def f_tpcmore(case):
    """both kinds of error control, few to very many degrees of freedom, noncentral vectors, one to five variables"""
    rho, a, b, df, d, ierc, hnc = case
    R, A, B, D = np.array(rho, float), np.array(a, float), np.array(b, float), np.array(d, float)
    tick()
    eps = 1e-4 if df else 1e-5
    v, e, inf = wg.prbnormtndpc(R, A, B, D, df=df, abseps=eps, ierc=ierc, hnc=hnc)
    aa, bb = A - D, B - D
    if df == 0:
        want = refpc(rho, aa, bb)
    else:
        # X / S with S * S a mean of squares of df standard normal variables
        sd = 1 / math.sqrt(2.0 * df)
        s, w = panels(max(1e-9, 1 - 9 * sd), 1 + 9 * sd + (3 if df < 8 else 0), 3)
        lg = 0.5 * df * math.log(df) - (0.5 * df - 1) * math.log(2) - math.lgamma(0.5 * df)
        dens = w * np.exp(lg + (df - 1) * np.log(s) - df * s * s / 2)
        want = sum(c * refpc(rho, [u * si if abs(u) != INF else u for u in aa], [u * si if abs(u) != INF else u for u in bb])
                   for c, si in zip(dens, s) if c > 1e-12)
    close(v, want, 'P(%s < X < %s) df=%s d=%s ierc=%d' % (a, b, df, d, ierc), 0, 2 * eps + 1e-6)
    require(inf in (0, 7, 11) or (inf == 8 and e > eps), 'termination %s with error bound %s' % (inf, e))
    require(abs(v - want) <= e + 2e-6 + (eps if df else 0), 'error %s is larger than the bound %s' % (v - want, e))
    return rnd(v, 4)


# ---- tensor reference -----------------------------------------------------------------------------------------------
_N = 28
_Q, _QW = np.polynomial.legendre.leggauss(_N)


def box(mu, S, lo, hi, weight=None):
    """integral of weight(x)*N(mu, S) density over the box"""
    n = len(mu)
    sd = np.sqrt(np.diag(S))
    ax, wx = [], []
    for i in range(n):
        l, h = max(lo[i], mu[i] - 8 * sd[i]), min(hi[i], mu[i] + 8 * sd[i])
        if l >= h:
            return 0.0
        cuts = sorted({l, h} | {c for c in (0.0, mu[i], mu[i] - 2 * sd[i], mu[i] + 2 * sd[i]) if l < c < h})
        if n > 2:
            cuts = sorted({l, h} | {c for c in (0.0,) if l < c < h and weight is not None} | ({mu[i]} if l < mu[i] < h else set()))
        x, w = [], []
        q, qw = np.polynomial.legendre.leggauss(22 if n > 2 else _N)
        for p, t in zip(cuts, cuts[1:]):
            x.append((t - p) / 2 * q + (t + p) / 2)
            w.append((t - p) / 2 * qw)
        ax.append(np.concatenate(x))
        wx.append(np.concatenate(w))
    G = np.meshgrid(*ax, indexing='ij')
    W = np.ones(())
    for w in wx:
        W = np.multiply.outer(W, w)
    X = np.stack([g.ravel() for g in G])
    Y = X - np.asarray(mu)[:, None]
    P = np.linalg.inv(S)
    dens = np.exp(-0.5 * np.sum(Y * P.dot(Y), axis=0)) / math.sqrt((2 * math.pi) ** n * np.linalg.det(S))
    v = dens * W.ravel()
    if weight is not None:
        v = v * weight(X)
    return float(np.sum(v))


def f_nd(case):
    S, a, b = case
    S, A, B = np.array(S, float), np.array(a, float), np.array(b, float)
    keep = [v.copy() for v in (S, A, B)]
    tick()
    v = wg.prbnormnd(S, A, B)
    close(v, box(np.zeros(len(a)), S, a, b), 'P(%s < X < %s) %s' % (a, b, S.tolist()), 0, 1e-3)
    for p, q in zip(keep, (S, A, B)):
        require(np.array_equal(p, q), 'arguments were changed')
    return rnd(v, 3)


def f_ndbad(case):
    S, a, b = case
    try:
        wg.prbnormnd(np.array(S, float), a, b)
    except ValueError:
        tick()
        return 'refused'
    raise Fail('accepted %s %s %s' % (S, a, b))


# ---- Rind -----------------------------------------------------------------------------------------------------------
def rind_ref(S, m, lo, hi, nt, nd, xc):
    S, m = np.array(S, float), np.array(m, float)
    n = nt + nd
    nc = len(m) - n
    if nc:
        Scc, Sxc = S[n:, n:], S[:n, n:]
        K = Sxc.dot(np.linalg.inv(Scc))
        z = np.asarray(xc) - m[n:]
        mu, C = m[:n] + K.dot(z), S[:n, :n] - K.dot(Sxc.T)
        f = math.exp(-0.5 * z.dot(np.linalg.solve(Scc, z))) / math.sqrt((2 * math.pi) ** nc * np.linalg.det(Scc))
    else:
        mu, C, f = m, S, 1.0
    if n == 0:
        return f
    return f * box(mu, C, lo, hi, (lambda X: np.prod(np.abs(X[nt:]), axis=0)) if nd else None)


def corr(n, kind):
    S = np.eye(n)
    for i in range(n):
        for j in range(i):
            S[i, j] = S[j, i] = {'eye': 0.0, 'const': 0.4, 'alt': 0.5 * (-0.7) ** (i - j), 'exp': 0.8 ** (i - j)}[kind]
    if kind == 'alt':
        d = np.diag([1.0, 2.0, 0.5, 1.5][:n])
        S = d.dot(S).dot(d)
    return S


def f_rind(case):
    method, nt, nd, nc, kind, mk, bk, xk = case
    n = nt + nd
    S = corr(n + nc, kind)
    m = np.array([0.0] * (n + nc)) if mk == 0 else np.array([0.3, -0.4, 0.2, 0.1][:n + nc])
    lo, hi = {'pos': (0, INF), 'neg': (-INF, 0.3), 'all': (-INF, INF), 'mid': (-1, 1.5), 'up': (0.5, 2)}[bk]
    A, B = np.full(n, float(lo)), np.full(n, float(hi))
    xc = {0: [[0.0]], 1: [[0.6]], 2: [[0.3, -1.0]]}[xk]
    xc = np.repeat(xc, nc, axis=0) * np.array([1.0, -0.5, 2.0][:nc])[:, None] if nc else None
    keep = [v.copy() for v in (S, m, A, B)] + [None if xc is None else xc.copy()]
    r = wg.Rind(method=method, seed=1, releps=1e-4, maxpts=200000)
    tick(3)
    v, e, t = r(S, m, A, B, xc=xc, nt=nt)
    nx = 1 if xc is None else xc.shape[1]
    require(np.shape(v) == (nx,), 'shape %s for %d conditions' % (np.shape(v), nx))
    want = np.array([rind_ref(S, m, A, B, nt, nd, xc[:, j] if nc else ()) for j in range(nx)])
    tol = 4e-3 * np.maximum(want, 1e-2)
    require(np.all(abs(v - want) <= tol), 'Rind %s: %s, want %s' % (case, v, want))
    require(np.all(e >= 0) and np.all(t >= 0), 'error estimates %s %s' % (e, t))
    # the same barrier shared by all variables, only the upper triangle is used, scalars as barriers
    v2 = r(np.triu(S), m, lo, hi, indI=[-1, n - 1], xc=xc, nt=nt)[0]
    require(np.all(abs(v2 - v) <= 2 * tol), 'shared barrier: %s, want %s' % (v2, v))
    if nc:
        sl = 0.25
        A2, B2 = np.vstack((A, np.full(n, sl))), np.vstack((B, np.full(n, sl)))
        v3 = r(S, m, A2, B2, xc=xc, nt=nt)[0]
        w3 = np.array([rind_ref(S, m, A + sl * xc[0, j], B + sl * xc[0, j], nt, nd, xc[:, j]) for j in range(nx)])
        require(np.all(abs(v3 - w3) <= 4e-3 * np.maximum(w3, 1e-2)), 'barriers depending on the condition: %s, want %s' % (v3, w3))
    for p, q in zip(keep, (S, m, A, B, xc)):
        require(p is None or np.array_equal(p, q), 'arguments were changed')
    return rnd(v, 3)


# ---- one common factor: exact in every dimension ---------------------------------------------------------------------
def factor(rho, lo, hi, nd=0):
    """E[prod |X_i|, last nd i; lo < X < hi], X_i = rho_i Z + sqrt(1 - rho_i^2) e_i: one integral, cut where the integrand bends"""
    cuts = {-9.0, 0.0, 9.0}
    for r, l, h in zip(rho, lo, hi):
        s = math.sqrt(max(0.0, 1 - r * r))
        for b in (l, h, 0.0):
            if r and abs(b) < 30:
                for k in ((-8, -4, -2, 0, 2, 4, 8) if s else (0,)):
                    c = b / r + k * s / abs(r)
                    if -9 < c < 9:
                        cuts.add(c)
    cuts = sorted(cuts)
    z = np.concatenate([(q - p) / 2 * _X + (q + p) / 2 for p, q in zip(cuts, cuts[1:])])
    w = np.concatenate([(q - p) / 2 * _W for p, q in zip(cuts, cuts[1:])]) * np.exp(-z * z / 2) / math.sqrt(2 * math.pi)
    phi = lambda t: np.exp(-0.5 * t * t) / math.sqrt(2 * math.pi)
    v = np.ones_like(z)
    n = len(rho)
    for i, (r, l, h) in enumerate(zip(rho, lo, hi)):
        s = math.sqrt(max(0.0, 1 - r * r))
        mu = r * z
        if i < n - nd:
            v = v * (ndtr((h - mu) / s) - ndtr((l - mu) / s) if s else ((mu > l) & (mu < h)) * 1.0)
        elif s:
            part = 0.0
            for p, q, sg in ((max(l, 0.0), h, 1), (l, min(h, 0.0), -1)):
                if p < q:
                    P, Q = np.clip((p - mu) / s, -40, 40), np.clip((q - mu) / s, -40, 40)
                    part = part + sg * (mu * (ndtr(Q) - ndtr(P)) - s * (phi(Q) - phi(P)))
            v = v * part
        else:
            v = v * np.abs(mu) * ((mu > l) & (mu < h))
    return float(np.sum(w * v))


FB = {'pos': (0, INF), 'neg': (-INF, 0.3), 'mid': (-1, 1.5), 'up': (0.5, 2), 'tail': (-INF, -1.2), 'all': (-INF, INF)}


def f_factor(case):
    """every integration method in dimensions up to 12, weakly and strongly correlated, also singular"""
    method, n, nd, rk, bk = case
    rho = {'weak': [0.3] * n, 'strong': [0.9] * n, 'near': [0.995] * n, 'signs': [0.7 * (-1) ** i for i in range(n)],
           'mixed': [(0.0, 0.5, -0.8, 0.95, 0.2, -0.4)[i % 6] for i in range(n)],
           'twins': [(1.0, 0.6, -1.0, 0.3)[i % 4] for i in range(n)]}[rk]
    if bk == 'various':
        bars = [(('pos', 'all', 'mid', 'neg', 'up')[i % 5]) for i in range(n)]
    else:
        bars = [bk] * n
    lo, hi = [float(FB[b][0]) for b in bars], [float(FB[b][1]) for b in bars]
    S = np.outer(rho, rho)
    S[np.diag_indices(n)] = 1.0
    tick()
    v, e, t = wg.Rind(method=method, seed=1, releps=1e-4, abseps=1e-6, maxpts=200000)(S, np.zeros(n), np.array(lo), np.array(hi), nt=n - nd)
    want = factor(rho, lo, hi, nd)
    tol = max(4e-3 * max(want, 2e-2), e[0])
    require(abs(v[0] - want) <= tol and e[0] <= 3e-2 * max(want, 1e-2), 'method %s: %s, error estimate %s, want %s' % (method, v[0], e[0], want))
    if not nd and n <= 6 and rk != 'twins':
        p, pe, ier = wg.prbnormndpc(np.array(rho), np.array(lo), np.array(hi), 1e-7, 1e-7, usesimpson=bool(method % 2), usebreakpoints=bool(method > 4))
        tick(2)
        close(p, want, 'prbnormndpc', 0, 1e-6)
        q = wg.prbnormtndpc(np.array(rho), np.array(lo), np.array(hi), abseps=1e-5)[0]
        close(q, want, 'prbnormtndpc', 0, 1e-4)
    return rnd(v, 3)


def f_pcwide(case):
    """product correlation close to one and limits far out: quadrature with and without break points"""
    rho, a, b, simpson, breaks = case
    tick()
    v, e, ier = wg.prbnormndpc(np.array(rho, float), np.array(a, float), np.array(b, float), 1e-7, 1e-7, usesimpson=simpson, usebreakpoints=breaks)
    close(v, factor(rho, a, b), 'P(%s < X < %s), product correlation %s' % (a, b, rho), 0, 2e-6)
    # 1: as many subintervals as allowed were used, and the error estimate says how far it came
    require(ier in (0, 1) and 0 <= e < 1e-3, 'ier %s error %s' % (ier, e))
    return rnd(v, 5)


def f_rindmix(case):
    """different barriers for the variables"""
    bars, kind = case
    n = len(bars)
    S = corr(n, kind)
    lo, hi = [float(b[0]) for b in bars], [float(b[1]) for b in bars]
    tick()
    v, e, t = wg.Rind(method=3, seed=1)(S, np.zeros(n), lo, hi)
    want = box(np.zeros(n), S, lo, hi)
    require(abs(v[0] - want) <= 4e-3 * max(want, 1e-2) + e[0], 'P(%s): %s, want %s' % (bars, v, want))
    return rnd(v, 3)


CONF = [dict(method=3, seed=1), dict(method=1, seed=2), dict(speed=11, seed=1), dict(method=5, seed=3, maxpts=2000), dict(method=4, seed=1, abseps=1e-2)]
_S3 = corr(3, 'const')
_BASE = {}


def rcall(r):
    v, e, t = r(_S3, np.zeros(3), [-1.0, -0.5, -INF], [2.0, INF, 1.0])
    return [float(v[0]), float(e[0]), float(t[0])]


def f_rindshared(case):
    return f_rindhist(case, True)


def f_rindhist(case, shared=False):
    """objects with different settings created and used in every order"""
    objs, out, last = {}, [], None
    for op, i in case:
        if op == 'new':
            objs[i] = wg.Rind(**CONF[i])
            last = i
        else:
            if i not in objs or (last != i and not shared):   # the settings are those of the last object: recorded finding
                objs[i] = wg.Rind(**CONF[i])
                last = i
            tick()
            got = rcall(objs[i])
            if got != _BASE[i]:
                raise Fail('history %s: object %s gave %s, alone %s' % (case, CONF[i], got, _BASE[i]))
            out.append(got)
    return rnd(out)


def f_rindseed(case):
    seed, method = case
    out = []
    for _ in range(2):
        np.random.seed(seed)
        tick(2)
        r = wg.Rind(method=method)
        out.append([rcall(r), rcall(r)])
    require(out[0] == out[1], 'numpy seed %s: %s and %s' % (seed, out[0], out[1]))
    return rnd(out[0])


def f_lomax(case):
    al, m0, xs = case
    x = np.array(xs, float)
    tick()
    got = wg.cdflomax(x, al, m0)
    ep = math.sqrt(1 - al * al)
    for g, xi in zip(got, xs):
        z = xi / math.sqrt(m0)
        t, w = panels(-9, z, 12) if z > -9 else (np.zeros(1), np.zeros(1))
        d = ep / math.sqrt(2 * math.pi) * np.exp(-t * t / 2 / ep ** 2) + al * t * np.exp(-t * t / 2) * ndtr(al * t / ep)
        close(g, float(np.sum(w * d)), 'distribution of local maxima at %s, alpha=%s m0=%s' % (xi, al, m0), 1e-8, 1e-9)
    return rnd(got)


def groups(tier):
    T = tier == 'thorough'
    bs = [-INF, -40, -3, -1, -0.2, 0, 0.5, 1, 2.5, 40, INF]
    rs = [-1, -0.999, -0.95, -0.925, -0.92, -0.8, -0.75, -0.5, -0.3, -0.1, 0, 0.1, 0.3, 0.5, 0.75, 0.8, 0.92, 0.925, 0.95, 0.999, 1]
    c2 = list(itertools.product(bs, bs, rs))
    v2 = [c for n in range(1, 6 if T else 5) for c in itertools.product(range(len(ITEMS)), repeat=n)]
    ends = [-INF, -1, 0, 0.7, INF]
    ivs = [(a, b) for a in ends for b in ends if a != b and not (a == INF or b == -INF)]
    p2 = [((i[0], j[0]), (i[1], j[1]), r) for i in ivs for j in ivs for r in (-0.95, -0.5, 0, 0.4, 0.96)]
    R1 = [-0.8, 0, 0.3, 0.9]
    iv = [(-INF, 0.5), (0, INF), (-1, 1.5), (0.5, 0.8)]
    pc = [(r, [b[0] for b in bb], [b[1] for b in bb], s, k) for n in (2, 3) for r in itertools.product(R1, repeat=n)
          for bb in itertools.product(iv, repeat=n) for s, k in ((True, False), (False, True)) if n < 3 or T or (s and len(set(bb)) < 3)]
    tp = [(r, [b[0] for b in bb], [b[1] for b in bb], df, d) for r in itertools.product((-0.5, 0.3, 0.8), repeat=2)
          for bb in itertools.product(iv, repeat=2) for df, d in ((0, (0, 0)), (0, (0.5, -0.3)), (3, (0, 0)), (10, (0, 0)))]
    tb = {'up': (-INF, 1.0), 'lo': (-0.7, INF), 'mid': (-1.0, 0.8), 'far': (0.9, 2.5), 'neg': (-INF, -0.4)}
    tm = [(r, [tb[k][0] for k in ks], [tb[k][1] for k in ks], df, [0.0] * len(r) if not sh else [0.3 - 0.4 * i for i in range(len(r))], ie, h)
          for r in ((0.6,), (-0.7,), (0.0,), (0.5, -0.4), (0.9, 0.2), (0.0, 0.8), (-0.3, -0.95), (0.6, 0.6, 0.6), (0.5, -0.5, 0.9), (0.4, 0.0, -0.8), (0.3, 0.5, 0.7, 0.9), (0.5, -0.6, 0.7, -0.8), (0.2, 0.4, -0.5, 0.6, 0.8))
          for ks in ([tuple(c) for c in itertools.product(tb, repeat=len(r))] if len(r) < 3 else [(k,) * len(r) for k in tb] + [tuple(list(tb)[(i + q) % 5] for i in range(len(r))) for q in range(5)])
          for df, sh in ((0, 0), (0, 1), (1, 0), (2, 0), (7, 0), (60, 0), (151, 0), (1000, 0)) for ie, h in ((0, 0.24), (1, 0.24), (1, 0.5), (0, 0.1))
          if T or df < 1 or (ie, h) in ((0, 0.24), (1, 0.5))]
    nd = [(corr(n, k).tolist(), [b[0] for b in bb], [b[1] for b in bb]) for n in (2, 3) for k in ('eye', 'const', 'exp')
          for bb in itertools.product(iv, repeat=n)]
    bad = [([[1, 0.5], [0.5, 1]], [0], [1]), ([[1, 0.5], [0.5, 1]], [0, 0], [1]), ([[2, 0.5], [0.5, 1]], [0, 0], [1, 1]),
           ([[1, 0.5], [0.5, 0.9]], [0, 0], [1, 1]), ([[1, 0.5, 0], [0.5, 1, 0]], [0, 0], [1, 1])]
    dims = [(1, 0, 0), (2, 0, 0), (3, 0, 0), (0, 1, 0), (0, 2, 0), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1), (2, 0, 1), (0, 2, 1), (1, 0, 2), (0, 1, 2)] + (
        [(2, 1, 0), (1, 2, 0)] if T else [])
    rd = [(me, t, d, c, k, mk, b, x) for me in ((1, 3, 4) if T else (1, 4)) for t, d, c in dims for k in ('eye', 'const', 'alt', 'exp') for mk in (0, 1)
          for b in ('pos', 'neg', 'all', 'mid', 'up') for x in ((0, 1, 2) if c else (0,)) if T or not (mk and x == 1)]
    iv2 = iv + [(-INF, INF), (0, 38)]
    mix = [(bb, k) for n in (1, 2, 3) for bb in itertools.product(iv2, repeat=n) for k in ('const', 'alt')]
    fa = [(me, n, d, rk, bk) for me in range(1, 9) for n in ((1, 2, 3, 4, 6, 8, 12) if T else (2, 4, 6)) for d in ((0, 1, 2) if T else (0, 1)) if d < n
          for rk in ('weak', 'strong', 'near', 'signs', 'mixed', 'twins') for bk in ('pos', 'neg', 'mid', 'up', 'tail', 'various')]
    R2 = [-1, -0.9999, -0.99, 0.5, 0.999, 1]
    iw = [(-INF, 0.5), (-1, 1.5), (0.5, 0.8), (3, INF), (-6, -2)]
    pw = [(list(r), [x[0] for x in bb], [x[1] for x in bb], s, k) for n in ((1, 2, 3) if T else (1, 2)) for r in itertools.product(R2, repeat=n) if n < 3 or len(set(r)) == 3
          for bb in itertools.product(iw, repeat=n) for s in (True, False) for k in (True, False)]
    ops = [('new', i) for i in range(len(CONF))] + [('call', i) for i in range(len(CONF))]
    hist = [h for n in range(1, 5 if T else 4) for h in itertools.product(ops, repeat=n) if h[-1][0] == 'call']
    for i, c in enumerate(CONF):
        _BASE[i] = rcall(wg.Rind(**c))
    lx = [(al, m0, [-2.0, -0.5, 0.0, 0.3, 1.0, 3.0]) for al in (0.0, 0.1, 0.5, 0.8, 0.95, 0.999) for m0 in (0.25, 1, 4)]
    return [
        Group('cdfnorm2d', c2, f_cdf2, note='limits x correlations incl. infinite limits and |r|=1'),
        Group('cdfnorm2d-vectors', v2, f_cdf2vec, note='every arrangement of 7 kinds of components in vectors up to length 4'),
        Group('prbnorm2d', p2, f_prb2, note='every combination of bounded, half bounded, unbounded, empty and reversed sides'),
        Group('prbnormndpc', pc, f_pc),
        Group('prbnormtndpc', tp, f_tpc),
        Group('prbnormtndpc-control', tm, f_tpcmore),
        Group('prbnormnd', nd, f_nd),
        Group('prbnormnd-refuses', bad, f_ndbad),
        Group('rind', rd, f_rind, note='numbers of Xt, Xd, Xc variables x covariances x means x barriers x conditions'),
        Group('rind-barriers', mix, f_rindmix),
        Group('rind-factor', fa, f_factor, note='methods 1-8 in dimensions up to 6 (12 thorough), one-factor covariances, exact reference'),
        Group('prbnormndpc-wide', pw, f_pcwide, note='correlation factors up to one in magnitude'),
        Group('rind-history', hist, f_rindhist, note='all histories of creating and calling 5 differently configured objects'),
        Group('rind-two-objects', [[('new', 0), ('new', 1), ('call', 0)]], f_rindshared, note='recorded finding: settings are shared by all objects'),
        Group('rind-seed', [(s, m) for s in range(6) for m in (1, 3, 4, 5)], f_rindseed),
        Group('cdflomax', lx, f_lomax),
    ]
