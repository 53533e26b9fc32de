"""P20 Peaks over threshold and empirical distributions: findpot, decluster, edf, edfcnd, reslife, dispersion_idx, extremal index, return periods."""
import itertools
import math
import warnings
import numpy as np
from scipy import stats as ss
from vk import Group, Fail, tick
from ref import close, require, rnd
import wafo.stats.core as wc

PROPERTY = 'P20'
ASSUMPTIONS = ['sequences of at most 7 (thorough 8) values from small alphabets, all time stamps over small integer gaps (also '
               'unordered), all thresholds and distances of a small lattice; among peaks of equal height any choice that is '
               'consistent with the definition is accepted']


def as_kind(x, kind):
    return list(x) if kind == 'list' else np.array(x, dtype=kind)


def f_findpot(case):
    data, t, thresh, tmin, kind = case
    d, tt = as_kind(data, kind), (None if t is None else as_kind(t, kind))
    keep = (list(d), None if tt is None else list(tt))
    tick(2)
    ix = wc.findpot(d, tt, thresh, tmin)
    times = list(range(len(data))) if t is None else list(t)
    sel = [int(i) for i in np.ravel(ix)]
    require(len(set(sel)) == len(sel), 'duplicate indices %s' % sel)
    exc = [i for i in range(len(data)) if data[i] > thresh]
    require(set(sel) <= set(exc), 'selected %s, exceedances %s' % (sel, exc))
    ts = [times[i] for i in sel]
    if len(exc) > 1:
        require(ts == sorted(ts), 'peaks are not ordered in time: %s' % ts)
    for a, b in zip(sorted(ts), sorted(ts)[1:]):
        require(b - a > tmin, 'peaks at %s and %s are not more than %s apart (selected %s)' % (a, b, tmin, sel))
    for i in exc:
        if i not in sel:
            require(any(abs(times[j] - times[i]) <= tmin and data[j] >= data[i] for j in sel),
                    'exceedance %d (height %s at %s) was dropped without a higher selected peak near it; selected %s' % (i, data[i], times[i], sel))
    ev, tv = wc.decluster(d, tt, thresh, tmin)
    require(list(ev) == [data[i] for i in sel] and list(tv) == ts, 'decluster gave %s at %s, selected %s' % (list(ev), list(tv), sel))
    require(keep == (list(d), None if tt is None else list(tt)), 'arguments were changed')
    return tuple(sel)


def f_edf(case):
    x, method, kind, c = case
    d = as_kind(x, kind)
    keep = list(d)
    tick(2)
    F = wc.edf(d, method)
    n = len(x)
    num = {1: lambda k: (k - 0.5) / n, 2: lambda k: k / (n + 1.0), 3: lambda k: k / float(n)}[method]
    require(list(F.args) == sorted(x), 'arguments %s' % (list(F.args),))
    close(F.data, [num(k) for k in range(1, n + 1)], 'edf method %d of %s' % (method, x))
    require(list(d) == keep, 'data was changed to %s' % list(d))
    if kind != 'list' or True:
        keepx = [v for v in x if v >= c]
        if keepx:
            G = wc.edfcnd(d, c, method)
            H = wc.edf(np.array(keepx), method)
            require(list(G.args) == sorted(keepx), 'conditional arguments %s' % list(G.args))
            close(G.data, H.data, 'conditional edf')
            require(list(d) == keep, 'data was changed to %s' % list(d))
    a = wc.edf(d)
    b = wc.edf(d, 2)
    require(list(a.data) == list(b.data), 'default method')
    cc = math.floor(min(min(x), 0))
    g = wc.edfcnd(d)
    require(list(g.args) == sorted(v for v in x if v >= cc), 'default condition')
    return rnd(F.data)


def f_reslife(case):
    x, us, alpha, kind = case
    d = as_kind(x, kind)
    keep = list(d)
    tick()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = wc.reslife(d, u=us, alpha=alpha)
    require(list(d) == keep, 'data was changed')
    require(list(r.args) == list(us), 'thresholds %s' % (list(r.args),))
    for k, u in enumerate(us):
        e = [v - u for v in x if v > u]
        n = len(e)
        require(r.workspace['numdata'][k] == n, 'number of exceedances of %s: %s' % (u, r.workspace['numdata'][k]))
        if n == 0:
            require(math.isnan(r.data[k]), 'mean excess over nothing')
            continue
        m = sum(e) / n
        close(r.data[k], m, 'mean excess over %s' % u, 1e-12, 1e-12)
        if n > 1:
            s = math.sqrt(sum((v - m) ** 2 for v in e) / n)
            w = ss.t.ppf(1 - alpha / 2, n - 1) * s / math.sqrt(n)
            close(r.children[0].data[k], [m - w, m + w], 'confidence limits at %s' % u, 1e-8, 1e-10)
    return rnd(r.data)


def f_resgrid(case):
    x, umin, umax, nu, nmin = case
    tick()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = wc.reslife(np.array(x), umin=umin, umax=umax, nu=nu, nmin=nmin)
    s, nm = sorted(x), max(nmin, 1)
    hi = s[-nm] if umax is None else min(umax, s[-nm])
    lo = s[0] if umin is None else max(umin, s[0])
    n = min(len(x) - nm, 100) if nu is None else nu
    close(r.args, [lo] if n == 1 else [lo + (hi - lo) * k / (n - 1.0) for k in range(n)], 'thresholds')
    for u, m, c in zip(r.args, r.data, r.workspace['numdata']):
        e = [v - u for v in x if v > u]
        require(c == len(e), 'count at %s' % u)
        if e:
            close(m, sum(e) / len(e), 'mean excess over %s' % u, 1e-12, 1e-12)
    return rnd(r.data)


def f_dispgrid(case):
    """thresholds that are not given are those of the documented grid"""
    x, umin, umax, nu, nmin, tb = case
    s, nm = sorted(x), max(nmin, 1)
    hi = s[-nm] if umax is None else min(umax, s[-nm])
    lo = s[0] if umin is None else max(umin, s[0])
    n = min(len(x) - nm, 100) if nu is None else nu
    us = [lo] if n == 1 else [lo + (hi - lo) * k / (n - 1.0) for k in range(n)]
    tick(2)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        r, b, ok = wc.dispersion_idx(np.array(x), umin=umin, umax=umax, nu=nu, nmin=nmin, tb=tb)
        q, bq, okq = wc.dispersion_idx(np.array(x), u=np.linspace(lo, hi, n), tb=tb)
    close(r.args, us, 'thresholds')
    close(np.nan_to_num(r.data), np.nan_to_num(q.data), 'dispersion index over the documented grid')
    require((b is None and bq is None) or b == bq, 'threshold chosen: %s and %s' % (b, bq))
    return rnd(np.nan_to_num(r.data))


def f_disp(case):
    x, t, us, tb, alpha, kind = case
    d, tt = as_kind(x, kind), (None if t is None else as_kind(t, kind))
    keep = (list(d), None if tt is None else list(tt))
    tick()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r, b_u, ok_u = wc.dispersion_idx(d, t=tt, u=us, tb=tb, alpha=alpha)
    require(keep == (list(d), None if tt is None else list(tt)), 'arguments were changed')
    times = list(range(len(x))) if t is None else [v - min(t) for v in t]
    blk = [int(math.floor(v / float(tb))) for v in times]
    M = max(blk) + 1
    if M < 2:
        return 'one block'
    lo, up = ss.chi2.ppf(alpha / 2, M - 1) / (M - 1), ss.chi2.ppf(1 - alpha / 2, M - 1) / (M - 1)
    di = []
    for k, u in enumerate(us):
        occ = [sum(1 for v, b in zip(x, blk) if b == j and v > u) for j in range(M)]
        m = sum(occ) / float(M)
        if m == 0:
            require(math.isnan(r.data[k]), 'index without exceedances')
            di.append(float('nan'))
            continue
        v = sum((o - m) ** 2 for o in occ) / M
        di.append(v / m)
        close(r.data[k], v / m, 'dispersion index at %s, counts %s' % (u, occ), 1e-12, 1e-12)
        close(r.children[0].data[k], [lo, up], 'limits', 1e-9)
    ok = [u for u, v in zip(us, di) if lo < v < up]
    edge = any(abs(v - lo) < 1e-9 or abs(v - up) < 1e-9 for v in di)
    if not edge:
        if not ok:
            require(b_u is None and ok_u is None, 'appropriate thresholds %s, %s' % (b_u, ok_u))
        else:
            require(list(ok_u) == ok, 'appropriate thresholds %s, expected %s' % (list(ok_u), ok))
            dk = [v for v in di if lo < v < up]
            mean = sum(dk) / len(dk)
            cand = [u for u, v in zip(ok, dk) if v > mean + 1e-12]
            require(b_u in ok, 'chosen threshold')
            if cand and max(dk) - min(dk) > 1e-9:
                require(b_u == cand[0], 'chosen threshold %s, expected %s' % (b_u, cand[0]))
    return rnd(r.data)


def f_ext(case):
    t, kind = case
    tt = as_kind(t, kind)
    keep = list(tt)
    tick(3)
    ti = wc.interexceedance_times(tt)
    s = sorted(t)
    d = [b - a for a, b in zip(s, s[1:])]
    require(list(ti) == d, 'inter exceedance times %s' % list(ti))
    if not d:
        return 'empty'
    n = len(d)
    e = wc.extremal_idx(as_kind(d, kind))
    if max(d) <= 1:
        want = 0.0
    elif max(d) <= 2:
        want = min(1.0, 2 * (sum(d) / float(n)) ** 2 / (sum(v * v for v in d) / float(n)))
    else:
        want = min(1.0, 2 * (sum(v - 1 for v in d) / float(n)) ** 2 / (sum((v - 1) * (v - 2) for v in d) / float(n)))
    close(e, want, 'extremal index of %s' % (d,), 1e-12, 1e-12)
    tc = wc.declustering_time(tt)
    require(tc in d, 'declustering time %s is not one of %s' % (tc, d))
    k = len(t) * want
    desc = sorted(d, reverse=True)
    if want == 1:
        require(tc == min(d), 'declustering time %s' % tc)
    elif abs(k - round(k)) > 1e-9:
        require(tc == desc[min(int(math.floor(k)), n - 1)], 'declustering time %s, index %s, gaps %s' % (tc, want, desc))
    require(list(tt) == keep, 'argument was changed')
    return (rnd(e), rnd(tc))


def f_period(case):
    p, n, shape = case
    tick(4)
    P, N = (p, n) if shape == 's' else (np.array([p, p]), n) if shape == 'v' else (np.array([[p], [p]]), np.array([n, n, n]))
    sf = wc.returnperiod2sf(P, N)
    require(np.shape(sf) == np.broadcast(P, N).shape, 'shape %s' % (np.shape(sf),))
    v = np.ravel(sf)
    bad = n <= 0 or p * n < 1
    for s in v:
        if bad:
            require(math.isnan(s), 'sf of impossible return period: %s' % s)
        else:
            close(s, 1.0 / (p * n), 'sf')
    if not bad and p * n > 1:
        back = wc.sf2returnperiod(sf, N)
        require(np.shape(back) == np.shape(sf), 'shape %s' % (np.shape(back),))
        close(np.ravel(back), [p] * v.size, 'return period of the sf')
    q = min(p / 8.0, 2.0)
    per = np.ravel(wc.sf2returnperiod(q if shape == 's' else np.array([q, q]) if shape == 'v' else np.array([[q], [q]]), N))
    for s in per:
        if n < 0 or q < 0 or q >= 1:
            require(math.isnan(s), 'return period of invalid sf %s: %s' % (q, s))
        elif n * q > 0:
            close(s, 1.0 / (n * q), 'return period')
    return rnd(v)


def groups(tier):
    T = tier == 'thorough'
    fp = []
    for n in range(1, 8 if T else 7):
        for x in itertools.product((0, 1, 2, 3) if n < 7 else (0, 2, 3), repeat=n):
            for tmin in ((0, 1, 2, 3) if n <= 5 else (1, 2)):
                fp.append((x, None, 0, tmin, 'float'))
    for n in range(2, 6):                      # irregular sampling, ascending
        for gaps in itertools.product((1, 2, 4) if n > 3 else (0, 1, 2, 3, 5), repeat=n - 1):
            t = tuple([0] + [int(v) for v in np.cumsum(gaps)])
            for x in itertools.product((1, 2, 3) if n > 3 else (0, 1, 2, 3), repeat=n):
                for tmin in ((1, 2) if n > 3 else (0, 1, 2, 4)):
                    fp.append((x, t, 0.5, tmin, 'int'))
    for n in (2, 3, 4, 5):                     # unordered time stamps
        for t in itertools.permutations((0, 1, 3, 4, 8)[:n]):
            for x in itertools.product((0, 1, 2) if n == 5 else (0, 1, 2, 3), repeat=n):
                for tmin in (1, 3) if n == 5 else (0, 1, 2, 3):
                    fp.append((x, t, 0, tmin, 'float'))
    # long records made of clusters: every sequence of cluster kinds and separations
    kinds = [(1,), (2, 1), (1, 3, 2), (3, 1, 2, 1, 3)]
    for m in (2, 3, 4):
        for ks in itertools.product(range(4), repeat=m):
            for seps in itertools.product((1, 2, 3), repeat=m - 1):
                x = []
                for j, k in enumerate(ks):
                    x += kinds[k] + ((0,) * seps[j] if j < m - 1 else ())
                for tmin in (1, 2):
                    fp.append((tuple(x), None, 0, tmin, 'list'))
    seqs = [s for n in range(1, 6) for s in itertools.product((-1.5, 0.0, 2.0), repeat=n)]
    perms = list(itertools.permutations((3.0, -1.0, 4.0, 1.5)))
    ed = [(s, m, k, c) for s in seqs + perms for m in (1, 2, 3) for k in ('float', 'list') for c in (-2.0, -1.0, 0.0, 1.9)]
    rl = [(s, us, a, k) for n in range(1, 6 if not T else 7) for s in itertools.product((0, 1, 2, 4), repeat=n)
          for us in ([0.0, 1.0, 2.5], [-1.0]) for a in (0.05, 0.3) for k in ('float', 'int', 'list')]
    rg = [(s, lo, hi, nu, nm) for s in itertools.permutations((0.0, 1.0, 1.5, 4.0, 5.0)) for lo in (None, -1.0, 1.0)
          for hi in (None, 2.0, 9.0) for nu in (None, 1, 4) for nm in (1, 2)]
    dp = [(s, None, [0.0, 0.5, 1.0, 1.5], tb, a, 'float') for n in range(2, 7) for s in itertools.product((0, 1, 2), repeat=n)
          for tb in (1, 2) for a in (0.05, 0.5)]
    dp += [(s, t, [0.5, 1.5], tb, 0.3, 'list') for n in (3, 4) for t in itertools.product((0, 1, 2.5, 4), repeat=n)
           for s in itertools.product((0, 1, 2), repeat=n) if s[0] <= s[-1] for tb in (1, 2)]
    ex = [(t, k) for n in range(2, 7) for t in itertools.combinations(range(11 if n < 6 else 10), n) for k in ('int', 'float')]
    ex += [(t, 'float') for n in (2, 3, 4) for t in itertools.product((0, 1, 3, 7), repeat=n) if max(t) > min(t)]
    ex += [(t, 'list') for t in itertools.permutations((9, 0, 4, 1))]
    rp = [(p, n, s) for p in (-1, 0, 0.5, 1, 2, 5, 8, 10, 100, 1000.0) for n in (-1, 0, 0.1, 0.5, 1, 2, 10) for s in 'svm']
    return [
        Group('findpot', fp, f_findpot, note='all height sequences, regular, irregular and unordered times, sequences of clusters'),
        Group('edf', ed, f_edf),
        Group('reslife', rl, f_reslife),
        Group('reslife-thresholds', rg, f_resgrid),
        Group('dispersion', dp, f_disp),
        Group('dispersion-thresholds', [list(c) + [tb] for c in rg if len(c[0]) > 2 for tb in (1, 2)], f_dispgrid),
        Group('extremal-index', ex, f_ext),
        Group('return-period', rp, f_period),
    ]
