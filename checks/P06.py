"""P06 Cycle pairs, damage, level-crossing counts and cycle matrices account for every cycle."""
import itertools
import numpy as np
from vk import Group, Fail, tick
from ref import words, same_ints, close, require, rnd
import sigref as R
import wafo.objects as wo
import wafo.markov as wmk

PROPERTY = 'P06'
ASSUMPTIONS = ['at least one cycle', 'mean and standard deviation of the turning points are given when there are '
               'fewer than 21 levels', 'crossing rules selected by number (the string names are a known finding)']


def ref_pairs(y, kind):
    """all (min, max) pairs in the order of the definition"""
    out = []
    for a, b in zip(y, y[1:]):
        if kind == 'min2max' and a < b:
            out.append((a, b))
        if kind == 'max2min' and a > b:
            out.append((b, a))
    return out


def tp_of(word, t0=1.0, dt=0.5):
    t = t0 + dt * np.arange(len(word))
    return wo.TurningPoints(np.array(word, dtype=float), t, mean=1.0, sigma=2.0), t


def f_pairs(case):
    word, h2 = case
    out = []
    for kind in ('min2max', 'max2min'):
        h = h2 / 2.0
        y = word if h <= 0 else [word[i] for i in R.rainflow_indices(word, h)]
        if len(y) < 2:
            continue
        tp, t = tp_of(word)
        tick()
        cp = tp.cycle_pairs(h=h, kind=kind)
        want = ref_pairs(y, kind) if h <= 0 else None
        if h > 0:   # pairs of consecutive surviving members
            k0 = 0 if (y[0] < y[1]) == (kind == 'min2max') else 1
            want = [tuple(sorted((y[k], y[k + 1]))) for k in range(k0, len(y) - 1, 2)]
        close(np.ravel(cp.args), np.array([a for a, b in want], dtype=float), kind + ' minima', 0, 0)
        close(np.ravel(cp.data), np.array([b for a, b in want], dtype=float), kind + ' maxima', 0, 0)
        require(abs(cp.time - (t[-1] - t[0])) < 1e-12, 'duration')
        require(cp.mean == 1.0 and cp.sigma == 2.0, 'mean and sigma are handed on')
        amp = [(b - a) / 2.0 for a, b in want]
        tick(2)
        close(np.ravel(cp.amplitudes()), np.array(amp), 'amplitudes', 1e-12, 1e-12)
        close(cp.damage([1, 3, 2.5], K=2.0), np.array([sum(2.0 * a ** be for a in amp) for be in (1, 3, 2.5)]),
              'damage', 1e-12, 1e-12)
        close(cp.damage([4]), np.array([sum(a ** 4 for a in amp)]), 'damage', 1e-12, 1e-12)
        require(np.array_equal(tp.data, np.array(word, dtype=float)), 'turning points modified')
        out.append(tuple(want))
    return tuple(out)


RULES = {1: lambda m, M, u: m < u < M, 2: lambda m, M, u: m < u <= M, 3: lambda m, M, u: m <= u <= M,
         4: lambda m, M, u: m <= u < M}


def ref_lc(pairs, rule):
    lev = sorted({v for p in pairs for v in p})
    c = [sum(1 for m, M in pairs if RULES[rule](m, M, u)) for u in lev]
    if rule == 4:      # documented quirk of the highest level: same as the one below
        c[-1] = c[-2]
    return lev, c


def f_lc(case):
    pairs, form = case
    m = np.array([a for a, b in pairs], dtype=float)
    M = np.array([b for a, b in pairs], dtype=float)
    out = []
    for rule in (1, 2, 3, 4):
        cp = wo.CyclePairs(M.copy(), m.copy(), mean=0.5, sigma=2.0, time=8.0) if form == 'mM' else \
            wo.CyclePairs(m.copy(), M.copy(), mean=0.5, sigma=2.0, time=8.0)
        lev, want = ref_lc([tuple(p) for p in pairs], rule)
        tick(2)
        lc = cp.level_crossings(kind=rule)
        close(np.ravel(lc.args), np.array(lev, dtype=float), 'levels', 0, 0)
        close(np.ravel(lc.data), np.array(want, dtype=float), 'counts rule %d' % rule, 0, 0)
        li = cp.level_crossings(kind=rule, intensity=True)
        close(np.ravel(li.data), np.array(want, dtype=float) / 8.0, 'intensity rule %d' % rule, 1e-12, 0)
        require(lc.mean == 0.5 and lc.sigma == 2.0 and li.intensity and not lc.intensity, 'moments are handed on')
        out.append(tuple(want))
    require(np.array_equal(cp.data, M if form == 'mM' else m), 'cycle pairs modified')
    return tuple(out)


def f_chain(case):
    """record -> turning points -> cycles -> crossings: the counts are those of the record itself"""
    word = case
    x = np.array(word, dtype=float)
    ts = wo.TimeSeries(x, np.arange(len(word)) * 0.5)
    tick(3)
    lc = ts.turning_points().cycle_pairs().level_crossings(kind=1)
    for u, c in zip(np.ravel(lc.args), np.ravel(lc.data)):
        # number of strict passages from below to above u made by consecutive extremes of the record
        ext = R.extrema(word)
        ext = ([0] if word[ext[0]] > word[ext[1]] else []) + ext + [len(word) - 1]
        n = sum(1 for a, b in zip(ext, ext[1:]) if word[a] < u < word[b])
        require(n == c, 'level %g: %g crossings counted, the record has %d' % (u, c, n))
    return tuple(np.ravel(lc.data).tolist())


def proper(w):
    e = R.extrema(w)
    if len(e) < 2:
        return False
    ext = ([0] if w[e[0]] > w[e[1]] else []) + e + [len(w) - 1]
    y = [w[i] for i in ext]
    return all(y[k] != y[k + 1] for k in range(len(y) - 1))


def ref_disc(v, a, delta, n, how, lo, hi):
    import math
    q = (v - a) / delta
    k = math.floor(q) if how == 'floor' else math.ceil(q) if how == 'ceil' else int(np.round(q))
    return min(max(k, lo), hi)


def f_cmat(case):
    pairs, n, ddef, rev = case
    a, b = 0.0, float(n - 1) * 0.5       # grid step 1/2; values in quarters
    m = np.array([p[0] / 4.0 for p in pairs])
    M = np.array([p[1] / 4.0 for p in pairs])
    if rev:
        cp = wo.CyclePairs(m.copy(), M.copy())
    else:
        cp = wo.CyclePairs(M.copy(), m.copy())
    F = np.zeros((n, n))
    for x, y in zip(m, M):
        if ddef == 1:
            i, j = ref_disc(x, a, 0.5, n, 'floor', 0, n - 2), ref_disc(y, a, 0.5, n, 'ceil', 1, n - 1)
        elif ddef == 0:
            i, j = ref_disc(x, a, 0.5, n, 'round', 0, n - 1), ref_disc(y, a, 0.5, n, 'round', 0, n - 1)
        else:
            i, j = ref_disc(x, a, 0.5, n, 'ceil', 1, n - 1), ref_disc(y, a, 0.5, n, 'floor', 0, n - 2)
        if rev and x != y:
            i, j = j, i
        F[i, j] += 1
    tick()
    cm = cp.cycle_matrix((a, b, n), ddef=ddef)
    if ddef == 1:
        tick()
        close(np.asarray(cp.cycle_matrix((a, b, n)).data), F, 'cycle matrix by default', 0, 0)
    close(np.asarray(cm.data), F, 'cycle matrix ddef=%d' % ddef, 0, 0)
    close(np.asarray(cm.args[0]), np.linspace(a, b, n), 'levels', 0, 1e-15)
    return tuple(F.ravel().tolist())


def f_nt(case):
    c = np.array(case, dtype=float)
    n = len(c)
    keep = c.copy()
    want = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            want[i, j] = sum(c[p, q] for p in range(i) for q in range(j + 1, n))
    for kind in (1, 11):
        tick(2)
        nt = wmk.cmat2nt(c, kind)
        close(nt, want, 'counting distribution kind=%d' % kind, 0, 1e-12)
        back = wmk.nt2cmat(nt, kind)
        inner = c.copy()
        inner[-1, :] = 0
        inner[:, 0] = 0
        close(back, inner, 'cycle matrix recovered kind=%d' % kind, 0, 1e-12)
    for f in (wmk.cmat2nt, wmk.nt2cmat):
        for kind in (2, 12):
            try:
                f(c, kind)
            except Exception:
                continue
            raise Fail('%s accepts kind=%d' % (f.__name__, kind))
    require(np.array_equal(c, keep), 'input modified')
    return tuple(want.ravel().tolist())


def f_lcfit(case):
    mean, sigma, n, half = case
    lev = mean + sigma * np.linspace(-half, half, n)
    c = 40.0 * np.exp(-0.5 * ((lev - mean) / sigma) ** 2)
    tick(2)
    lc = wo.LevelCrossings(c.copy(), lev.copy(), mean=0.0, sigma=1.0)
    close(np.array(lc.estimate_mean_and_stdev()), np.array([mean, sigma]), 'estimate', 1e-6, 1e-6 * sigma)
    close(np.array(lc.estimate_mean_and_stdev(int(c.argmax()))), np.array([mean, sigma]), 'estimate from a given peak', 1e-6, 1e-6 * sigma)
    for kw in ({}, dict(mean=1.5), dict(sigma=2.5), dict(mean=1.5, sigma=2.5)):
        tick()
        lc = wo.LevelCrossings(c.copy(), lev.copy(), **kw)
        close(lc.mean, kw.get('mean', mean), 'mean from crossings', 1e-6, 1e-6 * sigma)
        close(lc.sigma, kw.get('sigma', sigma), 'standard deviation from crossings', 1e-6, 0)
        child, = lc.children
        close(child.args, lev, 'levels of the Gaussian curve', 1e-12, 1e-12)
        close(child.data, c.max() * np.exp(-0.5 * ((lev - lc.mean) / lc.sigma) ** 2), 'Gaussian curve through the largest count', 1e-9, 1e-9)
    return (round(lc.mean, 6), round(lc.sigma, 6))


def f_names(case):
    kind, rule = case
    pairs = [(0, 2), (1, 3), (1, 2)]
    cp = wo.CyclePairs(np.array([2., 3., 2.]), np.array([0., 1., 1.]), mean=0., sigma=1.)
    tick()
    lc = cp.level_crossings(kind=kind)
    close(np.ravel(lc.data), np.array(ref_lc(pairs, rule)[1], dtype=float), 'rule %r' % kind, 0, 0)


def f_rfcmarg(case):
    """rainflow matrix of a Markov chain of turning points keeps the marginal distributions of maxima and minima"""
    vals = case
    N = 5
    f = np.zeros((N, N))
    k = 0
    for i in range(N - 1):
        for j in range(N - 1 - i):
            f[i, j] = vals[k % len(vals)]
            k += 1
    f = (f + f.T) / 2
    keep = f.copy()
    tick()
    r = wmk.mctp2rfc(f)
    require(np.array_equal(f, keep), 'input modified')
    close(r.sum(axis=1), f.sum(axis=1), 'distribution of maxima', 1e-6, 1e-9)
    close(r.sum(axis=0), f.sum(axis=0), 'distribution of minima', 1e-6, 1e-9)
    return tuple(rnd(r.ravel()))


def rfc_ref(f, g):
    """rainflow matrix of a Markov chain of turning points from first passage probabilities.
    rows: maxima from the highest level down, columns: minima from the lowest level up"""
    N = len(f)
    A = np.flipud(f).T                                   # A[i,j]: minimum i followed by maximum j
    B = np.flipud(g).T                                   # B[i,j]: maximum j followed by minimum i
    fm, fM = A.sum(axis=1), B.sum(axis=0)
    P = np.array([A[i] / fm[i] if fm[i] else 0 * A[i] for i in range(N)])
    Q = np.array([B[:, j] / fM[j] if fM[j] else 0 * B[:, j] for j in range(N)])
    mu = np.zeros((N + 1, N + 1))                        # mu[u+1, v]: passages from <= u to >= v
    for u in range(N):
        for v in range(u + 1, N):
            above = list(range(u + 1, N))
            step = Q[:v][:, above]
            h = np.linalg.lstsq(np.eye(len(above)) - P[above][:, :v].dot(step), P[above][:, v:].sum(axis=1), rcond=None)[0]
            mu[u + 1, v] = sum(fm[i] * (P[i, v:].sum() + P[i, :v].dot(step).dot(h)) for i in range(u + 1))
    R = np.zeros((N, N))
    for i in range(N):
        for j in range(i + 1, N):                        # a rainflow cycle (i,j) is a passage from <= i to >= j and no further
            R[i, j] = mu[i + 1, j] - mu[i, j] - mu[i + 1, j + 1] + mu[i, j + 1]
    return np.flipud(R.T)


def chain(vals, N, sym):
    f = np.zeros((N, N))
    k = 0
    for i in range(N - 1):
        for j in range(N - 1 - i):
            f[i, j] = vals[k % len(vals)]
            k += 1
    return (f + f.T) / 2 if sym else f


def f_rfcexact(case):
    vals, N, sym = case
    f = chain(vals, N, sym)
    keep = f.copy()
    tick(3)
    r = wmk.mctp2rfc(f)
    require(np.array_equal(f, keep), 'input modified')
    want = rfc_ref(f, f)
    close(r, want, 'rainflow matrix of the chain', 1e-6, 2e-6 * f.sum())
    close(wmk.mctp2rfc(f, f), r, 'both matrices given', 1e-12, 1e-12)
    close(wmk.mctp2rfc(3 * f), 3 * r, 'three times as many cycles', 1e-9, 1e-9)
    # inversion: the Markov matrix is found from its rainflow matrix
    F, R2 = wmk.iter_(np.fliplr(r), k=400, epsilon=1e-13)
    tick()
    close(np.fliplr(R2), r, 'rainflow matrix of the solution', 1e-4, 1e-5 * f.sum())
    require(np.all(F >= 0), 'negative frequencies')
    F1, _ = wmk.iter_(np.fliplr(r), np.fliplr(f), k=5)
    close(np.fliplr(F1), f, 'the solution is a fixed point', 1e-4, 1e-5 * f.sum())


def f_counts(case):
    """nt2fr inverts the counting distributions of both kinds, fr2nt counts"""
    c, = case
    f = np.array(c, float)
    n = len(f)
    for kind in (0, 1):
        # the definition N(i,j): sum of the cycles in the corner below (i,j), the cycle (i,j) itself counted for kind 1
        nt = np.array([[f[:i + kind, :j + kind].sum() for j in range(n)] for i in range(n)])
        keep = nt.copy()
        got = wmk.nt2fr(nt, kind)
        tick()
        want = np.zeros((n, n))
        if kind == 0:
            want[:n - 1, :n - 1] = f[:n - 1, :n - 1]
        else:
            want[1:, 1:] = f[1:, 1:]
        close(got, want, 'frequencies of kind %d' % kind, 1e-12, 1e-12)
        require(np.array_equal(nt, keep), 'input modified')
    if n >= 3:
        nt = np.asarray(wmk.fr2nt(f))
        tick()
        want = np.array([[f[:i, :j].sum() if i + j <= n - 1 else 0.0 for j in range(n)] for i in range(n)])
        close(nt, want, 'counting distribution', 1e-12, 1e-12)
    else:
        try:
            wmk.fr2nt(f)
        except ValueError:
            return
        raise Fail('a matrix of two levels is accepted')


def f_testmat(case):
    n, x0, s, lam, sub = case
    a, b = -1.0, 1.0
    kw = {}
    if x0 is not None:
        kw['x0'] = list(x0)
    if s is not None:
        kw['s'] = s
    F, Fh = wmk.mktestmat((a, b, n), lam=lam, numsubzero=-np.inf if sub == 'all' else sub, **kw)
    tick()
    c = x0 or (0.0, 0.0)
    sd = s or (b - a) / 4
    S = 0.5 * sd ** 2 * np.array([[lam ** 2 + 1, lam ** 2 - 1], [lam ** 2 - 1, lam ** 2 + 1]])
    Si = np.linalg.inv(S)
    u = np.linspace(a, b, n)
    want = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if sub == 'all' or j > i + sub:
                d = np.array([u[i] - c[0], u[j] - c[1]])
                want[i, j] = np.exp(-0.5 * d.dot(Si).dot(d))
    close(F, want, 'test matrix', 1e-9, 1e-12)
    close(Fh, want.T, 'reversed matrix', 1e-9, 1e-12)


def f_tc(case):
    vals, utc = case
    N = 5
    f = np.zeros((N, N))
    k = 0
    for i in range(N - 1):
        for j in range(N - 1 - i):
            f[i, j] = vals[k % len(vals)]
            k += 1
    f = (f + f.T) / 2
    keep = f.copy()
    tick(2)
    a = wmk.mctp2tc(f, utc, (-1, 1, N))
    require(np.array_equal(f, keep), 'the frequency matrix handed in was modified')
    b = wmk.mctp2tc(f, utc, (-1, 1, N))
    close(a, b, 'second call', 0, 1e-12)
    return tuple(rnd(a.ravel()))


def groups(tier):
    big = tier == 'thorough'
    alt = [w for n in range(2, 9 if big else 8) for w in R.alternating([0, 1, 2, 3], n)]
    P = [(a, b) for a in range(4) for b in range(a + 1, 4)]
    prs = [list(c) for k in (1, 2, 3, 4) for c in itertools.product(P, repeat=k)]
    Q = [(a, b) for a in range(-1, 11, 1) for b in range(a, 11, 1)]
    return [
        Group('pairs', [(w, h) for w in alt for h in (-1, 0, 1, 2, 3, 4, 5)], f_pairs),
        Group('crossing-counts', [(p, f) for p in prs for f in (('mM', 'Mm') if all(a < b for a, b in p) else ('mM',))],
              f_lc, note='every multiset history of up to 4 cycles over 4 levels, 4 rules, both storage orders'),
        Group('record-to-crossings', [w for w in words([0, 1, 2, 3], 3, 7 if big else 6) if proper(w) and R.extrema(w)],
              f_chain),
        Group('cycle-matrix', [([p], n, d, r) for p in Q for n in (3, 5) for d in (1, 0, -1)
                               for r in ((0, 1) if p[0] < p[1] else (0,))] +
              [(list(c), 4, d, r) for c in itertools.product([(0, 1), (1, 6), (2, 3), (-1, 7), (3, 4)], repeat=3)
               for d in (1, 0, -1) for r in (0, 1)], f_cmat),
        Group('counting-distribution', [np.reshape(c, (3, 3)).tolist() for c in itertools.product((0, 1, 2), repeat=9)
                                        if c[6] == c[7] or big] +
              [np.reshape((list(c) * 4)[:16], (4, 4)).tolist() for c in itertools.product((0, 1, 3), repeat=5)], f_nt),
        Group('gaussian-crossings', [(m, s, n, h) for m in (-2.0, 0.0, 3.0) for s in (0.5, 1.0, 4.0)
                                     for n in (23, 41, 101) for h in (2.0, 3.0)], f_lcfit),
        Group('markov-rainflow', [list(c) for k in (2, 3, 4) for c in itertools.product((0.25, 1.0, 2.0), repeat=k)],
              f_rfcmarg),
        Group('markov-exact', [(list(c), N, s) for N in (3, 4, 5, 6) for k in (2, 3, 4) for c in itertools.product((0.25, 1.0, 2.0), repeat=k) for s in (1, 0)] +
              ([(list(c), 7, s) for c in itertools.product((0.0, 1.0, 3.0, 0.5), repeat=5) if sum(c) > 0 for s in (1, 0)] if big else []), f_rfcexact, chunk=8,
              note='rainflow matrices of Markov chains of 3..6 levels (7 thorough) against first passage probabilities; inversion by iteration'),
        Group('frequencies', [(np.reshape(c, (2, 2)).tolist(),) for c in itertools.product((0, 1, 2), repeat=4)] + [(np.reshape(c, (3, 3)).tolist(),) for c in itertools.product((0, 1), repeat=9)] +
              [(np.reshape((list(c) * 6)[:25], (5, 5)).tolist(),) for c in itertools.product((0, 1, 3), repeat=5)], f_counts, note='counting distributions to frequencies and back'),
        Group('test-matrices', [(n, x, s, l, z) for n in (2, 3, 5, 8) for x in (None, (-0.2, 0.2), (0.5, -0.5)) for s in (None, 0.25, 1.0) for l in (0.5, 1, 2) for z in (0, 1, -1, 'all')], f_testmat,
              note='normal kernels'),
        Group('markov-trough-crest', [(list(c), u) for k in (2, 3) for c in itertools.product((0.25, 1.0, 2.0), repeat=k)
                                      for u in (0.0,)], f_tc),
        Group('named-rules', [['u', 1], ['uM', 2], ['umM', 3], ['um', 4]], f_names),
    ]
