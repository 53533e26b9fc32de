"""P05 Troughs, crests and wave parameters are those of the record's zero-crossing decomposition."""
import numpy as np
from vk import Group, Fail, tick
from ref import words, de_bruijn, same_ints, close, require, rnd
import sigref as R
import wafo.misc as wm
import wafo.objects as wo
from wafo.interpolate import stineman_interp

PROPERTY = 'P05'
ASSUMPTIONS = ['records contain no NaN', 'evenly sampled records for wave parameters',
               'wave periods: definitions between level crossings, first crossing an up-crossing (other definitions '
               'are recorded as known findings)']
KINDS = [None, 'tw', 'cw', 'dw', 'uw']


def ref_tc(x, v, kind):
    cr = R.select(R.crossings([R.sgn(a - v) for a in x]), kind)
    vi = [i for i, _ in cr]
    if len(cr) <= 2:
        return [], []
    tc = []
    for (a, d), (b, _) in zip(cr, cr[1:]):
        seg = list(range(a + 1, b + 1))
        best = seg[0]
        for i in seg:
            if (x[i] < x[best]) if d < 0 else (x[i] > x[best]):
                best = i
        tc.append(best)
    return tc, vi


def f_tc(case):
    word, v2 = case
    x = np.array(word, dtype=float)
    keep = x.copy()
    out = []
    for kind in KINDS:
        want, wv = ref_tc(word, v2 / 2.0, kind)
        tick()
        tc, vi = wm.findtc(x, v2 / 2.0, kind)
        same_ints(tc, want, 'troughs and crests kind=%r' % kind)
        if want:
            same_ints(vi, wv, 'crossings kind=%r' % kind)
        out.append(tuple(want))
    # default level: the mean
    want, wv = ref_tc([a * len(word) for a in word], float(sum(word)), None)
    exact = abs(x.mean() * len(word) - sum(word)) == 0
    if exact and all(abs(a - x.mean()) > 1e-9 or a == x.mean() for a in x):
        tick()
        same_ints(wm.findtc(x)[0], want, 'level defaults to the mean')
    tick()
    same_ints(wm.findtc(list(word), v2 / 2.0, None)[0], ref_tc(word, v2 / 2.0, None)[0], 'list input')
    require(np.array_equal(x, keep), 'input modified')
    return tuple(out)


def ex(t, x, i):
    i = np.asarray(i, dtype=int)
    return t[i] + (0.0 - x[i]) * (t[i + 1] - t[i]) / (x[i + 1] - x[i])


def ref_wp(x, t, dT):
    """wave parameters of all trough-to-trough waves: brute force over the waves"""
    tc, vi = ref_tc(x.tolist(), 0.0, 'tw')
    r = dict((k, []) for k in ('Ac', 'At', 'Hu', 'Hd', 'Tu', 'Td', 'Tcf', 'Tcb'))
    if not tc:
        return r
    # crossings: d u d u ... d u ; tc: t c t c ... t
    r['At'] = [-x[i] for i in tc[0::2]]
    for k in range(len(tc) // 2):
        t0, c, t1 = tc[2 * k], tc[2 * k + 1], tc[2 * k + 2]
        d0, u0, d1, u1 = vi[2 * k:2 * k + 4]
        td0, tu0, td1, tu1 = ex(t, x, [d0, u0, d1, u1])
        r['Ac'].append(x[c])
        r['Hd'].append(x[c] - x[t0])
        r['Hu'].append(x[c] - x[t1])
        r['Td'].append(td1 - td0)
        r['Tu'].append(tu1 - tu0)
        f, b = t[c] - tu0, td1 - t[c]
        r['Tcf'].append(dT if f == 0 else f)
        r['Tcb'].append(dT if b == 0 else b)
    return r


def ref_steep(r, kind, g):
    a = dict((k, np.array(v, dtype=float)) for k, v in r.items())
    if kind == 0:
        front = a['Tcf'] < a['Tcb']
        return a['Ac'] / np.where(front, a['Tcf'], a['Tcb']), np.where(front, a['Hd'], a['Hu'])
    if kind > 0:
        H, T, Tc = a['Hd'], a['Td'], a['Tcf']
    else:
        H, T, Tc = a['Hu'], a['Tu'], a['Tcb']
    if abs(kind) == 1:
        return a['Ac'] / Tc, H
    if abs(kind) == 2:
        return 2 * np.pi * a['Ac'] / T / Tc / g, H
    return 2 * np.pi * H / T ** 2 / g, H


NAMES = {'maxVcfVcb': 0, 'Vcf': 1, 'Vcb': -1, 'Scf': 2, 'Scb': -2, 'StHd': 3, 'StHu': -3}


def check_wp(ts, x, t, rate, what, g=9.8, names=True):
    if rate > 1:
        n = int(np.ceil(len(x) * rate))
        ti = np.linspace(t[0], t[-1], n)
        xi = stineman_interp(ti, t, x)
    else:
        xi, ti = x, t
    dT = (t[1] - t[0]) / max(rate, 1)
    want = ref_wp(xi, ti, dT)
    tick()
    got = ts.wave_parameters(rate=rate) if rate != 1 else ts.wave_parameters()
    for k in want:
        close(np.asarray(got[k], dtype=float), np.array(want[k], dtype=float), '%s %s' % (what, k), 1e-9, 1e-9)
    if names:
        for nm, k in NAMES.items():
            S, H = ref_steep(want, k, g)
            for key in (nm, k):
                tick()
                s, h = ts.wave_height_steepness(kind=key, rate=rate, g=g)
                close(np.asarray(s, dtype=float), S, '%s steepness kind=%r' % (what, key), 1e-9, 1e-9)
                close(np.asarray(h, dtype=float), H, '%s height kind=%r' % (what, key), 1e-9, 1e-9)
    return want


def f_wp(case):
    word, (t0, dt) = case
    x = np.array(word, dtype=float) * 0.75
    t = t0 + dt * np.arange(len(word))
    ts = wo.TimeSeries(x.copy(), t.copy())
    w = check_wp(ts, x, t, 1, 'record')
    require(np.array_equal(ts.data, x) and np.array_equal(ts.args, t), 'time series modified')
    return tuple(map(tuple, (rnd(v) for v in w.values())))


def f_rate(case):
    word, rate = case
    x = np.array(word, dtype=float) * 0.75
    t = 1.0 + 0.5 * np.arange(len(word))
    ts = wo.TimeSeries(x.copy(), t.copy())
    w = check_wp(ts, x, t, rate, 'rate %d' % rate, names=len(word) < 8)
    return tuple(map(tuple, (rnd(v) for v in w.values())))


def f_obj(case):
    word, kind = case
    x = np.array(word, dtype=float)
    t = 2.0 + 0.125 * np.arange(len(word))
    ts = wo.TimeSeries(x.copy(), t.copy())
    want, _ = ref_tc(word, 0.0, kind)
    tick()
    tc = ts.trough_crest(0.0, kind)
    if not want:
        require(np.size(tc.data) == 0, 'no waves expected')
        return ()
    close(np.ravel(tc.data), x[want], 'trough/crest values', 0, 0)
    close(np.ravel(tc.args), t[want], 'trough/crest times', 0, 1e-12)
    close(tc.mean, x.mean(), 'mean', 1e-12, 1e-12)
    close(tc.sigma, x.std(), 'sigma', 1e-12, 1e-12)
    return tuple(want)


def f_periods(case):
    """periods between crossings, records whose first (selected) crossing is an up-crossing"""
    word, pdef, v2 = case
    v = v2 / 2.0
    x = np.array(word, dtype=float)
    t = 2.0 + 0.125 * np.arange(len(word))
    cr = R.crossings([R.sgn(a - v) for a in word])
    ts = wo.TimeSeries(x.copy(), t.copy())
    te = {i: t[i] + (v - x[i]) * 0.125 / (x[i + 1] - x[i]) for i, _ in cr}
    a, b = (1 if pdef[0] == 'u' else -1), (1 if pdef[2] == 'u' else -1)
    want = []
    for k, (i, d) in enumerate(cr):
        if d == a:
            for j, e in cr[k + 1:]:
                if e == b:
                    want.append(te[j] - te[i])
                    break
    tick()
    T, ix = ts.wave_periods(vh=v, pdef=pdef)
    same_ints(ix, [i for i, _ in cr], 'crossings used')
    close(np.asarray(T, dtype=float), np.array(want), 'periods %s' % pdef, 1e-9, 1e-9)
    # crossings given: only those are used
    sub = np.array([i for i, _ in cr])[:-1]
    if len(sub) >= 2 and word[sub[0]] <= word[sub[1]]:
        tick()
        T2, ix = ts.wave_periods(vh=v, pdef=pdef, index=sub)
        same_ints(ix, sub, 'crossings given')
        n = len([1 for k, (i, d) in enumerate(cr[:-1]) if d == a and any(e == b for j, e in cr[k + 1:-1])])
        close(np.asarray(T2, dtype=float), np.array(want)[:n], 'periods %s of given crossings' % pdef, 1e-9, 1e-9)
    if v2 == 0 and x.mean() == 0:
        for c in (0.0, 2.5):
            tick()
            close(np.asarray(wo.TimeSeries(x + c, t.copy()).wave_periods(pdef=pdef)[0]), np.array(want), 'periods %s about the mean' % pdef, 1e-9, 1e-9)
    return tuple(rnd(T))


def f_index(case):
    """the points between which periods are taken, for every kind of period"""
    word, pdef, c = case
    x = np.array(word, dtype=float) + c
    ts = wo.TimeSeries(x.copy(), 0.5 * np.arange(len(word)))
    tc, vi = ref_tc(word, 0.0, None)
    if pdef[0] in 'mM':
        tp = wm.findtp(x, 0.0)
        want = [] if tp is None else [int(i) for i in tp]
    elif pdef in ('t2t', 't2c', 'c2t', 'c2c'):
        want = tc
    elif pdef[0] + pdef[2] in ('uu', 'ud', 'du', 'dd'):
        want = [i for i, _ in R.crossings([R.sgn(a) for a in word])]
    else:
        want = sorted(list(tc) + list(vi))
    if len(want) < 2:
        return 'none'
    tick(2)
    T, ix = ts.wave_periods(vh=0.0 if pdef[0] in 'mM' else c, pdef=pdef)
    same_ints(ix, want, 'points used for %s' % pdef)
    if x.mean() == c:
        T2, ix2 = ts.wave_periods(pdef=pdef)
        same_ints(ix2, want, 'points used for %s by default' % pdef)
        close(np.asarray(T2), np.asarray(T), 'periods about the default level', 1e-12, 1e-12)
    if pdef == 'all':
        require(len(T) in (len(ix) - 1, len(ix) - 2), '%d periods of %d points' % (len(T), len(ix)))
    return tuple(want)


def up_first(word, v2):
    cr = R.crossings([R.sgn(2 * a - v2) for a in word])
    return len(cr) >= 2 and cr[0][1] > 0 and word[cr[0][0]] <= word[cr[1][0]]


def f_known(case):
    """wave_periods outside the subspace above (recorded known findings)"""
    word, pdef = case
    x = np.array(word, dtype=float)
    t = 0.5 * np.arange(len(word))
    ts = wo.TimeSeries(x.copy(), t.copy())
    ev = {'c': [], 't': []}
    tc, vi = ref_tc(word, 0.0, None)
    if pdef[0] in 'ud':
        te = [(ex(t, x, [i])[0], 'u' if d > 0 else 'd') for i, d in R.crossings([R.sgn(a) for a in word])]
    else:
        te = [(t[i], 'c' if word[i] > 0 else 't') for i in tc]
    want = []
    for k, (ta, ka) in enumerate(te):
        if ka == pdef[0]:
            for tb, kb in te[k + 1:]:
                if kb == pdef[2]:
                    want.append(tb - ta)
                    break
    tick()
    T, _ = ts.wave_periods(vh=0.0, pdef=pdef)
    close(np.asarray(T, dtype=float), np.array(want), 'periods %s' % pdef, 1e-9, 1e-9)
    return tuple(rnd(T))


LONG = {'db3_6': de_bruijn(3, 6), 'db5_4': de_bruijn(5, 4), 'db7_3': de_bruijn(7, 3)}


def f_long(case):
    name, n, dt = case
    m = {'db3_6': 1, 'db5_4': 2, 'db7_3': 3}[name]
    w = (np.resize(np.array(LONG[name]), n) - m).tolist()
    x = np.array(w, dtype=float)
    t = 10.0 + dt * np.arange(n)
    out = []
    for kind in KINDS:
        tick()
        tc, vi = wm.findtc(x, 0.0, kind)
        want, wv = ref_tc(w, 0.0, kind)
        same_ints(tc, want, 'long troughs and crests')
        out.append(len(want))
    check_wp(wo.TimeSeries(x, t), x, t, 1, 'long')
    return tuple(out)


KNOWN = [([1, -1, 1, -1, 1, -1], 'd2d'),
         ([-1, 1, -1, 1, -1, 1, -1], 'c2c'), ([-1, 1, -1, 1, -1, 1, -1], 't2c')]


def groups(tier):
    big = tier == 'thorough'
    n3, n4 = (10, 8) if big else (8, 6)
    wp = [w for w in list(words([-1, 0, 1], 2, n3)) + list(words([-2, -1, 1, 2], 5, n4 + 1))
          if len(R.crossings([R.sgn(a) for a in w])) >= 4]
    few = [w for w in words([-1, 0, 1], 2, 5)]
    return [
        Group('troughs-crests', [(w, v) for w in words([-1, 0, 1], 1, n3) for v in (0, 1)] +
              [(w, v) for w in words([-2, -1, 1, 2], 1, n4) for v in (0, 1, 2, -3)], f_tc),
        Group('wave-parameters', [(w, (0.0, 1.0)) for w in few] +
              [(w, c) for w in wp for c in ((0.0, 1.0), (7.0, 0.25))], f_wp),
        Group('interpolated', [(w, r) for w in wp if len(w) <= 7 for r in (2, 3)], f_rate),
        Group('objects', [(w, k) for w in words([-2, -1, 1, 2], 4, 6) for k in KINDS], f_obj),
        Group('periods', [(w, p, v) for w in words([-2, 0, 1, 2], 2, 6) for v in (0, 1) if up_first(w, v)
                          for p in ('u2u', 'u2d', 'd2u', 'd2d')], f_periods),
        Group('period-points', [(w, p, c) for w in words([-2, -1, 1, 2], 4, 6) for c in (0.0, 2.5) for p in
                                ('m2m', 'm2M', 'M2m', 'M2M', 'u2u', 'u2d', 'd2u', 'd2d', 't2t', 't2c', 'c2t', 'c2c', 'd2t', 't2u', 'u2c', 'c2d', 'all')], f_index),
        Group('long', [(k, n, dt) for k in LONG for n in (10, 100, 255, 256, 257, 625, 1024, 3000) for dt in (0.5, 0.25)],
              f_long),
        Group('wave-periods-known', KNOWN, f_known),
    ]
