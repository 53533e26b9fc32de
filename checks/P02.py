"""P02 Turning points: findextrema/findtp select exactly the turning points of the record."""
import itertools
import numpy as np
from vk import Group, Fail, tick
from ref import words, de_bruijn, same_ints, close, require
import sigref as R
import wafo.misc as wm
import wafo.objects as wo

PROPERTY = 'P02'
ASSUMPTIONS = ['records contain no NaN', 'a record with fewer than two extremes has no turning point sequence '
               '(the code answers None)']


def ref_tp(x, kind):
    """turning points of the record for h == 0"""
    ind = R.extrema(x)
    if len(ind) < 2:
        return None
    n = len(x)
    if kind == 'astm':
        ind = ([0] if ind[0] != 0 else []) + ind + [n - 1]
    elif x[ind[0]] > x[ind[1]]:
        ind = [0] + ind + [n - 1]
    else:
        ind = ind + [n - 1]
    return ind


def ref_wave(x, ind, kind):
    if kind in ('mw', 'Mw'):
        if len(ind) < 2:
            return []
        first_is_max = x[ind[0]] > x[ind[1]]
        if first_is_max != (kind == 'Mw'):
            ind = ind[1:]
        if len(ind) % 2 == 0:
            ind = ind[:-1]
    return ind


def f_extrema(case):
    x = np.array(case, dtype=float)
    want = R.extrema(case)
    tick()
    same_ints(wm.findextrema(x), want, 'extremes of %s' % case)
    tick()
    same_ints(wm.findextrema(case), want, 'extremes of the list')
    # alternation: consecutive extremes are strictly a minimum and a maximum
    v = [case[i] for i in want]
    for k in range(len(v) - 2):
        require((v[k + 1] - v[k]) * (v[k + 2] - v[k + 1]) < 0, 'reference extremes do not alternate')
    return tuple(want)


def same_tp(got, want, what):
    if want is None:
        if got is None or np.size(got) == 0:
            return None
        raise Fail('%s: got %s for a record without turning points' % (what, got))
    if got is None:
        raise Fail('%s: got None, want %s' % (what, want))
    return same_ints(got, want, what)


def f_tp(case):
    x = np.array(case, dtype=float)
    keep = x.copy()
    out = []
    for kind in (None, 'mw', 'Mw', 'astm', 'none'):
        base = ref_tp(case, kind)
        want = None if base is None else ref_wave(case, base, kind)
        for m in ('clib', 'numba'):
            tick()
            same_tp(wm.findtp(x, 0.0, kind, m), want, 'turning points kind=%r method=%s' % (kind, m))
        tick()
        same_ints(wm.findtp(x, -1.0, kind), range(len(x)), 'h<0 keeps every sample')
        out.append(None if want is None else tuple(want))
    require(np.array_equal(x, keep), 'input modified')
    return tuple(out)


def f_tph(case):
    """h > 0: rainflow filtered turning points"""
    word, h2, a, b = case
    h = h2 / 2.0
    x = a * np.array(word, dtype=float) + b
    out = []
    for kind in (None, 'mw', 'Mw'):
        base = ref_tp(word, kind)
        if base is None:
            want = None
        else:
            y = [word[i] for i in base]
            # a leading flat makes the padded sequence start with two equal values; no cycle there
            want = [base[i] for i in R.rainflow_indices(y, h)]
            want = ref_wave(word, want, kind)
        for m in ('clib', 'numba'):
            tick()
            same_tp(wm.findtp(x, a * h, kind, m), want, 'h=%g kind=%r method=%s scale %g offset %g' % (h, kind, m, a, b))
        out.append(None if want is None else tuple(want))
    return tuple(out)


def strictly_proper(word):
    """no leading flat (the padded turning point sequence is then strictly alternating)"""
    i = ref_tp(word, None)
    if i is None:
        return True
    y = [word[k] for k in i]
    return all(y[k] != y[k + 1] for k in range(len(y) - 1)) and all(
        (y[k + 1] - y[k]) * (y[k + 2] - y[k + 1]) < 0 for k in range(len(y) - 2))


def f_obj(case):
    """TimeSeries.turning_points carries the samples and times of those indices, for every kind and threshold."""
    word, h2, kind, a = case
    h = h2 / 2.0
    x = a * np.array(word, dtype=float)
    t = 3.0 + 0.25 * np.arange(len(word))
    base = ref_tp(word, kind)
    if base is None:
        return None
    want = base          # (the time series treats h < 0 as h == 0)
    if h > 0:
        want = [base[i] for i in R.rainflow_indices([word[i] for i in base], h)]
    want = ref_wave(word, want, kind)
    ts = wo.TimeSeries(x, t)
    tick()
    tp = ts.turning_points(h * a, kind) if h2 else ts.turning_points(wavetype=kind)
    if len(want) == 0:
        require(np.size(tp.data) == 0, 'no cycles expected')
        return ()
    close(np.ravel(tp.data), x[want], 'turning point values', 0, 0)
    close(np.ravel(tp.args), t[want], 'turning point times', 0, 1e-12)
    require(np.array_equal(ts.data, x) and np.array_equal(np.ravel(ts.args), t), 'time series modified')
    return tuple(want)


def f_affine(case):
    word, (a, b), dt = case
    x = (a * np.array(word, dtype=float) + b).astype(dt)
    want = ref_tp(word, None)
    tick(2)
    same_ints(wm.findextrema(x), R.extrema(word), 'extremes scale %g' % a)
    return same_tp(wm.findtp(x), want, 'turning points scale %g offset %g %s' % (a, b, dt))


def ref_peaks(row, h):
    base = ref_tp(row, None)
    if base is None:
        tp = []
    else:
        tp = base if h == 0 else [base[i] for i in R.rainflow_indices([row[i] for i in base], h)]
    if len(tp):
        return tp[1::2]
    return [row.index(max(row))]


def f_peaks(case):
    """the n highest maxima that belong to a rainflow cycle of at least min_h"""
    rows, h2, n, p2 = case
    h = h2 / 2.0
    d = np.array(rows, dtype=float)
    tick()
    got = np.asarray(wm.findpeaks(d, n=n, min_h=h, min_p=p2 / 2.0)).astype(int).tolist()
    if d.ndim == 1:
        cand = ref_peaks(list(rows), h)
    else:
        cand = []
        m = d.shape[1]
        for k, r in enumerate(rows):
            for j in ref_peaks(list(r), h):
                if (k == 0 or r[j] > rows[k - 1][j]) and (k == len(rows) - 1 or r[j] > rows[k + 1][j]):
                    cand.append(k * m + j)
    flat = d.ravel()
    top = sorted((flat[i] for i in cand), reverse=True)[:n]
    if p2 > 0:
        top = [v for v in top if v > p2 / 2.0 * flat.max()]
    require(len(set(got)) == len(got) and all(i in cand for i in got), 'peaks %s are not among the maxima %s' % (got, cand))
    require([flat[i] for i in got] == top, 'peak heights %s, want %s' % ([flat[i] for i in got], top))
    return tuple(top)


LONG = {'db3_6': de_bruijn(3, 6), 'db4_5': de_bruijn(4, 5), 'db5_5': de_bruijn(5, 5), 'alt': [0, 1], 'tri': [0, 1, 2, 1]}


def f_long(case):
    name, n = case
    w = np.resize(np.array(LONG[name]), n).tolist()
    x = np.array(w, dtype=float)
    out = []
    for kind in (None, 'mw', 'Mw', 'astm'):
        base = ref_tp(w, kind)
        tick()
        same_tp(wm.findtp(x, 0.0, kind), None if base is None else ref_wave(w, base, kind), 'long %s' % name)
        out.append(None if base is None else len(base))
    for h in (1.0, 1.5, 2.0, 3.0):
        base = ref_tp(w, None)
        if base is None or not strictly_proper(w):
            continue
        want = [base[i] for i in R.rainflow_indices([w[i] for i in base], h)]
        for m in ('clib', 'numba'):
            tick()
            same_tp(wm.findtp(x, h, None, m), want, 'long %s h=%g %s' % (name, h, m))
        out.append(len(want))
    return tuple(out)


def groups(tier):
    big = tier == 'thorough'
    n3, n4 = (10, 8) if big else (8, 6)
    w4 = [w for w in words([0, 1, 2, 3], 3, n4)]
    proper = [w for w in w4 if strictly_proper(w)]
    rows3 = [list(r) for r in itertools.product([0, 1, 2], repeat=4)]
    pk = [(w, h, n, p) for w in words([0, 1, 2, 3], 2, 6 if big else 5) if strictly_proper(w) for h in (0, 1, 2, 3, 4)
          for n in (1, 2, 3) for p in (0, 1)]
    pk += [([a, b], h, n, 0) for a in rows3 for b in rows3 if strictly_proper(a) and strictly_proper(b)
           for h in (1, 3) for n in (1, 3)]
    pk += [([a, b, a[::-1]], 1, 2, 0) for a in rows3 for b in rows3 if strictly_proper(a) and strictly_proper(b)]
    return [
        Group('peaks', pk, f_peaks),
        Group('extremes', list(words([0, 1, 2], 2, n3)) + list(words([0, 1, 2, 3], n4, n4)), f_extrema),
        Group('turning-points', list(words([0, 1, 2], 2, n3)) + list(words([0, 1, 2, 3], n4, n4)), f_tp),
        Group('rainflow-filtered', [(w, h, 1.0, 0.0) for w in proper for h in range(1, 8)] +
              [(w, h, a, b) for w in proper if len(w) < 6 for h in range(1, 7) for a, b in ((2.0 ** -20, 0.0), (2.0 ** -40, 0.0), (2.0 ** 30, 0.0), (0.5, -512.0))], f_tph,
              note='every record over 4 values up to length %d, all thresholds on and between the ranges' % n4),
        Group('objects', [(w, h, k, a) for w in proper if len(w) <= 6 for h in (-1, 0, 2, 3) for k in (None, 'mw', 'Mw') for a in ((1.0, 2.0 ** -20) if len(w) < 6 else (1.0,))],
              f_obj),
        Group('affine', [(w, ab, dt) for w in words([0, 1, 2], 2, 6) for ab in
                         [(1e-6, 0.), (1e6, 0.), (1., -100.), (0.25, 1000.), (-1., 0.)] for dt in ('f8', 'f4')
                         if ab[0] > 0], f_affine),
        Group('long', [(k, n) for k in LONG for n in (5, 63, 64, 65, 255, 256, 257, 500, 729, 1023, 1024, 1025, 2000)],
              f_long),
    ]
