"""P03 Rainflow counting: counted / filtered cycles are exactly the rainflow cycles of the load history."""
import numpy as np
from vk import Group, Fail, tick
from ref import words, de_bruijn, same_ints, close, require
import sigref as R
import wafo.misc as wm
import wafo.objects as wo

PROPERTY = 'P03'
ASSUMPTIONS = ['turning point sequences contain no NaN and alternate strictly',
               'integer valued loads (affine images of them in one group)']


def thresholds(alphabet):
    return [h / 2.0 for h in range(0, 2 * (max(alphabet) - min(alphabet)) + 2)]


def f_rfc(case):
    y = np.array(case, dtype=float)
    keep = y.copy()
    out = []
    for h in thresholds(case):
        want = R.rainflow_indices(case, h)
        for m in ('clib', 'numba', 2):
            tick()
            same_ints(wm.findrfc(y, h, m), want, 'rainflow cycles >= %g (%s)' % (h, m))
        out.append(tuple(want))
    require(np.array_equal(y, keep), 'input modified')
    return tuple(out)


def ref_filter(x, h, strict):
    tps, cand, dirn = R.hysteresis_filter(x, h, strict)
    if dirn != 0:
        d = abs(x[cand] - x[tps[-1]])
        if (d >= h) if strict else (d > h):
            tps.append(cand)
    return tps


def f_filter(case):
    x = np.array(case, dtype=float)
    keep = x.copy()
    out = []
    hs = thresholds(case)
    res = {}
    for strict in (0, 1):
        for h in hs:
            if h == 0 and (len(set(case)) == 1 or not strict):
                continue        # 'range < 0' removes nothing; flats are then outside the definition
            idx = ref_filter(case, h, bool(strict))
            tick()
            y = wm.rfcfilter(x, h, method=strict)
            res[strict, h] = y
            close(y, x[idx], 'rainflow filtered signal h=%g method=%d' % (h, strict), 0, 0)
            # observable guarantees
            d = np.diff(y)
            if h > 0 or strict:
                require(np.all(d[1:] * d[:-1] < 0), 'filtered signal does not alternate')
                require(np.all(np.abs(d) >= h), 'a range below the threshold survived')
                tick()
                y2 = wm.rfcfilter(y, h, method=strict)
                # a last swing of exactly the threshold is the only thing a second pass may drop
                if not (not strict and len(d) and abs(d[-1]) == h and np.array_equal(y2, y[:-1])):
                    close(y2, y, 'filtering twice changes the signal', 0, 0)
            out.append(tuple(idx))
        # nested thresholds: filtering coarsely equals filtering finely first (strict rule)
    for strict in (1,):
        for i, h1 in enumerate(hs):
            for h2 in hs[i + 1:]:
                if (strict, h1) not in res or (strict, h2) not in res:
                    continue
                tick()
                z = wm.rfcfilter(res[strict, h1], h2, method=strict)
                close(z[1:], res[strict, h2][1:] if len(res[strict, h2]) == len(z) else res[strict, h2],
                      'filtering %g then %g' % (h1, h2), 0, 0)
    require(np.array_equal(x, keep), 'input modified')
    return tuple(out)


def f_methods(case):
    """findrfc with the filter back ends (method 0/1) selects the filter's turning points."""
    y = np.array(case, dtype=float)
    start = int(case[0] > case[1])
    z = case[start:]
    out = []
    if len(z) < 3:
        return None
    for h in thresholds(case):
        for strict in (0, 1):
            tick()
            got = wm.findrfc(y, h, strict)
            want = [i + start for i in ref_filter(z, h, bool(strict))]
            out.append(same_ints(got, want, 'findrfc h=%g method=%d' % (h, strict)))
    return tuple(out)


def f_obj(case):
    word, h2, a = case
    h = h2 / 2.0
    t = 2.0 + 0.5 * np.arange(len(word))
    x = a * np.array(word, dtype=float)
    out = []
    for m in ('clib', 'numba'):
        tp = wo.TurningPoints(x, t, mean=0.5, sigma=2.0)
        tick()
        f = tp.rainflow_filter(h * a, method=m) if h2 else tp.rainflow_filter(method=m)
        want = R.rainflow_indices(word, max(h, 0))
        if not want:
            require(np.size(f.data) == 0, 'no cycle reaches the threshold')
        else:
            close(np.ravel(f.data), x[want], 'filtered turning points', 0, 0)
            close(np.ravel(f.args), t[want], 'filtered times', 0, 1e-12)
        require(f.mean == 0.5 and f.sigma == 2.0, 'mean/sigma not carried over')
        require(np.array_equal(tp.data, x) and np.array_equal(tp.args, t), 'turning points object modified')
        out.append(tuple(want))
    return tuple(out)


def f_degenerate(case):
    """too short, or recognisably not turning points: no cycles"""
    y = np.array(case, dtype=float)
    z = case[1:] if len(case) > 1 and case[0] > case[1] else case
    none = len(z) < 2 or (len(z) > 2 and (z[0] > z[1] > z[2] or z[0] < z[1] < z[2]))
    if not none:
        return None
    for m in ('clib', 'numba'):
        for h in (0.0, 1.0):
            tick()
            got = wm.findrfc(y, h, m)
            require(np.size(got) == 0, 'cycles %s of %s' % (got, case))
    return tuple(case)


def f_forms(case):
    word, form = case
    y = FORMS[form](word)
    out = []
    for h in (0.0, 1.0, 2.0):
        tick(2)
        out.append(same_ints(wm.findrfc(y, h), R.rainflow_indices(word, h), 'form %s h=%g' % (form, h)))
        out.append(same_ints(wm.findrfc(y, h, 'numba'), R.rainflow_indices(word, h), 'form %s h=%g numba' % (form, h)))
        tick()
        close(wm.rfcfilter(y, h), np.array(word, dtype=float)[ref_filter(word, h, False)], 'rfcfilter %s' % form, 0, 0)
    return tuple(out)


FORMS = {'list': list, 'int': lambda w: np.array(w, dtype=int), 'float32': lambda w: np.array(w, dtype='f4'),
         'column': lambda w: np.array(w, dtype=float)[:, None],
         'strided': lambda w: np.repeat(np.array(w, dtype=float), 3)[::3],
         'reversed': lambda w: np.array(w[::-1], dtype=float)[::-1]}


def f_affine(case):
    word, (a, b) = case
    y = a * np.array(word, dtype=float) + b
    out = []
    for h in (0.0, 0.5, 1.0, 1.5, 2.0, 3.0):
        want = R.rainflow_indices(word, h)
        for m in ('clib', 'numba'):
            tick()
            out.append(same_ints(wm.findrfc(y, a * h, m), want, 'scale %g offset %g h=%g %s' % (a, b, h, m)))
        if h == 0:
            same_ints(wm.findrfc(y), want, 'default threshold scale %g' % a)
        for strict in (0, 1):
            tick()
            if h or strict:
                close(wm.rfcfilter(y, a * h, strict), y[ref_filter(word, h, bool(strict))], 'rfcfilter scale %g' % a, 0, 0)
    return tuple(out)


LONG = {'db3_6': (3, 6), 'db4_5': (4, 5), 'db5_4': (5, 4), 'db6_4': (6, 4), 'db9_3': (9, 3)}


def long_tp(name, n):
    k, m = LONG[name]
    w = np.resize(np.array(de_bruijn(k, m)), n).tolist()
    ind = R.extrema(w)
    y = [w[i] for i in ind]
    while len(y) > 1 and y[0] == y[1]:
        y.pop(0)
    return y


def f_long(case):
    name, n, trend = case
    y = long_tp(name, n)
    if trend:      # nested cycles: growing / shrinking amplitude
        if trend == 'grow':
            y = [v * (1 + i) for i, v in enumerate(y)]
        else:
            y = [v * (len(y) - i) for i, v in enumerate(y)]
        ind = R.extrema(y)
        y = [y[i] for i in ind]
        if len(y) > 1 and y[0] == y[1]:
            y.pop(0)
    if len(y) < 3:
        return None
    x = np.array(y, dtype=float)
    out = []
    top = max(y) - min(y)
    for h in (0.0, 1.0, 2.0, top / 4.0, top / 2.0, top):
        want = R.rainflow_indices(y, h)
        for m in ('clib', 'numba'):
            tick()
            same_ints(wm.findrfc(x, h, m), want, '%s h=%g %s' % (name, h, m))
        tick(2)
        for strict in (0, 1):
            close(wm.rfcfilter(x, h, strict), x[ref_filter(y, h, bool(strict))], 'rfcfilter h=%g' % h, 0, 0)
        out.append(len(want))
    return tuple(out)


def groups(tier):
    big = tier == 'thorough'
    na, nb = (11, 9) if big else (9, 8)
    alt = [w for n in range(2, na + 1) for w in R.alternating([0, 1, 2], n)]
    alt += [w for n in range(4, nb + 1) for w in R.alternating([0, 1, 2, 3], n)]
    alt += [w for n in (5, 6, 7) for w in R.alternating([0, 1, 2, 3, 4], n)]
    return [
        Group('rainflow-cycles', alt, f_rfc,
              note='every turning point sequence over 3/4/5 levels to length %d/%d/7, every threshold' % (na, nb)),
        Group('filter', list(words([0, 1, 2], 2, 8 if big else 7)) + list(words([0, 1, 2, 3], 2, 7 if big else 6)),
              f_filter),
        Group('filter-indices', alt, f_methods),
        Group('objects', [(w, h, a) for n in range(3, 8) for w in R.alternating([0, 1, 2, 3], n)
                          for h in (-1, 0, 2, 3, 4) for a in ((1.0, 2.0 ** -20) if n < 7 else (1.0,))], f_obj),
        Group('degenerate', list(words([0, 1, 2], 0, 5)), f_degenerate),
        Group('forms', [(w, f) for n in range(3, 8) for w in R.alternating([0, 1, 2, 3], n) for f in FORMS], f_forms),
        Group('affine', [(w, ab) for n in range(3, 8) for w in R.alternating([0, 1, 2, 3], n)
                         for ab in [(0.25, 0.), (2.0 ** -30, 0.), (2.0 ** 20, 0.), (1., -64.), (1., 4096.)]], f_affine),
        Group('long', [(k, n, t) for k in LONG for n in (20, 100, 255, 256, 257, 400, 513, 800)
                       for t in ('', 'grow', 'shrink')], f_long),
    ]
