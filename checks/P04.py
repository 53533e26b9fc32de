"""P04 ASTM rainflow counting agrees with the standard's reversal-stack procedure and conserves ranges."""
import numpy as np
from vk import Group, Fail, tick
from ref import words, de_bruijn, close, require
import sigref as R
import wafo.misc as wm
import wafo.objects as wo
from wafo import _misc_numba as mn
try:
    from wafo import c_library as clib
except Exception:
    clib = None

PROPERTY = 'P04'
ASSUMPTIONS = ['turning point sequences contain no NaN and alternate strictly']


def table(word, t):
    return np.array([(r / 2.0, m, c, t0, p) for r, m, c, t0, p in R.astm(list(zip(word, t)))]).reshape(-1, 5)


def f_astm(case):
    x = np.array(case, dtype=float)
    t = (10.0 + np.cumsum(np.arange(1, len(case) + 1))).tolist()
    want = table(case, t)
    tick()
    got = wm.findrfc_astm(x)
    close(got, want[:, :3], 'cycle table', 1e-12, 1e-12)
    tick()
    got5 = mn.findrfc_astm(x, np.array(t))
    close(got5, want, 'cycle table with times', 1e-12, 1e-12)
    # conservation: every reversal-to-reversal swing is counted once (half cycle = 1 swing, full cycle = 2)
    require(abs(np.sum(got[:, 2]) * 2 - (len(case) - 1)) < 1e-9, 'number of counted half cycles')
    require(len(case) < 2 or abs(got[:, 0].max() * 2 - (max(case) - min(case))) < 1e-9,
            'the largest range of the history is not counted')
    require(np.all(got[:, 0] > 0), 'zero cycle')
    if clib is not None:
        tick(2)
        s3, cnr = clib.findrfc3_astm(x)
        close(s3[:len(s3) - int(np.ravel(cnr)[0])], want[:, :3], 'C cycle table', 1e-12, 1e-12)
        s5, cnr = clib.findrfc5_astm(x, np.array(t))
        close(s5[:len(s5) - int(np.ravel(cnr)[0])], want, 'C cycle table with times', 1e-12, 1e-12)
    require(np.array_equal(x, np.array(case, dtype=float)), 'input modified')
    return tuple(map(tuple, np.round(want[:, :3], 6)))


def f_obj(case):
    x = np.array(case, dtype=float)
    tp = wo.TurningPoints(x, np.arange(len(case)) * 0.5)
    tick(2)
    a = tp.cycle_astm()
    close(a, table(case, range(len(case)))[:, :3], 'TurningPoints.cycle_astm', 1e-12, 1e-12)
    close(tp.cycle_astm(), a, 'counting twice', 0, 0)
    # from the sampled record, through the astm turning points
    return None


def f_series(case):
    """record -> turning points (astm) -> cycles"""
    ind = R.extrema(case)
    if len(ind) < 2:
        return None
    full = ([0] if ind[0] != 0 else []) + ind + [len(case) - 1]
    y = [case[i] for i in full]
    if any(a == b for a, b in zip(y, y[1:])):
        return None
    ts = wo.TimeSeries(np.array(case, dtype=float), np.arange(len(case)) * 0.25)
    tick(2)
    got = ts.turning_points(h=0, wavetype='astm').cycle_astm()
    want = table(y, full)[:, :3]
    close(got, want, 'cycles of the sampled record', 1e-12, 1e-12)
    return tuple(map(tuple, np.round(want, 6)))


def f_affine(case):
    word, (a, b) = case
    x = a * np.array(word, dtype=float) + b
    w = table(word, range(len(word)))[:, :3]
    tick()
    got = wm.findrfc_astm(x)
    want = np.column_stack([w[:, 0] * a, w[:, 1] * a + b, w[:, 2]])
    close(got, want, 'scale %g offset %g' % (a, b), 1e-12, 1e-12 * max(abs(a), abs(b)))
    return len(want)


FORMS = {'list': lambda w: [float(v) for v in w], 'int': lambda w: np.array(w), 'float32': lambda w: np.array(w, 'f4'),
         'column': lambda w: np.array(w, dtype=float)[:, None],
         'strided': lambda w: np.repeat(np.array(w, dtype=float), 2)[::2]}


def f_forms(case):
    word, form = case
    tick()
    got = wm.findrfc_astm(FORMS[form](word))
    close(got, table(word, range(len(word)))[:, :3], form, 1e-12, 1e-12)
    return len(got)


def f_long(case):
    k, m, n, rev = case
    w = np.resize(np.array(de_bruijn(k, m)), n).tolist()
    w = [w[i] for i in R.extrema(w)]
    if len(w) > 1 and w[0] == w[1]:
        w = w[1:]
    if rev == 'grow':
        w = [v * (i + 1) * (1 if i % 2 else -1) for i, v in enumerate([1] * len(w))]
    elif rev == 'shrink':
        w = [(len(w) - i) * (1 if i % 2 else -1) for i in range(len(w))]
    return f_astm(w) and len(w)


def groups(tier):
    big = tier == 'thorough'
    na, nb = (11, 9) if big else (9, 8)
    alt = [w for n in range(2, na + 1) for w in R.alternating([0, 1, 2], n)]
    alt += [w for n in range(2, nb + 1) for w in R.alternating([-1, 0, 1, 2], n)]
    alt += [w for n in (5, 6, 7) for w in R.alternating([0, 1, 2, 4, 7], n)]
    small = [w for n in range(2, 8) for w in R.alternating([0, 1, 2, 3], n)]
    return [
        Group('cycle-table', alt, f_astm),
        Group('objects', small, f_obj),
        Group('record-to-cycles', list(words([0, 1, 2, 3], 3, 7 if big else 6)), f_series),
        Group('affine', [(w, ab) for w in small for ab in
                         [(0.25, 0.), (2.0 ** -30, 0.), (2.0 ** 20, 0.), (1., -64.), (1., 4096.)]], f_affine),
        Group('forms', [(w, f) for w in small for f in FORMS], f_forms),
        Group('long', [(k, m, n, r) for k, m in ((3, 6), (4, 5), (6, 4), (9, 3)) for n in (40, 255, 257, 512, 1025)
                       for r in ('', 'grow', 'shrink')], f_long),
    ]
