"""P01 Level crossings: the reported crossings are exactly the level crossings of the record."""
import numpy as np
from vk import Group, Fail, tick
from ref import words, de_bruijn, same_ints, close, require
import sigref as R
import wafo.misc as wm

PROPERTY = 'P01'
KINDS = [None, 'd', 'u', 'dw', 'uw', 'tw', 'cw', 'du', 'all']
METHODS = ['clib', 'numba']
ASSUMPTIONS = ['records contain no NaN', 'at least one sample',
               'level and samples small integers / exactly representable affine images of them']


def check_record(x, v, signs, what, kinds=KINDS, methods=METHODS):
    cr = R.crossings(signs)
    out = []
    for kind in kinds:
        want = [i for i, _ in R.select(cr, kind)]
        for m in methods:
            tick()
            got = wm.findcross(x, v, kind, m)
            same_ints(got, want, '%s kind=%r method=%r' % (what, kind, m))
        out.append(tuple(want))
    return tuple(out)


def f_words(case):
    x = np.array(case, dtype=float)
    return check_record(x, 0.0, case, 'zero-level crossings of %s' % case)


def f_levels(case):
    word, lev2 = case     # level = lev2/2
    x = np.array(word, dtype=float)
    s = [R.sgn(2 * a - lev2) for a in word]
    return check_record(x, lev2 / 2.0, s, 'crossings of level %g' % (lev2 / 2.0), kinds=[None, 'd', 'u', 'dw', 'tw'])


FORMS = {
    'list': lambda w: list(w),
    'tuple': lambda w: tuple(w),
    'int64': lambda w: np.array(w, dtype=np.int64),
    'int16': lambda w: np.array(w, dtype=np.int16),
    'float32': lambda w: np.array(w, dtype=np.float32),
    'column': lambda w: np.array(w, dtype=float)[:, None],
    'row': lambda w: np.array(w, dtype=float)[None, :],
    'strided': lambda w: np.repeat(np.array(w, dtype=float), 2)[::2],
    'reversed_view': lambda w: np.array(w[::-1], dtype=float)[::-1],
    'readonly': lambda w: _ro(w),
}
AFFINE = [(1.0, 0.0), (0.25, 0.0), (1e-9, 0.0), (300.0, 0.0), (2.0 ** 20, 2.0 ** 21), (0.5, -1024.0), (1e-300, 0.0),
          (1.0, 7.5)]


def _ro(w):
    a = np.array(w, dtype=float)
    a.setflags(write=False)
    return a


def f_forms(case):
    word, form = case
    x = FORMS[form](word)
    before = np.array(x, copy=True)
    o = check_record(x, 0.0, word, 'input form %s' % form, kinds=[None, 'u', 'd', 'cw'])
    if R.crossings(word):
        for kind in ('ud', 'x', 'wd', 'D', ''):
            try:
                wm.findcross(x, 0.0, kind)
            except ValueError:
                continue
            raise Fail('unknown definition %r was accepted' % kind)
    require(np.array_equal(before, np.asarray(x)), 'the input record was modified')
    return o


def f_affine(case):
    word, (a, b) = case
    x = a * np.array(word, dtype=float) + b
    return check_record(x, b, word, 'scale %g offset %g' % (a, b), kinds=[None, 'u', 'd', 'dw'])


def f_long(case):
    name, n, rep = case
    base = np.array(LONG[name])
    w = np.resize(base, n)
    if rep:
        w = np.repeat(w, rep)
    x = w.astype(float)
    o = check_record(x, 0.0, w.tolist(), 'long record %s n=%d' % (name, len(w)))
    return hash(o)


LONG = {'db3_6': [a - 1 for a in de_bruijn(3, 6)],
        'db2_10': [2 * a - 1 for a in de_bruijn(2, 10)],
        'db3_8': [a - 1 for a in de_bruijn(3, 8)],
        'zeros': [0], 'pos': [1], 'alt': [1, -1], 'saw': [1, 0, -1, 0]}


def f_ecross(case):
    word, lev2 = case
    x = np.array(word, dtype=float)
    v = lev2 / 2.0
    s = [R.sgn(2 * a - lev2) for a in word]
    cr = R.crossings(s)
    ind = np.array([i for i, _ in cr], dtype=int)
    out = []
    for t in (np.arange(len(word), dtype=float), 10 + np.cumsum(np.arange(1, len(word) + 1)) * 0.5):
        want = []
        for i in ind:
            f0, f1 = word[i], word[i + 1]
            frac = (v - f0) / (f1 - f0)
            want.append(t[i] + frac * (t[i + 1] - t[i]))
        tick()
        got = wm.ecross(t, x, ind, v)
        close(np.asarray(got, dtype=float), np.array(want, dtype=float).reshape(ind.shape), 'exact crossing times',
              1e-12, 1e-12)
        for k, i in enumerate(ind):
            require(t[i] - 1e-9 <= got[k] <= t[i + 1] + 1e-9, 'crossing time outside its sampling interval')
        # vector of levels, one per crossing
        tick()
        close(wm.ecross(t, x, ind, np.full(ind.shape, v)), np.array(want, dtype=float).reshape(ind.shape), 'vector v',
              1e-12, 1e-12)
        out.append(tuple(np.round(want, 6)))
    return tuple(out)


def groups(tier):
    big = tier == 'thorough'
    n3 = 12 if big else 9
    n5 = 8 if big else 6
    return [
        Group('all-sign-words', words([-1, 0, 1], 1, n3), f_words,
              note='every record over {-1,0,1} up to length %d, every kind, both back ends' % n3),
        Group('levels', [(w, l) for w in words([-2, -1, 0, 1, 2], 2, n5 - 1) for l in range(-5, 6)], f_levels,
              note='every record over 5 values, every level on and between the values'),
        Group('input-forms', [(w, f) for w in words([-1, 0, 1], 1, 6) for f in FORMS], f_forms),
        Group('affine', [(w, ab) for w in words([-1, 0, 1], 1, 6) for ab in AFFINE], f_affine),
        Group('long', [(k, n, r) for k in LONG for n in
                       (1, 2, 3, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095,
                        4096, 4097, 6561, 20000, 65537) for r in (0, 3) if n * max(r, 1) < 140000], f_long,
              note='records that contain every window of length 6/8/10, around buffer sizes'),
        Group('exact-crossings', [(w, l) for w in words([-2, -1, 0, 1, 2], 2, 5) for l in range(-3, 4)], f_ecross),
    ]
