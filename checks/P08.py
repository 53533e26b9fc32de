"""P08 Conditional evaluation, bit, index and geometry helpers act element by element as documented."""
import itertools
import math
import numpy as np
from vk import Group, Fail, tick
from ref import close, require, rnd, words, same_ints
import wafo.misc as wm
import wafo.bitwise as wb

PROPERTY = 'P08'
ASSUMPTIONS = ['float valued arrays', 'conditional-selection conditions are boolean arrays']

SH = [(), (1,), (3,), (2, 2), (1, 3)]




def f_piece(case):
    shape, word, k, mode = case
    # word[e] in range(2**k): set of conditions that hold for element e
    x = (np.arange(len(word)) * 0.5 + 1.0).reshape(shape)
    w = np.array(word).reshape(shape)
    cl = [(w >> b) & 1 == 1 for b in range(k)]
    cl = [np.asarray(c) for c in cl]
    funs = [lambda v, b=b: 10.0 * (b + 1) + v for b in range(k)]
    consts = [10.0 * (b + 1) for b in range(k)]
    keep = x.copy()
    want = np.empty(len(word))
    other = mode in ('otherwise', 'otherwise-const')
    for e, bits in enumerate(word):
        val = -1.0 if not other else (99.0 if mode == 'otherwise-const' else x.ravel()[e] * 2.0)
        for b in range(k):
            if bits >> b & 1:
                val = consts[b] if 'const' in mode else 10.0 * (b + 1) + x.ravel()[e]
        want[e] = val
    want = want.reshape(shape)
    fl = list(consts if 'const' in mode else funs)
    if other:
        fl.append(99.0 if mode == 'otherwise-const' else (lambda v: 2.0 * v))
    tick()
    if 'const' in mode:
        got = wm.piecewise(cl, fl, fillvalue=-1.0)
    else:
        got = wm.piecewise(cl, fl, xi=x, fillvalue=-1.0)
    close(got, want, 'piecewise', 0, 0)
    require(np.array_equal(x, keep), 'input modified')
    return tuple(want.ravel().tolist())


def f_piece2(case):
    """two broadcast arguments and extra parameters"""
    (na, nb), word = case
    a = np.arange(na) + 1.0
    b = (np.arange(nb) + 1.0)[:, None] * 10
    A, B = np.broadcast_arrays(a, b)
    w = np.resize(np.array(word), A.shape)
    tick()
    got = wm.piecewise([w == 1, w == 2], [lambda x, y, s: x + y + s, lambda x, y, s: x * y - s], xi=(a, b),
                       fillvalue=-7.0, args=(0.5,))
    want = np.where(w == 2, A * B - 0.5, np.where(w == 1, A + B + 0.5, -7.0))
    close(got, want, 'piecewise with two arguments', 0, 0)
    return tuple(want.ravel().tolist())


def f_lazy(case):
    shape, word = case
    x = (np.arange(len(word)) * 0.5 + 1.0).reshape(shape)
    c = np.array(word, dtype=bool).reshape(shape)
    a = np.array(3.0)
    out = []
    tick(2)
    got = wm.lazywhere(c, (x, a), lambda u, v: u + v, fillvalue=-2.0)
    close(got, np.where(c, x + 3.0, -2.0), 'lazywhere with a fill value', 0, 0)
    got = wm.lazywhere(c, (x, a), lambda u, v: u + v, f2=lambda u, v: u * v)
    close(got, np.where(c, x + 3.0, x * 3.0), 'lazywhere with two functions', 0, 0)
    # functions see only the elements they are responsible for
    seen = []
    wm.lazywhere(c, (x, a), lambda u, v: seen.extend(np.ravel(u).tolist()) or u, fillvalue=0.0)
    require(sorted(seen) == sorted(x[c].ravel().tolist()), 'the function saw other elements: %s' % seen)
    return tuple(np.ravel(got).tolist())


def f_select(case):
    shape, word, k = case
    x = (np.arange(len(word)) * 0.5 + 1.0).reshape(shape)
    w = np.array(word).reshape(shape)
    cl = [np.asarray((w >> b) & 1 == 1) for b in range(k)]
    tick()
    got = wm.lazyselect(cl, [lambda v, b=b: 10.0 * (b + 1) + v for b in range(k)], (x,), default=-3.0)
    want = np.select(cl, [10.0 * (b + 1) + x for b in range(k)], default=-3.0)
    close(got, want, 'lazyselect', 0, 0)
    return tuple(np.ravel(want).tolist())


def f_reduce(case):
    shape, word = case
    c = np.array(word, dtype=bool).reshape(shape)
    x = (np.arange(len(word)) * 0.5 - 1.0).reshape(shape)
    row = np.arange(shape[-1]) * 1.0
    tick()
    got = wm.argsreduce(c, x, 2.0, row)
    want = [x[c], np.full(int(c.sum()), 2.0), np.broadcast_to(row, shape)[c]]
    require(len(got) == 3, 'number of outputs')
    for g, v in zip(got, want):
        close(g, v, 'argsreduce', 0, 0)
    tick()
    close(wm.argsreduce(c, x)[0], x[c], 'one argument', 0, 0)
    return tuple(map(tuple, (v.tolist() for v in want)))


def f_bits(case):
    i, = case
    tick(4)
    bits = [(i >> b) & 1 for b in range(10)]
    same_ints(wb.getbits(i, 10), bits, 'bits of %d' % i)
    same_ints(wb.getbit(i, np.arange(10)), bits, 'bit by bit')
    require(wb.setbits(bits) == i, 'setbits(getbits(i)) == i')
    for b in range(10):
        require(int(wb.getbit(i, b)) == bits[b], 'getbit')
        require(int(wb.setbit(i, b)) == i | (1 << b), 'setbit')
        require(int(wb.setbit(i, b, 1)) == i | (1 << b), 'setbit 1')
        require(int(wb.setbit(i, b, 0)) == i & ~(1 << b), 'clear bit %d of %d' % (b, i))
        tick(4)
    same_ints(wb.setbit(i, np.arange(10), np.array([0, 1] * 5)),
              [i & ~(1 << b) if b % 2 == 0 else i | (1 << b) for b in range(10)], 'vector setbit')
    return i


def f_bits2(case):
    i, j = case
    a = np.array([i, j])
    tick(2)
    for b in range(5):
        same_ints(wb.getbit(a, b), [(i >> b) & 1, (j >> b) & 1], 'array getbit')
        same_ints(wb.setbit(a, b, np.array([0, 1])), [i & ~(1 << b), j | (1 << b)], 'array setbit')
    same_ints(a, [i, j], 'input modified')
    return i, j


def f_index(case):
    shape, order = case
    n = int(np.prod(shape))
    idx = np.arange(n)
    tick(2)
    sub = wm.index2sub(shape, idx, order=order)
    st = [0] * len(shape)
    acc = 1
    for d in (range(len(shape)) if order == 'F' else range(len(shape) - 1, -1, -1)):
        st[d] = acc
        acc *= shape[d]
    for d in range(len(shape)):
        same_ints(sub[d], [(k // st[d]) % shape[d] for k in range(n)], 'subscript %d' % d)
    same_ints(wm.sub2index(shape, *sub, order=order), idx, 'index')
    return shape, order


def f_rot(case):
    h, p, r = case
    tick()
    R = wm.rotation_matrix(h, p, r)
    a, b, c = np.radians(h), np.radians(p), np.radians(r)
    Rz = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
    Ry = np.array([[np.cos(b), 0, np.sin(b)], [0, 1, 0], [-np.sin(b), 0, np.cos(b)]])
    Rx = np.array([[1, 0, 0], [0, np.cos(c), -np.sin(c)], [0, np.sin(c), np.cos(c)]])
    close(R, Rz.dot(Ry).dot(Rx), 'rotation matrix', 1e-12, 1e-12)
    v = np.array([1.0, -2.0, 0.5])
    tick(2)
    close(np.array(wm.rotate(v[0], v[1], v[2], h, p, r)), Rz.dot(Ry).dot(Rx).dot(v), 'rotate', 1e-12, 1e-12)
    x, y = wm.rotate_2d(1.0, -2.0, h)
    close(np.array([x, y]), Rz[:2, :2].dot(v[:2]), 'rotate_2d', 1e-12, 1e-12)
    return tuple(rnd(R.ravel()))


def f_geo(case):
    x, y = case
    tick(3)
    t, r = wm.cart2polar(x, y)
    close([r * math.cos(t), r * math.sin(t)], [x, y], 'cart2polar', 1e-12, 1e-12)
    require(r >= 0 and -math.pi <= t <= math.pi, 'polar range')
    close(np.array(wm.polar2cart(t, r)), np.array([x, y], dtype=float), 'polar2cart', 1e-12, 1e-12)
    t3 = wm.cart2polar(x, y, 7.0)
    require(t3[2] == 7.0 and len(wm.polar2cart(t, r, 5.0)) == 3, 'z')
    for num in (1, 2, 5):
        tick()
        L = wm.spaceline((x, y, 0), (y, 1, x), num)
        a, b = np.array([x, y, 0.0]), np.array([y, 1.0, x])
        w = [a + (b - a) * k / (num - 1.0) for k in range(num)] if num > 1 else [(a + b) / 2]
        close(L, np.array(w), 'spaceline', 1e-12, 1e-12)
    return rnd([t, r])[0], rnd([t, r])[1]


def f_num(case):
    n = case
    tick(3)
    if n > 0:
        k = int(wm.nextpow2(n))
        require(2.0 ** k >= n and (2.0 ** (k - 1) < n), 'nextpow2(%r) = %r' % (n, k))
    m = n
    if 1 <= n <= 700:
        m = n
        w = math.lgamma(m + 1) - (m + 0.5) * math.log(m) + m - 0.5 * math.log(2 * math.pi)
        close(float(wm.stirlerr(float(m))[0]), w, 'stirlerr(%d)' % m, 1e-7, 3e-12 * max(m, 1))
    if n <= 60:
        for w in range(0, n + 1):
            tick()
            close(float(wm.binomln(n, w)), math.log(math.comb(n, w)), 'binomln(%d,%d)' % (n, w), 1e-10, 1e-10)
            tick()
            close(float(wm.betaloge(np.float64(n + 1), np.float64(w + 1))),
                  math.lgamma(n + 1) + math.lgamma(w + 1) - math.lgamma(n + w + 2), 'betaloge', 1e-10, 1e-10)
    return n


BIG = float(np.finfo(float).max)


def f_betalog(case):
    z, w = case
    tick(2)
    a, b = min(z, w), max(z, w)
    if a == 0:
        want = np.inf
    elif b >= BIG:
        want = -np.inf
    else:
        import scipy.special as sps
        want = float(sps.betaln(a, b))
    got = wm.betaloge(np.array([z, 3.0, w]), np.array([w, 2.0, z]))
    require(got.shape == (3,), 'shape')
    for k in (0, 2):
        if np.isinf(want):
            require(got[k] == want, 'betaloge(%g, %g) = %r want %r' % (z, w, got[k], want))
        else:
            close(got[k], want, 'betaloge(%g, %g)' % (z, w), 1e-8, 1e-9)
    close(got[1], -math.log(12), 'betaloge(3, 2)', 1e-12, 0)
    return float(want)


def f_pow2(case):
    kind, n = case
    tick()
    k = int(wm.nextpow2(-n if kind == 'neg' else [0] * n if kind == 'list' else np.zeros(n) if kind == 'array' else n))
    require(2.0 ** k >= n > 2.0 ** (k - 1), 'nextpow2 of %s %r = %r' % (kind, n, k))
    return k


DF = {'lin': lambda x: 2 * x + 1.0, 'sq': lambda x: x ** 2 + 0.1, 'exp': lambda x: np.exp(-x), 'sin': lambda x: 2 + np.sin(3 * x),
      'big': lambda x: 300 * (1.2 + np.sin(3 * x)), 'small': lambda x: 0.1 * np.sin(2 * x), 'neg': lambda x: -2 - np.sin(3 * x),
      'abs': lambda x: 1 + np.abs(x - 0.3), 'step': lambda x: 1.0 + (x > 0.4)}


def f_disc(case):
    name, a, b, tol, n, method = case
    f = DF[name]
    tick()
    x, y = wm.discretize(f, a, b, tol=tol, n=n, method=method)
    close(y, f(x), 'values', 0, 0)
    require(x[0] == a and x[-1] == b, 'end points')
    require(np.all(np.diff(x) >= 0), 'increasing')
    if method == 'linear':
        require(np.allclose(np.diff(x), (b - a) / (len(x) - 1.0), rtol=1e-9, atol=1e-12), 'equidistant')
    if name == 'lin':
        require(len(x) <= 4 * (n + 1) + 1, '%d points for a straight line, started with %d' % (len(x), n))
    if name in ('sq', 'exp', 'sin', 'lin', 'big', 'small', 'neg'):
        # smooth: piecewise linear interpolation is accurate to the tolerance
        z = np.linspace(a, b, 1001)
        e = 0.5 * np.abs(np.interp(z, x, y) - f(z)) / (2 * np.abs(f(z)) + tol)
        require(e.max() <= 1.5 * tol, 'interpolation error %g > tol %g' % (e.max(), tol))
    return len(x)


def f_misc(case):
    word = case
    n = 3
    tick(2)
    got = np.asarray(wm.narg_smallest(word, n))
    require(len(set(got.tolist())) == min(n, len(word)), 'distinct')
    require(sorted(word[i] for i in got) == sorted(word)[:n], 'n smallest')
    require([word[i] for i in got] == sorted(word)[:n], 'ordered')
    for needle in (0, 1, 2):
        require(list(wm.lfind(word, needle)) == [i for i, a in enumerate(word) if a == needle], 'lfind')
        require(list(wm.lfind(word, needle, 1)) == [i for i, a in enumerate(word) if a == needle][:1], 'lfind max')
    d = dict((k, v) for k, v in zip('abcde', word))
    sel = wm.sub_dict_select(d, ['b', 'z', 'a'])
    require(sel == dict((k, d[k]) for k in ('a', 'b') if k in d), 'sub_dict_select')
    o = wm.parse_kwargs({'a': -1, 'q': 5}, **d)
    require(o == {'a': d.get('a', -1), 'q': 5}, 'parse_kwargs')
    return tuple(word)


def f_shape(case):
    s1, s2 = case
    a, b = np.ones(s1), np.ones(s2)
    tick(3)
    want = np.broadcast(a, b).shape
    require(wm.common_shape(a, b) == want, 'common_shape')
    require(wm.common_shape(a, b, shape=(4, 1, 1)) == np.broadcast(np.ones((4, 1, 1)), a, b).shape, 'with shape')
    g = wm.ndgrid(np.arange(3.), np.arange(2.))
    require(g[0].shape == (3, 2) and np.array_equal(g[0][:, 1], [0, 1, 2]) and np.array_equal(g[1][1], [0, 1]), 'ndgrid')
    pos, sh = wm.args_flat(a, b * 2, 3.0)
    require(sh == want and pos.shape == (int(np.prod(want)), 3), 'args_flat')
    close(pos, np.tile([1., 2., 3.], (pos.shape[0], 1)), 'args_flat', 0, 0)
    return want


def groups(tier):
    big = tier == 'thorough'
    pc = []
    for s in SH:
        n = int(np.prod(s)) if s else 1
        for k in (1, 2, 3):
            if not big and n == 4 and k == 3:
                continue
            for w in itertools.product(range(2 ** k), repeat=n):
                for mode in ('fun', 'otherwise', 'const', 'otherwise-const'):
                    pc.append((s, list(w), k, mode))
    sel = [(s, list(w), k) for s in SH[1:] for k in (1, 2, 3) if (k < 3 or np.prod(s) < 4)
           for w in itertools.product(range(2 ** k), repeat=int(np.prod(s)))]
    lz = [(s, list(w)) for s in SH[1:] + [(2, 3)] for w in itertools.product((0, 1), repeat=int(np.prod(s)))]
    bs = [(1,), (3,), (2, 1), (2, 3), (1, 3), (4, 1, 1)]
    ok = []
    for p in bs:
        for q in bs:
            try:
                np.broadcast(np.ones(p), np.ones(q))
                ok.append((p, q))
            except ValueError:
                pass
    return [
        Group('piecewise', pc, f_piece, note='every assignment of conditions to elements, shapes up to 2x2'),
        Group('piecewise-2', [((na, nb), w) for na in (1, 2, 3) for nb in (1, 2) for w in words([0, 1, 2, 3], 1, 4)],
              f_piece2),
        Group('lazywhere', lz, f_lazy),
        Group('lazyselect', sel, f_select),
        Group('argsreduce', [c for c in lz], f_reduce),
        Group('bits', [(i,) for i in range(1024)], f_bits),
        Group('bit-arrays', [(i, j) for i in range(32) for j in range(32)], f_bits2),
        Group('indices', [(s, o) for d in (1, 2, 3) for s in itertools.product((1, 2, 3, 4), repeat=d) for o in 'CF'],
              f_index),
        Group('rotations', [(h, p, r) for h in range(-180, 361, 45) for p in range(-90, 181, 45)
                            for r in range(-90, 181, 45)] + [(10, 20, 30), (0, 0, 33), (0, 7, 0)], f_rot),
        Group('coordinates', [(x / 2.0, y / 2.0) for x in range(-6, 7) for y in range(-6, 7)], f_geo),
        Group('log-combinatorics', list(range(1, 700)) + [1000, 1023, 1024, 1025, 65536, 65537], f_num),
        Group('discretize', [(f, a, b, t, n, m) for f in DF for a, b in ((0., 1.), (-1., 2.)) for t in (0.02, 0.005)
                             for n in (3, 4, 5, 9) for m in ('linear', 'adaptive')
                             if not (m == 'linear' and f == 'step')], f_disc),
        Group('log-beta', [(z, w) for z in (0., 0.5, 1., 9.5, 10., 11., 50., 1e3, 1e6, BIG, np.inf)
                           for w in (0., 0.5, 1., 9.5, 10., 11., 50., 1e3, 1e6, BIG, np.inf)], f_betalog, note='small, large, zero and infinite arguments, alone and mixed in one array'),
        Group('next-power', [(k, n) for k in ('neg', 'list', 'array') for n in range(2, 130)], f_pow2),
        Group('small-helpers', list(words([0, 1, 2], 1, 5)), f_misc),
        Group('shapes', ok, f_shape),
    ]
