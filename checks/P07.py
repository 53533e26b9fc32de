"""P07 Cosine/sine transforms equal their defining sums along any axes, and the inverses undo them."""
import itertools
import numpy as np
from vk import Group, Fail, tick
from ref import close, require, rnd
import wafo.dctpack as dp

PROPERTY = 'P07'
ASSUMPTIONS = ['sizes up to 6 per axis, up to 3 axes (transforms are linear; data are fixed arrays of distinct values)']


def mat(kind, typ, N, norm):
    """matrix of the transform, from the definition"""
    k, n = np.arange(N)[:, None], np.arange(N)[None, :]
    if kind == 'dct':
        if typ == 1:
            A = 2 * np.cos(np.pi * k * n / (N - 1))
            A[:, 0] /= 2
            A[:, -1] /= 2
            if norm == 'ortho':
                e = np.ones(N)
                e[0] = e[-1] = np.sqrt(0.5)
                A = np.sqrt(2.0 / (N - 1)) * e[:, None] * e * np.cos(np.pi * k * n / (N - 1))
        elif typ == 2:
            A = 2 * np.cos(np.pi * k * (2 * n + 1) / (2.0 * N))
            if norm == 'ortho':
                f = np.full(N, np.sqrt(1 / (2.0 * N)))
                f[0] = np.sqrt(1 / (4.0 * N))
                A = f[:, None] * A
        else:
            A = 2 * np.cos(np.pi * (k + 0.5) * n / N)
            A[:, 0] = 1
            if norm == 'ortho':
                A = mat('dct', 2, N, 'ortho').T
    else:
        if typ == 1:
            A = 2 * np.sin(np.pi * (k + 1) * (n + 1) / (N + 1.0))
            if norm == 'ortho':
                A = A * np.sqrt(1 / (2.0 * (N + 1)))
        elif typ == 2:
            A = 2 * np.sin(np.pi * (k + 1) * (2 * n + 1) / (2.0 * N))
            if norm == 'ortho':
                f = np.full(N, np.sqrt(1 / (2.0 * N)))
                f[0] = np.sqrt(1 / (4.0 * N))     # (scipy's documented scaling)
                A = f[:, None] * A
        else:
            A = 2 * np.sin(np.pi * (2 * k + 1) * (n + 1) / (2.0 * N))
            A[:, -1] = (-1.0) ** np.arange(N)
            if norm == 'ortho':
                A = np.linalg.inv(mat('dst', 2, N, 'ortho'))
    return A


def inv(kind, typ, N, norm):
    # the inverse transform of type 1/2/3 is the transform of type 1/3/2
    return mat(kind, {1: 1, 2: 3, 3: 2}[typ], N, norm)


def data(shape):
    n = int(np.prod(shape))
    return (((np.arange(n) * 7 + 3) % 11) - 4.0 + 0.125 * np.arange(n)).reshape(shape)


def apply_axis(A, x, ax):
    return np.moveaxis(np.tensordot(A, x, axes=([1], [ax])), 0, ax)


def fit(x, n, ax):
    m = x.shape[ax]
    if n <= m:
        return np.take(x, range(n), axis=ax)
    pad = [(0, 0)] * x.ndim
    pad[ax] = (0, n - m)
    return np.pad(x, pad)


F1 = {'dct': (dp.dct, dp.idct), 'dst': (dp.dst, dp.idst)}
FN = {'dct': (dp.dctn, dp.idctn), 'dst': (dp.dstn, dp.idstn)}


def f_one(case):
    kind, typ, norm, shape, axis, n = case
    x = data(shape)
    keep = x.copy()
    N = x.shape[axis] if n is None else n
    if kind == 'dct' and typ == 1 and N < 2:
        return None
    f, g = F1[kind]
    kw = dict(type=typ, n=n, axis=axis, norm=norm)
    tick(2)
    y = f(x, **kw)
    xx = fit(x, N, axis)
    close(y, apply_axis(mat(kind, typ, N, norm), xx, axis), '%s type %d' % (kind, typ), 1e-10, 1e-9)
    z = g(x, **kw)
    close(z, apply_axis(inv(kind, typ, N, norm), xx, axis), 'inverse %s type %d' % (kind, typ), 1e-10, 1e-9)
    if norm == 'ortho':
        tick(2)
        close(g(f(xx, typ, None, axis, norm), typ, None, axis, norm), xx, 'round trip', 1e-10, 1e-9)
        if kind == 'dct' or typ == 1:
            close(np.sum(f(xx, typ, None, axis, norm) ** 2), np.sum(xx ** 2), 'energy', 1e-10, 1e-9)
    require(np.array_equal(x, keep), 'input modified')
    return tuple(rnd(np.ravel(y)))


def f_defaults(case):
    kind, n = case
    x = data((n,))
    tick(4)
    close(F1[kind][0](x), mat(kind, 2, n, 'ortho').dot(x), 'default is the orthonormal type 2', 1e-10, 1e-9)
    close(F1[kind][1](x), mat(kind, 3, n, 'ortho').dot(x), 'default inverse', 1e-10, 1e-9)
    close(FN[kind][0](x), mat(kind, 2, n, 'ortho').dot(x), 'n-d default', 1e-10, 1e-9)
    close(FN[kind][1](FN[kind][0](x)), x, 'n-d default round trip', 1e-10, 1e-9)
    close(FN[kind][0](x.tolist()), mat(kind, 2, n, 'ortho').dot(x), 'list', 1e-10, 1e-9)
    close(FN[kind][0](np.arange(n)), mat(kind, 2, n, 'ortho').dot(np.arange(n)), 'integers', 1e-10, 1e-9)
    return tuple(rnd(F1[kind][0](x)))


def f_nd(case):
    kind, typ, norm, shape, axes, tshape = case
    x = data(shape)
    keep = x.copy()
    nd = len(shape)
    ax = list(range(nd)) if axes is None else [a % nd for a in axes]
    ns = [shape[a] for a in ax] if tshape is None else list(tshape)
    if kind == 'dct' and typ == 1 and min(ns) < 2:
        return None
    f, g = FN[kind]
    kw = dict(type=typ, shape=tshape, axes=axes, norm=norm)
    want, winv, xx = x, x, x
    for a, n in zip(ax, ns):
        xx = fit(xx, n, a)
    want = winv = xx
    for a, n in zip(ax, ns):
        want = apply_axis(mat(kind, typ, n, norm), want, a)
        winv = apply_axis(inv(kind, typ, n, norm), winv, a)
    tick(2)
    y = f(x, **kw)
    close(y, want, '%sn' % kind, 1e-10, 1e-8)
    close(g(x, **kw), winv, 'i%sn' % kind, 1e-10, 1e-8)
    if norm == 'ortho':
        tick()
        close(g(y, type=typ, axes=axes, norm=norm), xx, 'n-d round trip', 1e-10, 1e-9)
    require(np.array_equal(x, keep), 'input modified')
    return tuple(rnd(np.ravel(y)))


def f_shift(case):
    shape, n = case
    x = data(shape)
    tick()
    y = dp.shiftdim(x, n)
    nd = len(shape)
    if n is None:
        k = next((i for i, s in enumerate(shape) if s != 1), 0)
        close(y, x.reshape(shape[k:]), 'leading singletons removed', 0, 0)
    elif n >= 0:
        perm = [(i + n) % nd for i in range(nd)]
        close(y, np.transpose(x, perm), 'shift left', 0, 0)
    else:
        close(y, x.reshape((1,) * -n + tuple(shape)), 'pad', 0, 0)
    return y.shape


def f_refused(case):
    """lengths for another number of axes than given are not silently used"""
    kind, shape, axes = case
    tick(2)
    x = data((2, 3, 2))
    for f in (getattr(dp, kind + 'n'), getattr(dp, 'i' + kind + 'n')):
        try:
            f(x, shape=shape, axes=axes)
        except Exception:
            continue
        raise Fail('%s takes shape %r with axes %r' % (f.__name__, shape, axes))


def groups(tier):
    big = tier == 'thorough'
    mx = 9 if big else 6
    one = [(k, t, nm, s, a, n) for k in ('dct', 'dst') for t in (1, 2, 3) for nm in ('ortho', None)
           for s, axs in [((n,), (0, -1)) for n in range(1, mx + 1)] + [((2, 3), (0, 1, -2)), ((3, 1), (0, 1)),
                                                                        ((2, 3, 4), (0, 1, 2, -2))]
           for a in axs for n in (None, 1, 2, 3, 4, 5, 7)]
    nd = []
    shapes = [s for d in (1, 2, 3) for s in itertools.product((1, 2, 3, 4) if d < 3 else (1, 2, 3), repeat=d)]
    for s in shapes:
        d = len(s)
        axs = [None] + [list(p) for r in range(1, d + 1) for p in itertools.permutations(range(d), r)]
        axs += [[a - d for a in p] for p in axs[1:]]
        for a in axs:
            r = d if a is None else len(a)
            tsh = [None] + [t for t in itertools.product((2, 5), repeat=r)]
            for k in ('dct', 'dst'):
                for t in (1, 2, 3):
                    for nm in ('ortho', None):
                        for ts in (tsh if (t == 2 or big) else tsh[:2]):
                            if d == 3 and not big and (ts not in tsh[:3] or (nm is None and t != 2)):
                                continue
                            nd.append((k, t, nm, s, a, ts))
    return [
        Group('one-axis', one, f_one),
        Group('defaults', [(k, n) for k in ('dct', 'dst') for n in range(1, 40)], f_defaults),
        Group('n-d', nd, f_nd, note='every shape up to 3 axes, every ordered axis subset (also counted from the end)'),
        Group('refused', [(k, s, a) for k in ('dct', 'dst') for s in ((2,), (2, 3), (2, 3, 2)) for a in ((0,), (0, 1), (0, 1, 2)) if len(a) != len(s)], f_refused),
        Group('shiftdim', [(s, n) for s in shapes + [(1, 1, 3, 1, 2), (1, 2, 3, 2)] for n in
                           [None] + list(range(-2, len(s) + 1))], f_shift),
    ]
