"""P11 Second-order wave interaction: quadratic transfer functions and sum/difference frequency convolution."""
import itertools
import math
import numpy as np
from vk import Group, Fail, tick
from ref import close, require, rnd
from wafo import c_library, _misc_numba
from wafo.spectrum.core import qtf

PROPERTY = 'P11'
ASSUMPTIONS = ['largest interacting frequency index below half of the transform length (no wrap around)']
G = 9.81


def k_ref(w, h, g=G):
    if w == 0:
        return 0.0
    if h > 1e4:
        return w * w / g
    lo, hi = 0.0, max(w * w / g, w / math.sqrt(g * h)) * 2
    for _ in range(200):
        m = 0.5 * (lo + hi)
        lo, hi = (m, hi) if g * m * math.tanh(m * h) < w * w else (lo, m)
    return 0.5 * (lo + hi)


def kernels(w1, w2, h, g=G):
    """second-order sum and difference kernels of unidirectional waves (textbook form)"""
    k1, k2 = k_ref(w1, h, g), k_ref(w2, h, g)
    if h > 1e4:
        return 0.25 * (k1 + k2), -0.25 * abs(k1 - k2)
    a = g * k1 * k2 / (w1 * w2)

    def one(s):
        if s < 0 and w1 == w2:
            kh = k1 * h
            cg = 0.5 * g * (math.tanh(kh) + (kh / math.cosh(kh) ** 2 if kh < 300 else 0.0)) / w1
            num = 0.5 * g * (k1 / w1) ** 2 - 0.5 * w1 * w1 / g + g * k1 / (w1 * cg)
            return 0.5 * (num / (1 - g * h / cg ** 2) - (k1 / math.sinh(2 * kh) if kh < 300 else 0.0))
        b = 0.5 / g * (w1 * w1 + w2 * w2 + s * w1 * w2)
        c = 0.5 * g * (w1 * k2 * k2 + s * w2 * k1 * k1) / (w1 * w2 * (w1 + s * w2)) * s
        d = 1 - g * abs(k1 + s * k2) / (w1 + s * w2) ** 2 * math.tanh(abs(k1 + s * k2) * h)
        return 0.5 * ((a - b + c) / d + b - 0.5 * a)
    return one(1), one(-1)


def f_kernel(case):
    method, ws, h, g = case
    w = np.array(ws)
    keep = w.copy()
    tick()
    hs, hd, hdi = qtf(w, h, g, method)
    require(np.array_equal(keep, w), 'input modified')
    S = np.array([[kernels(a, b, h, g)[0] for a in ws] for b in ws])
    D = np.array([[kernels(a, b, h, g)[1] for a in ws] for b in ws])
    close(hs, S, 'sum frequency kernel', 1e-6, 1e-10)
    close(hd, D, 'difference frequency kernel', 1e-6, 1e-10)
    close(hdi, np.diag(D), 'diagonal', 1e-6, 1e-10)
    return rnd(np.r_[hs.ravel(), hd.ravel()], 9)


def f_sym(case):
    method, ws, h = case
    tick()
    hs, hd, hdi = qtf(np.array(ws), h, G, method)
    require(hs.shape == hd.shape == (len(ws),) * 2 and hdi.shape == (len(ws),), 'shape')
    close(hs, hs.T, 'sum kernel is symmetric', 1e-9, 1e-12)
    close(hd, hd.T, 'difference kernel is symmetric', 1e-9, 1e-12)
    close(np.diag(hd), hdi, 'diagonal', 1e-12, 1e-15)
    # the kernel of two frequencies does not depend on the others
    for i in range(len(ws)):
        for j in range(len(ws)):
            if i != j:
                s2, d2, _ = qtf(np.array([ws[i], ws[j]]), h, G, method)
                close([s2[0, 1], d2[0, 1]], [hs[i, j], hd[i, j]], 'kernel of a pair', 1e-7, 1e-12)
    return rnd(np.r_[hs.ravel(), hd.ravel()], 9)


def direct(A, w, h, g, nmin, nmax, m, n):
    """sum and difference frequency parts"""
    vec, dif = np.zeros(n * m, complex), np.zeros(n * m, complex)
    for c in range(m):
        a = [A[i * m + c] for i in range(len(w))]
        for i in range(nmin - 1, nmax):
            for j in range(nmin - 1, nmax):
                s, d = kernels(w[i], w[j], h, g)
                vec[(i + j) * m + c] += 4 * s * a[i] * a[j]
                if j > i:
                    dif[(j - i) * m + c] += 8 * d * np.conj(a[i]) * a[j]
                elif j == i:
                    dif[c] += 4 * d * abs(a[i]) ** 2
    return vec, dif


def f_disufq(case):
    n, nmin, nmax, h, g, m, idx, vals = case
    f = np.linspace(0.0, 0.4, n // 2 + 1)
    w = 2 * np.pi * f
    kw = np.array([k_ref(v, h, g) for v in w])
    A = np.zeros(n * m, complex)
    for k, (i, v) in enumerate(zip(idx, vals)):
        A[i * m + (k % m)] += complex(*v)
        if m > 1:
            A[i * m + ((k + 1) % m)] += 0.5 * complex(*v)
    r, q = np.ascontiguousarray(A.real), np.ascontiguousarray(A.imag)
    keep = (r.copy(), q.copy(), w.copy(), kw.copy())
    sums, diffs = direct(A, w, h, g, nmin, nmax, m, n)
    want = sums + diffs
    for name, fun in (('c', c_library.disufq), ('numba', _misc_numba.disufq)):
        tick()
        rv, iv = fun(r, q, w, kw, h, g, nmin, nmax, m, n)
        require(all(np.array_equal(x, y) for x, y in zip(keep, (r, q, w, kw))), 'input modified by ' + name)
        close(np.asarray(rv), want.real, name + ' real part', 1e-6, 1e-9)
        close(np.asarray(iv), want.imag, name + ' imaginary part', 1e-6, 1e-9)
    tick()
    got = c_library.disufq2(r, q, w, kw, h, g, nmin, nmax, m, n)
    require(all(np.array_equal(x, y) for x, y in zip(keep, (r, q, w, kw))), 'input modified by disufq2')
    for x, y, what in zip(got, (sums.real, sums.imag, diffs.real, diffs.imag),
                          ('sum real', 'sum imaginary', 'difference real', 'difference imaginary')):
        close(np.asarray(x), y, 'disufq2 ' + what, 1e-6, 1e-9)
    return rnd(np.r_[want.real, want.imag], 8)


def groups(tier):
    t = tier == 'thorough'
    W = [0.2, 0.35, 0.6, 1.0, 1.7]
    subs = [list(c) for n in (1, 2, 3) for c in itertools.permutations(W, n)] + [W]
    if not t:
        subs = [s for s in subs if len(s) < 3 or s == sorted(s) or s == sorted(s, reverse=True)]
    ker = [['langley', s, h, g] for s in subs for h in (1.0, 5.0, 10.0, 30.0, 80.0, np.inf) for g in (G, 4.0)]
    ker += [['winterstein', s, h, g] for s in subs for h in (1.0, np.inf) for g in (G, 4.0)]
    known = [['winterstein', [0.3, 0.6], 30.0, G]]
    sym = [[me, s, h] for me in ('langley', 'winterstein') for s in subs for h in (1.0, 10.0, 60.0, np.inf)]
    cs = []
    V = [[1, 0], [0, 1], [0.5, -2]]
    for h in (5.0, 40.0, 1e6):
        for n in (12,):
            for i in range(1, n // 2):
                for j in range(i, n // 2):
                    for v1 in V:
                        for v2 in V:
                            cs.append([n, 2, n // 2, h, G, 1, [i, j], [v1, v2]])
            for nmin in range(2, n // 2):
                for nmax in range(nmin, n // 2 + 1):
                    for g in (G, 4.0):
                        for m in (1, 2, 3):
                            full = list(range(1, n // 2))
                            cs.append([n, nmin, nmax, h, g, m, full, [[1 + i, 2 - i] for i in full]])
    for n in (4, 6, 8, 20, 64):
        for h in (5.0, 40.0, 1e4, 1.0001e4, 1e6):
            full = list(range(1, n // 2))
            cs.append([n, 2, n // 2, h, G, 1, full, [[(i * 7) % 5 - 2, (i * 3) % 4 - 1] for i in full]])
    return [Group('kernels', ker, f_kernel), Group('finite-depth-default', known, f_kernel),
            Group('kernel-symmetry', sym, f_sym), Group('disufq', cs, f_disufq)]
