"""P10 Dispersion relation and linear wave kinematics."""
import itertools
import math
import numpy as np
from vk import Group, Fail, tick
from ref import close, require, rnd
from wafo.wave_theory.dispersion_relation import w2k, k2w
import wafo.wave_theory.core as wc

PROPERTY = 'P10'
ASSUMPTIONS = ['finite frequencies, positive depth and gravity']

WS = [0.0, 1e-4, 0.01, 0.1, 0.3, 0.5, 1.0, 1.7, 3.0, 10.0, 40.0]
HS = [0.01, 0.5, 2.0, 10.0, 70.0, 1e3, 1e5, np.inf]
GS = [9.81, 1.0, 3.7]


def k_ref(w, h, g):
    """positive root of w**2 = g k tanh(k h) by bisection"""
    w = abs(w)
    if w == 0:
        return 0.0
    if h > 1e25:
        return w * w / g
    lo, hi = 0.0, max(w * w / g, w / math.sqrt(g * h)) * 2
    for _ in range(300):
        m = 0.5 * (lo + hi)
        if g * m * math.tanh(m * h) < w * w:
            lo = m
        else:
            hi = m
    return 0.5 * (lo + hi)


def sgn(v):
    return int(v > 0) - int(v < 0)


def f_w2k(case):
    ws, h, g, th = case
    w = np.array(ws)
    keep = w.copy()
    tick()
    k1, k2 = w2k(w, th, h, g)
    require(np.array_equal(w, keep), 'input modified')
    k = np.array([sgn(v) * k_ref(v, h, g) for v in ws])
    close(k1, k * math.cos(th), 'k1', 1e-6, 1e-12)
    close(k2, k * math.sin(th), 'k2', 1e-6, 1e-12)
    if all(v >= 0 for v in ws):
        tick()
        wr, tr = k2w(k1, k2, h, g)
        close(wr, w, 'k2w(w2k(w)) == w', 1e-6, 1e-9)
        pos = w > 0
        close(np.cos(tr[pos]), np.full(pos.sum(), math.cos(th)), 'direction restored')
        close(np.sin(tr[pos]), np.full(pos.sum(), math.sin(th)), 'direction restored')
    return rnd(k1, 9)


def f_broad(case):
    sw, st, sh = case
    mk = lambda shape, vals: np.resize(np.array(vals), shape) if shape != () else vals[0]
    w, th, h = mk(sw, [0.4, 1.1, 2.0]), mk(st, [0.0, 0.5, -2.0]), mk(sh, [10.0, np.inf, 40.0])
    shape = np.broadcast(w, th, h).shape
    tick()
    k1, k2 = w2k(w, th, h)
    W, T, H = np.broadcast_arrays(w, th, h)
    k = np.array([k_ref(a, b, 9.81) for a, b in zip(W.ravel(), H.ravel())]).reshape(shape)
    close(k1, k * np.cos(T), 'k1 broadcast', 1e-6, 1e-12)
    close(k2, k * np.sin(T), 'k2 broadcast', 1e-6, 1e-12)
    tick()
    wr, tr = k2w(k1, k2, h)
    close(wr, W, 'k2w broadcast', 1e-6, 1e-9)
    close(tr, np.arctan2(np.sin(T), np.cos(T)), 'theta')
    require(np.shape(wr) == np.shape(tr) == shape, 'shapes %s and %s of frequencies and directions, want %s' % (np.shape(wr), np.shape(tr), shape))
    tick()
    kk = np.resize(np.array([0.1, 0.02, 0.3]), sw) if sw != () else 0.1
    ww, tt = k2w(kk, mk(st, [0.0, 0.05, -0.2]), h)
    require(np.shape(ww) == np.shape(tt) == shape, 'shapes %s and %s of frequencies and directions, want %s' % (np.shape(ww), np.shape(tt), shape))
    return rnd(k1)


def f_empty(case):
    shape, which = case
    e, one = np.zeros(shape), 0.5
    tick(2)
    for got in (w2k(e, one, 10.0) if which == 0 else w2k(one, e) if which == 1 else w2k(one, one, e),
                k2w(e, one, 10.0) if which == 0 else k2w(one, e) if which == 1 else k2w(one, one, e)):
        require(len(got) == 2 and all(np.shape(v) == tuple(shape) for v in got), 'empty input of shape %s gives %r' % (shape, got))


def f_k2w(case):
    k1, k2, h, g, u1, u2 = case
    tick()
    w, th = k2w(k1, k2, h, g, u1, u2)
    k = math.hypot(k1, k2)
    want = k1 * u1 + k2 * u2 + math.sqrt(g * k * math.tanh(k * h)) if k > 0 else 0.0
    close(w, max(want, 0.0), 'frequency with current')
    close(th, math.atan2(k2, k1), 'direction')
    return rnd(w)


def f_ratio(case):
    sa, sb, a, b = case
    f = {1: math.cosh, -1: math.sinh}
    tick()
    got = wc.hyperbolic_ratio(np.array([a]), np.array([b]), sa, sb)
    if sb == -1 and b == 0:
        return None
    if max(abs(a), abs(b)) < 700:
        want = f[sa](a) / f[sb](b)
    else:
        want = (1 if sa == 1 else sgn(a)) * (1 if sb == 1 else sgn(b)) * math.exp(abs(a) - abs(b))
        if min(abs(a), abs(b)) < 20:
            want = 0.0 if abs(a) < abs(b) else None
    if want is not None:
        close(got, [want], 'ratio of hyperbolic functions', 1e-10, 1e-300)
    return rnd(got)


SENS = ['n', 'n_t', 'n_tt', 'n_x', 'n_y', 'n_xx', 'n_yy', 'n_xy', 'P', 'U', 'V', 'W', 'U_t', 'V_t', 'W_t', 'X_p',
        'Y_p', 'Z_p']


def lin_theory(s, w, th, h, g, rho, pos, bet, igam, thx, thy):
    x, y, z = pos
    k = sgn(w) * k_ref(w, h, g)
    cx = bet * math.cos(th - math.radians(thx) + math.pi / 2)
    cy = bet * math.sin(th - math.radians(thy))
    e = np.exp(1j * k * (x * cx + y * cy))
    zz = {1: z, 2: -z}.get(igam, z - h)      # upward from the mean level
    if k == 0:
        cc = 1.0
        wcs = wss = cs = 0.0   # documented: singular expressions at zero frequency are set to 0
        ss = 0.0
        ws2 = 0.0
    elif h > 1e25:
        cc = cs = ss = math.exp(abs(k) * zz)
        cs = cs * sgn(k)
        ss = ss
    else:
        cc = math.cosh(k * (h + zz)) / math.cosh(k * h)
        cs = math.cosh(k * (h + zz)) / math.sinh(k * h)
        ss = math.sinh(k * (h + zz)) / math.sinh(k * h)
    v = dict(n=1, n_t=-1j * w, n_tt=-w * w, n_x=1j * k * cx, n_y=1j * k * cy, n_xx=-(k * cx) ** 2,
             n_yy=-(k * cy) ** 2, n_xy=-k * k * cx * cy, P=rho * g * cc, U=w * cs * cx, V=w * cs * cy,
             W=-1j * w * ss, U_t=-1j * w * w * cs * cx, V_t=-1j * w * w * cs * cy, W_t=-w * w * ss,
             X_p=1j * cs * cx, Y_p=1j * cs * cy, Z_p=ss)[s]
    return v * e * (-1 if igam == 2 else 1)


def f_tran(case):
    s, h, g, pos, bet, igam, ax, wsel = case
    thx, thy = ax
    z = pos[2] if igam != 3 else (h + pos[2] if np.isfinite(h) else None)
    if z is None:
        return None
    if igam == 2:
        z = -pos[2]
    p = (pos[0], pos[1], z)
    w = np.array(wsel)
    th = np.array([0.0, 0.7, -2.0])
    tf = wc.TransferFunction(pos=p, sensortype=s, h=h, g=g, rho=1000.0, bet=bet, igam=igam, thetax=thx, thetay=thy)
    kw, kt = w.copy(), th.copy()
    tick()
    H, G = tf.tran(w, th)
    require(np.array_equal(w, kw) and w.shape == kw.shape and np.array_equal(th, kt) and th.shape == kt.shape,
            'the caller\'s arrays were changed')
    require(np.all(np.asarray(H) >= 0), 'Hw is not negative')
    got = H * G
    want = np.array([[lin_theory(s, a, t, h, g, 1000.0, p, bet, igam, thx, thy) for a in w] for t in th])
    nz = w != 0 if s in ('Z_p', 'X_p', 'Y_p') else np.ones(len(w), bool)
    close(got[:, nz], want[:, nz], 'transfer function %s' % s, 1e-6, 1e-9)
    # scalar call, given wave numbers, call operator
    k = np.array([sgn(a) * k_ref(a, h, g) for a in w])
    tick(2)
    H2, G2 = tf(w, th, k)
    close((H2 * G2)[:, nz], want[:, nz], 'given wave numbers', 1e-6, 1e-9)
    tf2 = wc.TransferFunction(pos=p, sensortype=SENS.index(s), h=h, g=g, rho=1000.0, bet=bet, igam=igam, thetax=thx,
                              thetay=thy)
    H3, G3 = tf2.tran(w, th)
    close(H3 * G3, got, 'sensor type by number', 1e-12, 1e-12)
    return rnd(np.abs(got))


def f_tran_history(case):
    """changing the sensor between calls equals a fresh object"""
    tf = wc.TransferFunction(pos=(1.0, 2.0, -3.0), h=30.0)
    for s in case:
        tf.sensortype = s
        tick()
        H, G = tf.tran(0.8, 0.3)
        f = wc.TransferFunction(pos=(1.0, 2.0, -3.0), h=30.0, sensortype=s)
        H0, G0 = f.tran(0.8, 0.3)
        close(H * G, H0 * G0, 'history', 0, 0)
    return rnd(np.abs(H * G))


def f_ids(case):
    ids = case
    names = [n.lower() for n in SENS]
    tick(2)
    got = wc.sensor_type(*ids)
    require(len(got) == len(ids), 'length')
    for i, n in zip(ids, got):
        if 0 <= i < 18:
            require(n == names[i], 'name of %d' % i)
        else:
            require(n != n, 'unknown number gives nan')
    back = wc.sensor_typeid(*[n for n in got if n == n])
    require(list(back) == [i for i in ids if 0 <= i < 18], 'id -> name -> id')
    back = wc.sensor_typeid(*[n.upper() for n in got if n == n])
    require(list(back) == [i for i in ids if 0 <= i < 18], 'case does not matter')
    return tuple(ids)


def f_pressure(case):
    Hm0, h, g = case
    z = np.array([0.0, -1.0, -5.0, -h])
    tick(2)
    p = wc.wave_pressure(z, Hm0, h=h, g=g, rho=1000.0)
    close(p[0], 1000.0 * g * Hm0 / 2, 'pressure amplitude at the mean level')
    require(np.all(np.diff(p) < 0) and p[-1] > 0, 'decays downwards')
    # the profile is cosh(k(h+z))/cosh(kh) for one wave number
    c = (p[0] / p[-1])
    lo, hi = 0.0, 700.0 / h
    for _ in range(200):
        m = 0.5 * (lo + hi)
        lo, hi = (m, hi) if math.cosh(m * h) < c else (lo, m)
    k = 0.5 * (lo + hi)
    close(p / p[0], np.cosh(k * (h + z)) / np.cosh(k * h), 'depth profile', 1e-6, 1e-12)
    if g == 9.81:
        deep = wc.wave_pressure(z, Hm0, h=h, rho=1000.0)
        close(deep, p, 'default gravity')
    # scaled gravity: same period, wave number solves the dispersion relation for that g
    w2 = g * k * math.tanh(k * h)
    k0 = wc.wave_pressure(z, Hm0, h=h, g=9.81, rho=1000.0)
    c0 = k0[0] / k0[-1]
    lo, hi = 0.0, 700.0 / h
    for _ in range(200):
        m = 0.5 * (lo + hi)
        lo, hi = (m, hi) if math.cosh(m * h) < c0 else (lo, m)
    w20 = 9.81 * lo * math.tanh(lo * h)
    close(w2, w20, 'the period does not depend on g', 1e-5, 0)
    # JONSWAP sea with Tp = 4 sqrt(Hm0): peakedness is the same for all of them and the period goes as sqrt(Hm0)
    gam = math.exp(3.484 * (1 - 0.1975 * (0.036 - 0.0056 * 4.0) * 4.0 ** 4))
    T = 4 * math.sqrt(Hm0) / (1.30301 - 0.01698 * gam + 0.12102 / gam)
    close(w2, (2 * math.pi / T) ** 2, 'mean period of the sea state', 1e-5, 0)
    if g == 9.81:
        close(wc.wave_pressure(z, Hm0, h=h), 1.028 * p, 'default density', 1e-12, 0)
    return rnd(p)


def f_defaults(case):
    s, w, t, z = case
    std = dict(pos=(0.0, 0.0, 0.0), sensortype='n', h=np.inf, g=9.81, rho=1028.0, bet=1, igam=1, thetax=90, thetay=0)
    for drop in list(std):
        kw = dict(std)
        if drop != 'pos':
            kw['pos'] = (2.0, -1.0, z)
        if drop != 'sensortype':
            kw['sensortype'] = s
        del kw[drop]
        tick()
        H, G = wc.TransferFunction(**kw).tran(w, t)
        want = lin_theory(kw.get('sensortype', 'n'), w, t, np.inf, 9.81, 1028.0, kw.get('pos', (0.0, 0.0, 0.0)), 1, 1, 90, 0)
        close(np.ravel(H * G), np.ravel(want), 'default %s' % drop, 1e-6, 1e-9)
    return rnd(np.abs(np.ravel(H * G)))


def groups(tier):
    t = tier == 'thorough'
    ths = [0.0, 0.5, math.pi / 2, -2.5, 3.0]
    w2kc = [[[w], h, g, th] for w in WS + [-0.5, -3.0] for h in HS for g in GS for th in ths]
    w2kc += [[list(c), h, 9.81, 0.3] for n in (2, 3) for c in itertools.product([-1.0, 0.0, 0.05, 0.6, 5.0], repeat=n)
             for h in (0.5, 20.0, np.inf)]
    shapes = [(), (1,), (3,), (2, 1), (2, 3)]
    br = [[a, b, c] for a in shapes for b in shapes for c in ((), (3,), (2, 1))]
    ks = [-0.5, 0.0, 0.01, 0.3, 2.0]
    k2wc = [[a, b, h, g, u, v] for a in ks for b in ks for h in (0.5, 30.0, np.inf) for g in (9.81, 1.0)
            for u in (-3.0, 0.0, 1.0) for v in (0.0, 2.0)]
    av = [-800.0, -30.0, -1.0, -1e-6, 0.0, 1e-6, 0.3, 2.0, 25.0, 300.0, 1000.0]
    ratio = [[sa, sb, a, b] for sa in (1, -1) for sb in (1, -1) for a in av for b in av
             if not (abs(a) > 350 and abs(b) < 350 and abs(a) - abs(b) > 650)]
    poss = [(0.0, 0.0, 0.0), (3.0, -2.0, -1.0), (0.0, 5.0, -8.0)]
    wsel = [[0.4, 1.2], [0.0, 0.7, 2.5], [-0.9, 0.9]]
    tran = [[s, h, g, p, b, ig, ax, w] for s in SENS for h in (10.0, 60.0, np.inf) for g in (9.81, 3.0) for p in poss
            for b in (1, -1) for ig in (1, 2, 3) for ax in ((90, 0), (40, -30)) for w in wsel]
    hist = [list(c) for n in (1, 2) + ((3,) if t else ()) for c in itertools.product(SENS, repeat=n)]
    ids = [list(c) for n in (1, 2) for c in itertools.product(range(-2, 21), repeat=n)]
    return [Group('w2k', w2kc, f_w2k), Group('broadcast', br, f_broad), Group('empty', [[s, k] for s in ([0], [0, 3], [2, 0]) for k in range(3)], f_empty), Group('k2w', k2wc, f_k2w),
            Group('hyperbolic', ratio, f_ratio), Group('transfer', tran, f_tran), Group('history', hist, f_tran_history),
            Group('defaults', [[s, w, t, z] for s in SENS for w in (0.4, 1.2) for t in (0.0, 0.7) for z in (0.0, -3.0)], f_defaults,
                  note='each constructor argument left out in turn'),
            Group('sensor-ids', ids, f_ids),
            Group('pressure', [[a, h, g] for a in (0.5, 1.0, 3.0) for h in (8.0, 20.0, 60.0) for g in GS], f_pressure)]
