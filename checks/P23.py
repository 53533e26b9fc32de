"""P23 PlotData containers: interpolation, integration, transformation and drawing of data objects."""
import itertools
import math
import warnings
import numpy as np
from scipy import integrate
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as mplt
from vk import Group, Fail, tick
from ref import close, require
import wafo.containers as wc
from wafo.containers import PlotData, AxisLabels

PROPERTY = 'P23'
ASSUMPTIONS = ['curves of at most 6 points over small alphabets, grids of at most 4x4 points, drawing inspected through the artists of the Agg backend; '
               'a reference of piecewise linear functions computed with exact fractions in floating point']

XS = [[0., 1.], [0., 1., 2.], [0., 0.5, 3.], [-1., 0., 0.25, 2.], [1., 2., 4., 8.], [-3., -2., -0.5, 0., 5.], [0., 1., 2., 3., 4., 5.]]


def quiet(f, *a, **k):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return f(*a, **k)


def pl(x, f, t):
    """piecewise linear interpolant; nan outside"""
    if t < x[0] or t > x[-1]:
        return float('nan')
    for k in range(len(x) - 1):
        if x[k] <= t <= x[k + 1]:
            return f[k] + (f[k + 1] - f[k]) * (t - x[k]) / (x[k + 1] - x[k])


def plint(x, f, a, b):
    pts = sorted(set([a, b] + [t for t in x if a < t < b]))
    return sum((pts[k + 1] - pts[k]) * (pl(x, f, pts[k]) + pl(x, f, pts[k + 1])) / 2 for k in range(len(pts) - 1))


def cum(x, f):
    out = [0.0]
    for k in range(len(x) - 1):
        out.append(out[-1] + (x[k + 1] - x[k]) * (f[k] + f[k + 1]) / 2)
    return out


def grid(x):
    g = []
    for k in range(len(x) - 1):
        g += [x[k], x[k] + 0.25 * (x[k + 1] - x[k]), (x[k] + x[k + 1]) / 2]
    return g + [x[-1]]


def f_curve(case):
    x, f = case
    xa, fa = np.array(x), np.array(f, float)
    d = PlotData(fa, xa)
    t = grid(x)
    close(d.eval_points(np.array(t)), [pl(x, f, u) for u in t], 'eval_points', 1e-12, 1e-12)
    for u in t[::2]:
        close(d.eval_points(u), pl(x, f, u), 'eval_points of one point', 1e-12, 1e-12)
    out = np.asarray(d.eval_points(np.array([x[0] - 0.5, x[-1] + 0.5])))
    require(np.all(np.isnan(out)), 'points outside the data give %r' % (out,))
    close(d.eval_points(xa), f, 'the data themselves', 1e-12, 1e-12)
    tick(3)
    for a, b in itertools.combinations(t, 2):
        close(d.integrate(a, b), plint(x, f, a, b), 'integral from %g to %g' % (a, b), 1e-12, 1e-12)
        tick(1)
    close(d.integrate(), plint(x, f, x[0], x[-1]), 'whole integral', 1e-12, 1e-12)
    for a in t[1:-1]:
        close(d.integrate(a=a), plint(x, f, a, x[-1]), 'integral from %g' % a, 1e-12, 1e-12)
        close(d.integrate(b=a), plint(x, f, x[0], a), 'integral up to %g' % a, 1e-12, 1e-12)
        close(d.integrate(b=a) + d.integrate(a=a), d.integrate(), 'additivity', 1e-12, 1e-12)
    for a in t[::3]:
        close(d.integrate(a, a), 0.0, 'empty interval', 1e-12, 1e-13)
    c = d.to_cdf()
    close(c.data, cum(x, f), 'to_cdf', 1e-12, 1e-12)
    close(c.args, x, 'arguments of the cdf', 0, 0)
    c.args[0] += 1
    c.data[0] += 1
    require(list(xa) == x and list(fa) == f and d.data is fa and d.args is xa, 'the data object was changed')


def f_columns(case):
    x, cols = case
    xa, F = np.array(x), np.array(cols, float).T
    d = PlotData(F, xa)
    t = grid(x)
    got = np.asarray(d.eval_points(np.array(t)))
    require(got.shape == (len(t), len(cols)), 'eval_points of %d columns has shape %r' % (len(cols), got.shape))
    for j, f in enumerate(cols):
        close(got[:, j], [pl(x, f, u) for u in t], 'column %d' % j, 1e-12, 1e-12)
    for a, b in itertools.combinations(t[::2], 2):
        close(d.integrate(a, b), [plint(x, f, a, b) for f in cols], 'integral of columns', 1e-12, 1e-12)
        tick(1)
    # confidence limits as children
    main = PlotData(np.array(cols[0], float), xa, children=[PlotData(np.array(f, float), xa) for f in cols])
    for a, b in itertools.combinations(t[::2], 2):
        close(main.integrate(a, b, return_ci=True), [plint(x, cols[0], a, b)] + [plint(x, f, a, b) for f in cols], 'return_ci', 1e-12, 1e-12)
    main = PlotData(np.array(cols[0], float), xa, children=[PlotData(F, xa)])
    close(main.integrate(t[0], t[-1], return_ci=True), [plint(x, f, x[0], x[-1]) for f in [cols[0]] + list(cols)], 'return_ci with columns', 1e-12, 1e-12)
    # another rule: the same one for the curve and for its limits
    for a, b in ((None, None), (t[1], None), (None, t[-2]), (t[1], t[-2])):
        v = main.integrate(a, b, return_ci=True, method='simpson')
        p = [x[0] if a is None else a] + [u for u in x if (a is None or u > a) and (b is None or u < b) and x[0] < u < x[-1]] + [x[-1] if b is None else b]
        close(v, [integrate.simpson([pl(x, f, u) for u in p], x=p) for f in [cols[0]] + list(cols)], 'return_ci, Simpson', 1e-11, 1e-11)
    require(np.array_equal(F, np.array(cols, float).T), 'the data were changed')


def f_surface(case):
    x, y, coef = case
    a, b, c = coef
    xa, ya = np.array(x), np.array(y)
    X, Y = np.meshgrid(xa, ya)
    Z = a + b * X + c * Y
    d = PlotData(Z, (xa, ya))
    tx, ty = grid(x), grid(y)
    TX, TY = np.meshgrid(tx, ty)
    close(d.eval_points(TX.ravel(), TY.ravel()), (a + b * TX + c * TY).ravel(), 'plane', 1e-9, 1e-9)
    tick(1)
    out = np.asarray(d.eval_points(np.array([x[0] - 1.]), np.array([y[0]])))
    require(np.all(np.isnan(out)), 'outside the grid: %r' % (out,))
    # at the nodes every surface is reproduced
    W = np.array([[((3 * i + 5 * j) % 7) - 2.5 + a for i in range(len(x))] for j in range(len(y))])
    e = PlotData(W, [xa, ya])
    for m in ('linear', 'nearest'):
        close(e.eval_points(X.ravel(), Y.ravel(), method=m), W.ravel(), 'nodes, %s' % m, 1e-9, 1e-9)
    got = np.asarray(e.eval_points(TX.ravel(), TY.ravel()))
    require(got.min() >= W.min() - 1e-9 and got.max() <= W.max() + 1e-9, 'interpolated values leave the range of the data')
    for fun in (e.to_cdf, e.integrate):
        try:
            fun()
        except NotImplementedError:
            continue
        raise Fail('integration of a surface is not refused')


# ---------------------------------------------------------------- transformations
NAMES = ['f', '1-f', 'cumtrapz(f)', '1-cumtrapz(f)', 'log(f)', 'log(1-f)', 'log(cumtrapz(f))', 'log(1-cumtrapz(f))', '10log10(f)']


def safe_log(v):
    return math.log(v) if v > 0 else (-math.inf if v == 0 else math.nan)


def transform(tid, x, f):
    c = cum(x, f)[1:]       # the integrals up to the second, third, ... point
    return [lambda: list(f), lambda: [1 - v for v in f], lambda: c, lambda: [1 - v for v in c], lambda: [safe_log(v) for v in f],
            lambda: [safe_log(1 - v) for v in f], lambda: [safe_log(v) for v in c], lambda: [safe_log(1 - v) for v in c],
            lambda: [10 * safe_log(v) / math.log(10) for v in f]][tid]()


def same(got, want, msg):
    got = np.asarray(got, float)
    want = np.asarray(want, float)
    require(got.shape == want.shape, '%s: shape %r instead of %r' % (msg, got.shape, want.shape))
    for g, w in zip(got.ravel(), want.ravel()):
        if math.isnan(w) or math.isinf(w):
            require((math.isnan(w) and math.isnan(g)) or g == w, '%s: %r instead of %r' % (msg, g, w))
        else:
            require(abs(g - w) <= 1e-11 + 1e-9 * abs(w), '%s: %r instead of %r' % (msg, g, w))


def f_trans(case):
    x, f, tid = case
    xa, fa = np.array(x), np.array(f, float)
    want = transform(tid, x, f)
    for pt in (0, 1, 5):
        for sc in (0, 100, 300, 11100):
            same(quiet(wc.transformdata_1d, xa, fa, sc + 10 * tid + pt), want, 'transform %s' % NAMES[tid])
            tick(1)
    require(list(fa) == f and list(xa) == x, 'the data were changed')


SCALE = ['linear', 'xlog', 'ylog', 'xylog', 'zlog', 'xzlog', 'yzlog', 'xyzlog']


def f_flags(case):
    k, = case
    for tid in range(9):
        for sc in range(8):
            flag = 100 * sc + 10 * tid + k
            require(wc.plotflag2transform_id(flag) == NAMES[tid], 'transformation %d is named %r' % (tid, wc.plotflag2transform_id(flag)))
            require(wc.transform_id2plotflag2(NAMES[tid]) == 10 * tid, 'number of %s' % NAMES[tid])
            require(wc.plotscale(flag) == SCALE[sc], 'scale of %d: %s' % (flag, wc.plotscale(flag)))
            tick(3)
        for bits in itertools.product((0, 1, 2), repeat=3):
            xb, yb, zb = bits
            if xb + 10 * yb + 100 * zb <= 7:
                continue
            flag = (xb + 10 * yb + 100 * zb) * 100 + 10 * tid + k
            require(wc.plotscale(flag) == SCALE[bool(xb) + 2 * bool(yb) + 4 * bool(zb)], 'scale of %d: %s' % (flag, wc.plotscale(flag)))
            tick(1)
    if k < 6:
        require(wc.plotflag2plottype_1d(30 + k) == ['', 'plot', 'step', 'stem', 'errorbar', 'bar'][k], 'plot type %d' % k)


def newax():
    fig = mplt.figure()
    return fig, fig.add_subplot(111)


def f_draw(case):
    x, f, tid, pt, ci, sc = case
    xa, fa = np.array(x), np.array(f, float)
    d = PlotData(fa, xa, title='T', xlab='X', ylab='Y')
    lo, hi = fa * 0.5, fa * 0.75 + 0.2
    if ci:
        d.dataCI = np.vstack((lo, hi)).T
        keepci = d.dataCI.copy()
    flag = 100 * sc + 10 * tid + pt
    fig, ax = newax()
    try:
        quiet(d.plot, axis=ax, plotflag=flag)
        want = transform(tid, x, f)
        if pt in (1, 4, 7):
            line = ax.lines[0]
            close(line.get_xdata(), x[len(x) - len(want):], 'abscissae drawn', 0, 0)
            same(line.get_ydata(), want, 'curve drawn')
        if pt == 2:
            line = ax.lines[0]
            close(line.get_xdata(orig=True), x[len(x) - len(want):], 'abscissae of the steps', 0, 0)
            same(line.get_ydata(orig=True), want, 'steps drawn')
            require(line.get_drawstyle().startswith('steps'), 'not drawn as steps')
        if pt == 3:
            same(ax.containers[0].markerline.get_ydata(), want, 'stems drawn')
            close(ax.containers[0].markerline.get_xdata(), x[len(x) - len(want):], 'abscissae of the stems', 0, 0)
        if pt == 5:
            same([p.get_height() for p in ax.patches], want, 'bars drawn')
        if ci and pt == 1:
            require(len(ax.lines) == 3, 'the confidence limits are not drawn')
            for k, e in enumerate((lo, hi)):
                same(ax.lines[1 + k].get_ydata(), transform(tid, x, list(e)), 'confidence limit drawn')
        if pt in (6, 7):
            require(len(ax.collections) == 1, 'no area drawn')
        require((ax.get_title().strip(), ax.get_xlabel(), ax.get_ylabel()) == ('T', 'X', 'Y'), 'labels %r' % ((ax.get_title(), ax.get_xlabel(), ax.get_ylabel()),))
        if sc:
            require(ax.get_xscale() == ('log' if sc & 1 else 'linear') and ax.get_yscale() == ('log' if sc & 2 else 'linear'), 'axis scales')
        tick(1)
    finally:
        mplt.close(fig)
    require(list(fa) == f and list(xa) == x and d.data is fa and d.args is xa, 'drawing changed the data')
    if ci:
        require(np.array_equal(d.dataCI, keepci), 'drawing changed the confidence limits')


def f_draw2(case):
    nx, ny, flag, ttl = case
    x, y = np.arange(nx) * 0.5, np.arange(ny) - 1.0
    Z = np.array([[((3 * i + 5 * j + i * j) % 7) for i in range(nx)] for j in range(ny)], float)
    keep = Z.copy()
    d = PlotData(Z, (x, y), title=ttl, xlab='X', ylab='Y')
    fig, ax = newax()
    try:
        mplt.sca(ax)
        r = quiet(d.plot, axis=ax, plotflag=flag)
        h = r[0][0]
        if flag in (1, 8, 9):
            zmin, zmax = Z.min(), Z.max()
            want = sorted(zmin + (zmax - zmin) * q for q in (0.01, 0.025, 0.05, 0.1, 0.2, 0.4, 0.5, 0.75))
            close(h.levels, want, 'levels drawn', 1e-12, 1e-12)
        if flag == 5:
            require(np.asarray(h.get_array()).size >= (nx - 1) * (ny - 1), 'cells drawn')
        tick(1)
        require(ax.get_xlabel() == 'X' and ax.get_ylabel() == 'Y', 'labels')
    finally:
        mplt.close(fig)
    require(np.array_equal(Z, keep) and d.data is Z, 'drawing changed the data')


def f_levels(case):
    """levels given with the data are the curves drawn, and they (or what they enclose) are listed beside the plot"""
    lev, per, flag = case
    x, y = np.arange(4) * 0.5, np.arange(3) - 1.0
    Z = np.array([[((3 * i + 5 * j + i * j) % 7) for i in range(4)] for j in range(3)], float)
    d = PlotData(Z, [x, y], title='T')
    d.clevels = np.array(lev, float)
    keep = d.clevels.copy()
    if per:
        d.plevels = np.array(per, float)
    fig, ax = newax()
    try:
        mplt.sca(ax)
        h = quiet(d.plot, axis=ax, plotflag=flag)[0][0]
        tick(1)
        close(h.levels, sorted(lev), 'levels drawn', 1e-12, 1e-12)
        if flag == 1:
            require([t.get_text() for t in fig.texts][:1] == ['Level curves enclosing:' if per else 'Level curves at:'], 'title of the levels')
            got = [float(v) for v in fig.texts[1].get_text().split()]
            want = (per or sorted(lev))[:12]
            close(got, [float('%0.4g' % v) for v in want], 'levels listed', 1e-12, 1e-12)
    finally:
        mplt.close(fig)
    require(np.array_equal(d.clevels, keep) and np.array_equal(d.args[0], x), 'drawing changed the levels')


def f_children(case):
    """children are drawn with their own style, or that given to the parent, first; a plot flag draws the data alone"""
    nch, cols, style, flag = case
    x = np.array([0., 1., 3.])
    f = np.array([1., 2., 0.5])
    ch = [PlotData(np.vstack([f * (k + 2) + c for c in range(cols)]).T if cols > 1 else f * (k + 2), x, title='c', plot_args=[':g'], plot_kwds={'linewidth': 3 + k}) for k in range(nch)]
    kw = {}
    if style == 'init':
        kw = dict(plot_args_children=['r--'], plot_kwds_children={'markersize': 9.5})
    d = PlotData(f, x, title='a', children=ch, plot_args=['b-'], plot_kwds={'linewidth': 1.25}, **kw)
    fig, ax = newax()
    try:
        call = dict(plot_args_children=['r--'], plot_kwds_children={'markersize': 9.5}) if style == 'call' else {}
        if flag:
            call['plotflag'] = flag
        keep = {k: v for k, v in d.plot_kwds.items()}
        quiet(d.plot, axis=ax, **call) if style != 'call' or not flag else quiet(d.plot, axis=ax, plotflag=flag)
        tick(1)
        L = list(ax.lines)
        n = nch * cols if not flag else 0
        require(len(L) == n + 1, '%d curves drawn for %d children' % (len(L), nch))
        for k in range(n):
            c, j = divmod(k, cols)
            want = f * (c + 2) + (j if cols > 1 else 0)
            close(L[k].get_ydata(), want, 'child curve', 1e-12, 0)
            close(L[k].get_xdata(), x, 'child abscissae', 1e-12, 0)
            require((L[k].get_linestyle(), L[k].get_color()) == (('--', 'r') if style != 'own' else (':', 'g')), 'style of a child')
            require(L[k].get_linewidth() == 3 + c, 'width of a child')
            if style != 'own':
                require(L[k].get_markersize() == 9.5, 'keyword given to the children')
        close(L[-1].get_ydata(), f, 'curve of the parent', 1e-12, 0)
        require((L[-1].get_linestyle(), L[-1].get_color(), L[-1].get_linewidth()) == ('-', 'b', 1.25), 'style of the parent')
        require(d.plot_kwds == keep and d.plot_kwds_children == kw.get('plot_kwds_children', {}) and d.children is not None and len(d.children) == nch, 'drawing changed the object')
        # drawn on another axis with another style: only that call is affected
        fig2, ax2 = newax()
        try:
            quiet(d.plot, 'k-.', axis=ax2, linewidth=7.0)
            require((ax2.lines[-1].get_linestyle(), ax2.lines[-1].get_color(), ax2.lines[-1].get_linewidth()) == ('-.', 'k', 7.0), 'style given to the call')
            require(len(ax2.lines) == nch * cols + 1 and len(ax.lines) == n + 1, 'curves on the other axis')
            tick(1)
        finally:
            mplt.close(fig2)
    finally:
        mplt.close(fig)


# ---------------------------------------------------------------- histories
OPS = ['eval', 'int', 'cdf', 'copy', 'plot', 'plotflag', 'mutate-copy', 'labels', 'assign']


def f_hist(case):
    """every sequence of operations: the object always describes the data last assigned, copies are separate"""
    x = [0., 1., 3.]
    f = [1., 2., 0.5]
    d = PlotData(np.array(f), np.array(x), title='a', xlab='X', children=None)
    other = []
    for op in case:
        tick(1)
        if op == 'eval':
            close(d.eval_points(np.array([0.5, 2.0])), [pl(x, f, 0.5), pl(x, f, 2.0)], 'eval_points after %r' % (case,), 1e-12, 1e-12)
        elif op == 'int':
            close(d.integrate(0.5, 2.), plint(x, f, 0.5, 2.), 'integrate after %r' % (case,), 1e-12, 1e-12)
        elif op == 'cdf':
            c = d.to_cdf()
            close(c.data, cum(x, f), 'to_cdf after %r' % (case,), 1e-12, 1e-12)
            require(type(c) is PlotData and c.labels.ylab == 'F(x)', 'labels of the cdf')
        elif op == 'copy':
            other.append((d.copy(), list(x), list(f)))
            require(type(other[-1][0]) is PlotData, 'type of a copy')
        elif op in ('plot', 'plotflag'):
            fig, ax = newax()
            try:
                quiet(d.plot, axis=ax, **({'plotflag': 1} if op == 'plotflag' else {}))
                close(ax.lines[0].get_ydata(), f, 'curve drawn after %r' % (case,), 1e-12, 0)
                close(ax.lines[0].get_xdata(), x, 'abscissae drawn after %r' % (case,), 1e-12, 0)
                require(ax.get_title().strip() == d.labels.title, 'title')
            finally:
                mplt.close(fig)
        elif op == 'mutate-copy' and other:
            # giving a copy new data leaves the original alone
            c, cx, cf = other[-1]
            c.data = np.array([7., 7., 7.])
            other[-1] = (c, cx, [7., 7., 7.])
        elif op == 'labels':
            lab = d.labels.copy()
            lab.title = 'zzz'
            require(d.labels.title == 'a', 'the labels share their text with a copy')
            require('title=zzz' in repr(lab), 'text of the labels')
        elif op == 'assign':
            f = [v + 1 for v in f]
            d.data = np.array(f)
        require(list(d.data) == f and list(d.args) == x, 'data after %r' % (case,))
        for c, cx, cf in other:
            require(list(c.data) == cf and list(c.args) == cx, 'copy after %r' % (case,))


# ---------------------------------------------------------------- texts and probability papers
def f_texts(case):
    """numbers of a table are written at the middle (or the corner) of their cells; a new call replaces the old texts"""
    import wafo.graphutil as wg
    M, N, form, mid, scale = case
    data = np.array([[((2 * i + 3 * j) % 5) * scale for j in range(N)] for i in range(M)])
    x = np.array([0., 1., 3.][:N])
    y = np.array([-1., 1., 2.][:M])
    if form == 'none':
        x, y = np.arange(N) * 1.0, np.arange(M) * 1.0
        args = (data,)
    elif form == 'vector':
        args = (x, y, data)
    else:
        args = tuple(np.meshgrid(x, y)) + (data,)
    fig, ax = newax()
    try:
        for rep in range(2):
            h = wg.tallibing(*args, axis=ax, **({} if mid else {'mid_points': False}))
            tick(1)
            xm = [x[k] + (0.5 * (x[min(k + 1, N - 1)] - x[min(k, N - 2)]) if mid else 0) for k in range(N)]
            ym = [y[k] + (0.5 * (y[min(k + 1, M - 1)] - y[min(k, M - 2)]) if mid else 0) for k in range(M)]
            want = [(xm[j], ym[i], float(np.round(data[i, j]))) for i in range(M) for j in range(N) if np.round(data[i, j])]
            got = [t.get_position() + (float(t.get_text()),) for t in h]
            close(np.array(got), np.array(want), 'numbers written', 1e-12, 1e-12)
            require(len(ax.texts) == len(want), '%d texts after %d calls, table has %d numbers' % (len(ax.texts), rep + 1, len(want)))
        for lev, pc in (([1, 2.5], False), ([10, 90, 50], True)):
            h1, h2 = wg.cltext(lev, percent=pc, figure=fig, axis=ax)
            require(h1.get_text() == ('Level curves enclosing:' if pc else 'Level curves at:'), 'title of the levels')
            require([float(v) for v in h2.get_text().split()] == [float(v) for v in lev], 'levels written')
            require(len(fig.texts) == 2, '%d texts of levels' % len(fig.texts))
            (u, r), (d, o) = ax.get_position().intervalx, ax.get_position().intervaly
            for xs, ys in ((0.036, 0.94), (0.5, 0.25)):
                h1, h2 = wg.cltext(lev, percent=pc, figure=fig, axis=ax, xs=xs, ys=ys)
                close(h1.get_position(), [u + xs * (r - u), d + ys * (o - d)], 'place of the title', 1e-12, 1e-12)
                require(h2.get_position()[0] == h1.get_position()[0] and h2.get_position()[1] < h1.get_position()[1], 'the levels stand below the title')
                require(len(fig.texts) == 2, '%d texts of levels' % len(fig.texts))
            require(len(ax.texts) == len(want), 'other texts were deleted')
            tick(1)
    finally:
        mplt.close(fig)


def norm_quantile(p):
    from statistics import NormalDist
    return NormalDist().inv_cdf(p)


def f_normplot(case):
    from wafo.stats import plot as wp
    cols, lines, perc, df = case
    x = np.array(cols, float).T if len(cols) > 1 else np.array(cols[0], float)
    keep = x.copy()
    fig, ax = newax()
    try:
        quiet(wp.plotnorm, x, estimatelines=lines, percentiles=perc, ax=ax, **({} if df is None else {'df': df}))
        tick(1)
        n = len(cols[0])
        require(len(ax.lines) == len(cols) * (2 if lines else 1), 'number of curves')
        for k, c in enumerate(cols):
            ln = ax.lines[k * (2 if lines else 1)]
            close(ln.get_xdata(), sorted(c), 'sorted sample', 1e-12, 1e-12)
            q = [norm_quantile((i + 0.5) / n) for i in range(n)]
            got = np.asarray(ln.get_ydata())
            if df is None:
                close(got, q, 'normal quantiles', 1e-9, 1e-9)
            else:
                from scipy.stats import t as st
                want = st.ppf([(i + 0.5) / n for i in range(n)], df)
                for g, w, z in zip(got, want, q):   # an expansion in 1/df up to the fourth order
                    require(abs(g - w) <= 0.1 * (abs(z) + abs(z) ** 11) / df ** 5 + 2e-8, 'Student quantiles with %d degrees: %s instead of %s' % (df, g, w))
            if lines:
                A = np.vstack((np.ones(n), got)).T
                a, b = np.linalg.lstsq(A, np.array(sorted(c), float), rcond=None)[0]
                fl = ax.lines[2 * k + 1]
                lo, hi = min(c), max(c)
                close(fl.get_xdata(), [lo, hi], 'ends of the fitted line', 1e-12, 1e-12)
                close(fl.get_ydata(), [(lo - a) / b, (hi - a) / b], 'fitted line', 1e-8, 1e-8)
        words = ('%s %s' % (ax.get_title(), ax.get_ylabel())).lower()
        require(('normal' in words) == (df is None) and ('student' in words) == (df is not None), 'labels %r' % words)
        lo, hi = ax.get_xlim()
        require(lo < x.min() and hi > x.max(), 'the points are on the rim: %s' % ((lo, hi),))
        lo, hi = ax.get_ylim()
        require(lo < hi and lo <= -3 and hi >= 3, 'range of the quantiles %s' % ((lo, hi),))
        if perc and df is None:
            from matplotlib.collections import LineCollection
            y = sorted(s[0][1] for c in ax.collections if isinstance(c, LineCollection) for s in c.get_segments())
            t = sorted((w.get_position()[1], float(w.get_text().strip('%'))) for w in ax.texts)
            require(len(y) == len(t) > 5, '%d lines and %d texts' % (len(y), len(t)))
            for u, (v, p) in zip(y, t):
                require(u == v and abs(math.erfc(-u / math.sqrt(2)) * 50 - p) < 0.011, 'the line at %s is named %s per cent' % (u, p))
        else:
            require(perc or not ax.texts, 'percentiles that were not asked for')
    finally:
        mplt.close(fig)
    require(np.array_equal(x, keep), 'the sample was changed')
    for bad in (0, -1, 2.5):
        try:
            wp.plotnorm(x, df=bad)
        except ValueError:
            continue
        raise Fail('df=%r is accepted' % bad)


def f_qq(case):
    from wafo.stats import plot as wp
    x, y, method = case
    xs, ys = list(x), list(y)
    fig, ax = newax()
    try:
        quiet(wp.plotqq, np.array(x, float), np.array(y, float), method=method, ax=ax)
        tick(1)
        n = min(len(x), len(y))
        gx, gy = [np.asarray(v) for v in ax.lines[0].get_data()]
        require(len(gx) == n, '%d points of samples of %d and %d' % (len(gx), len(x), len(y)))
        p = [100 * (i + 0.5) / n for i in range(n)]
        if len(x) <= len(y) and not len(x) == len(y):
            close(gx, sorted(x), 'shorter sample', 1e-12, 1e-12)
            close(gy, np.percentile(ys, p, method=method), 'quantiles of the longer sample', 1e-9, 1e-9)
        else:
            close(gy, sorted(y), 'shorter sample', 1e-12, 1e-12)
            close(gx, np.percentile(xs, p, method=method), 'quantiles of the longer sample', 1e-9, 1e-9)
        A = np.vstack((np.ones(n), gx)).T
        if n > 1 and np.ptp(gx) > 0:
            a, b = np.linalg.lstsq(A, gy, rcond=None)[0]
            close(ax.lines[1].get_ydata(), a + b * gx, 'fitted line', 1e-7, 1e-7)
    finally:
        mplt.close(fig)


def groups(tier):
    T = tier == 'thorough'
    A = [0., 1., -0.5]
    cases = [(x, list(f)) for x in XS for f in itertools.product(A + ([2.] if T and len(x) < 6 else []), repeat=len(x))]
    G = [Group('curves', cases, f_curve, chunk=8, note='every curve over {0,1,-0.5} on 7 grids: interpolation, every integral between quarter points, cdf')]
    G.append(Group('columns', [(x, c) for x in XS[:4] for c in itertools.product([[1.] * len(x), [float(k) for k in range(len(x))], [(-1.) ** k for k in range(len(x))], [0.25 * k * k for k in range(len(x))]], repeat=2)],
                   f_columns, chunk=4, note='matrices of columns and children'))
    G.append(Group('surfaces', [(x, y, c) for x in XS[:5] for y in XS[:5] for c in itertools.product([0., 1., -0.5], repeat=3)], f_surface, chunk=16, note='planes over every pair of grids'))
    P = [0.1, 0.5, 0.9, 0.]
    G.append(Group('transform', [(x, list(f), t) for x in XS[:4] for f in itertools.product(P, repeat=len(x)) for t in range(9)], f_trans, chunk=64, note='nine transformations'))
    G.append(Group('flags', [(k,) for k in range(10)], f_flags, chunk=1, note='names, scales and types of every plot flag'))
    dr = []
    curves = [([0.5, 1., 2.], [0.1, 0.4, 0.3]), ([1., 2., 4., 8.], [0.02, 0.05, 0.04, 0.01])] + ([([1., 1.5], [0.3, 0.6])] if T else [])
    for (x, f) in curves:
        for tid in range(9):
            for pt in (1, 2, 3, 4, 5, 6, 7):
                for ci in (0, 1):
                    if pt in (4, 7) and (not ci or tid in (1, 3, 5, 6, 7)):
                        continue
                    for sc in ((0, 1) if tid >= 4 else (0, 1, 2, 3)):
                        dr.append((x, f, tid, pt, ci, sc))
    G.append(Group('draw', dr, f_draw, chunk=8, note='plot flags: what is drawn equals the transformed data'))
    G.append(Group('draw2d', [(nx, ny, fl, t) for nx in (3, 4, 5) for ny in (2, 3, 4) for fl in (1, 5, 6, 7, 8, 9, 10) for t in ('', 'T')], f_draw2, chunk=4, note='surfaces'))
    lv = [1.0, 2.5, 4.0, 5.5]
    G.append(Group('levels', [(list(v), p, fl) for n in (1, 2, 3, 4) for v in itertools.permutations(lv, n) for fl in (1, 8, 9) for p in ([], [90, 50, 25.5, 10][:n])] +
                   [([0.25 * k for k in range(1, n)], [], 1) for n in range(10, 20)], f_levels, chunk=8, note='every ordered choice of up to 4 levels, up to 19 levels'))
    G.append(Group('children', [(n, c, s, fl) for n in (0, 1, 2, 3) for c in (1, 2, 3) for s in ('own', 'init', 'call') for fl in (0, 1)], f_children, chunk=4))
    G.append(Group('histories', [s for n in range(1, 6 if T else 5) for s in itertools.product(OPS, repeat=n)], f_hist, chunk=64, note='operation sequences up to length 4 (5 thorough)'))
    G.append(Group('texts', [(M, N, f, m, sc) for M in (2, 3) for N in (2, 3) for f in ('none', 'vector', 'matrix') for m in (0, 1) for sc in (1, 0.4, 2.0)], f_texts, chunk=4,
                   note='numbers on field plots and level texts: positions, values, replacement'))
    S = [list(v) for n in (3, 4) for v in itertools.product((0., 1., 2.5), repeat=n) if len(set(v)) > 1]
    G.append(Group('normal-paper', [((c,), l, p, None) for c in S for l in (0, 1) for p in (0, 1)] + [((c, list(reversed([2 * v + 1 for v in c]))), 1, 0, None) for c in S[:24]]
                   + [((c,), 1, 1, d) for c in S[:12] + [list(range(8)), [k * k % 13 for k in range(12)]] for d in (2, 3, 4, 10, 50)], f_normplot, chunk=8, note='every sample over {0,1,2.5} of 3 or 4 values'))
    G.append(Group('qq', [(a, b, m) for a in S[::4] for b in S[::3] for m in ('linear', 'hazen')], f_qq, chunk=16, note='pairs of samples of equal and unequal sizes'))
    return G
