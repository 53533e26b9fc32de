"""Reference models for signal decomposition.  Written from the definitions, on exact integer/rational data, with no
code in common with the implementation: each is a plain declarative rule evaluated by brute force."""


def sgn(a):
    return (a > 0) - (a < 0)


def crossings(s):
    """s: signs of (x - v).  Index i is a crossing iff the sample after it lies strictly on one side and the last
    sample at or before i that is off the level lies on the other side (or there is none: the record starts on the
    level).  Returns [(index, direction)]."""
    out = []
    last = 0
    for i in range(len(s) - 1):
        if s[i] != 0:
            last = s[i]
        nxt = s[i + 1]
        if nxt != 0 and last != nxt:
            out.append((i, nxt))
    return out


def select(cr, kind):
    """The documented selection of crossings for a crossing/wave definition."""
    if kind in (None, 'du', 'all'):
        return list(cr)
    if kind == 'd':
        return [c for c in cr if c[1] < 0]
    if kind == 'u':
        return [c for c in cr if c[1] > 0]
    want = -1 if kind in ('dw', 'tw') else 1
    c = list(cr)
    while c and c[0][1] != want:
        c.pop(0)
    odd = kind in ('dw', 'uw')
    if c and (len(c) % 2 == 1) != odd:
        c.pop()
    return c


def extrema(x):
    """Indices of turning points: where the signal leaves a local extreme (last sample of a plateau)."""
    d = [sgn(x[i + 1] - x[i]) for i in range(len(x) - 1)]
    return [i + 1 for i, _ in crossings(d)]


def rainflow_cycles(y):
    """Rychlik's toplevel-up definition.  y: strictly alternating turning points that begin with a minimum.  For each
    maximum M (odd index i): go left / right from it as long as the signal does not exceed M (left) / stays below M
    (right); m- and m+ are the lowest values met.  The rainflow minimum is the higher of the two, or m- if the signal
    never comes back up to M on the right.  Returns [(index of max, index of min, from_left)]."""
    n = len(y)
    out = []
    for i in range(1, n, 2):
        M = y[i]
        lo = i - 1
        k = i - 1
        while k >= 0 and y[k] <= M:
            if y[k] < y[lo]:
                lo = k
            k -= 1
        # (a minimum is only passed together with the maximum before it)
        hi, k, back = None, i + 1, False
        while k < n:
            if y[k] >= M:
                back = True
                break
            if hi is None or y[k] <= y[hi]:
                hi = k
            k += 1
        if back and hi is not None and y[hi] > y[lo]:
            out.append((i, hi, False))
        else:
            out.append((i, lo, True))
    return out


def rainflow_indices(y, h):
    """Sorted indices to the rainflow cycles of height >= h."""
    start = 1 if y[0] > y[1] else 0
    z = y[start:]
    if len(z) < 2:
        return []
    ind = []
    for iM, im, _ in rainflow_cycles(z):
        if z[iM] - z[im] >= h:
            ind += [iM + start, im + start]
    return sorted(ind)


def hysteresis_filter(x, h, strict):
    """Turning points that survive a hysteresis of width h (strict: ranges must exceed h, else reach it)."""
    def big(d):
        return d > h if strict else d >= h
    tps = [0]
    dirn = 0
    cand = 0
    for i in range(1, len(x)):
        d = x[i] - x[cand]
        if dirn == 0:
            if big(-d):
                dirn, cand = -1, i
            elif big(d):
                dirn, cand = 1, i
        elif dirn * d >= 0:
            cand = i
        elif big(-dirn * d):
            tps.append(cand)
            dirn, cand = -dirn, i
    return tps, cand, dirn


def astm(y):
    """ASTM E1049-85, 5.4.4 rainflow counting, on a list of (value, time) reversals.
    Returns [(range, mean, count, begin time, period)]."""
    pts, out = [], []
    for p in y:
        pts.append(p)
        while len(pts) >= 3:
            X = abs(pts[-1][0] - pts[-2][0])
            Y = abs(pts[-2][0] - pts[-3][0])
            if X < Y:
                break
            a, b = pts[-3], pts[-2]
            cyc = (Y, (a[0] + b[0]) / 2.0, a[1], 2 * (b[1] - a[1]))
            if len(pts) == 3:
                out.append((cyc[0], cyc[1], 0.5, cyc[2], cyc[3]))
                pts.pop(0)
            else:
                out.append((cyc[0], cyc[1], 1.0, cyc[2], cyc[3]))
                del pts[-3:-1]
    for a, b in zip(pts, pts[1:]):
        out.append((abs(a[0] - b[0]), (a[0] + b[0]) / 2.0, 0.5, a[1], 2 * (b[1] - a[1])))
    return out


def alternating(alphabet, n):
    """All strictly alternating words (turning point sequences) of length n over an ordered alphabet."""
    def rec(w, up):
        if len(w) == n:
            yield list(w)
            return
        for a in alphabet:
            if not w or (a > w[-1] if up else a < w[-1]):
                w.append(a)
                yield from rec(w, not up)
                w.pop()
    if n == 1:
        for a in alphabet:
            yield [a]
        return
    yield from rec([], True)
    yield from rec([], False)
