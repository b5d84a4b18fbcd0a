"""Reference model for Geom1D: a set of cells between cut points.

k cut points give k+1 open cells (the first and last unbounded); a mask says
which cells are in.  Uses nothing from plycutter."""
import math
from gmpy2 import mpq as Q

INF = math.inf

CUTS = {
    'long40': [Q(3 * i - 50, 2) for i in range(40)],
    'int': [Q(i) for i in range(-3, 6)],
    'frac': [Q(-7, 3), Q(-1, 7), Q(0), Q(1, 9), Q(1, 3), Q(1, 2), Q(22, 7),
             Q(10, 3), Q(100, 7)],
    'tiny': [Q(5) + Q(i, 10 ** 15) for i in range(9)],
    'huge': [Q(-10 ** 30), Q(-10 ** 15, 3), Q(-1), Q(0), Q(1, 10 ** 9), Q(2),
             Q(10 ** 15, 7), Q(10 ** 15, 6), Q(10 ** 30)],
    # beyond what a float can hold
    'beyond': [Q(-10 ** 400), Q(-10 ** 310), Q(-1, 10 ** 400), Q(0),
               Q(1, 10 ** 400), Q(10 ** 310), Q(10 ** 310) + 1,
               Q(10 ** 400), Q(10 ** 800)],
}


def cells(cuts):
    e = [-INF] + list(cuts) + [INF]
    return list(zip(e, e[1:]))


def intervals(cuts, mask):
    """Maximal runs of the cells in the mask."""
    out = []
    for i, (lo, hi) in enumerate(cells(cuts)):
        if mask >> i & 1:
            if out and out[-1][1] == lo:
                out[-1] = (out[-1][0], hi)
            else:
                out.append((lo, hi))
    return out


def sample(lo, hi):
    if lo == -INF and hi == INF:
        return Q(0)
    if lo == -INF:
        return hi - 1
    if hi == INF:
        return lo + 1
    return (lo + hi) / 2


def measure(cuts, mask):
    t = 0
    for i, (lo, hi) in enumerate(cells(cuts)):
        if mask >> i & 1:
            t += INF if INF in (hi, -lo) else hi - lo
    return t


def from_intervals(ivs, cuts):
    """Mask of a list of intervals whose ends are cut points or inf."""
    m = 0
    for i, (lo, hi) in enumerate(cells(cuts)):
        for a, b in ivs:
            if a <= lo and hi <= b:
                m |= 1 << i
    return m


def problem(g, cuts, mask):
    """Does the Geom1D g represent the cells of mask, canonically?"""
    want = intervals(cuts, mask)
    got = [tuple(iv) for iv in g.get_intervals()]
    if got != want:
        return 'intervals %s, expected %s' % (
            [(str(a), str(b)) for a, b in got],
            [(str(a), str(b)) for a, b in want])
    if bool(g.is_empty()) != (mask == 0):
        return 'is_empty() is %s' % g.is_empty()
    for i, (lo, hi) in enumerate(cells(cuts)):
        p = sample(lo, hi)
        w = 1 if mask >> i & 1 else -1
        if g.locate(p) != w:
            return 'locate(%s) is %s, expected %s' % (p, g.locate(p), w)
    ends = {e for iv in want for e in iv}
    for i, c in enumerate(cuts):
        inside = mask >> i & 1
        above = mask >> (i + 1) & 1
        w = 0 if c in ends else (1 if inside and above else -1)
        if g.locate(c) != w:
            return 'locate(%s) is %s, expected %s' % (c, g.locate(c), w)
    if g.measure1d() != measure(cuts, mask):
        return 'measure1d() is %s, expected %s' % (g.measure1d(),
                                                   measure(cuts, mask))
    bounded = not (mask & 1 or mask >> len(cuts) & 1)
    if bool(g.is_bounded()) != bounded:
        return 'is_bounded() is %s' % g.is_bounded()
    return None


def snapshot(g):
    return tuple(tuple(iv) for iv in g.get_intervals())
