"""The DXF file holds every part exactly once, moved but not changed."""
import itertools
import os

from gmpy2 import mpq as Q

from .. import core, dxf

PID = 'C22'
LEVEL = 'exploration'
CPU_LIMIT = 60
RULE = ('every ordered choice of up to three parts from an alphabet of part '
        'shapes (empty, several pieces, holes, 25 holes and 15 pieces, islands in holes, negative '
        'and far coordinates, tiny, non-convex, touching at a vertex) is '
        'written with write_dxf and read back: every boundary must be one '
        'finite closed curve, each part moved by a single translation, the '
        'parts of different sheets must not overlap, and nothing else may '
        'be in the file. Distinct = ordered choice.')
ASSUMPTIONS = ['coordinates are compared to 1e-6']
N = 12


def bounds(tier):
    return dict(shapes=N, max_parts=3 if tier == 'quick' else 4)


def items(tier):
    out = [['small']]
    out += [[a, b] for a in range(N) for b in range(N)]
    if tier == 'thorough':
        out += [[a, b, 4] for a in range(N) for b in range(N)]
    return out


def work(item, rec):
    if item == ['small']:
        rec.check([])
        for a in range(N):
            rec.check([a])
            for b in range(N):
                rec.check([a, b])
                if rec.stop:
                    return
        return
    for c in range(N):
        if len(item) == 2:
            rec.check(item + [c])
        else:
            for d in range(N):
                rec.check(item[:2] + [c, d])
        if rec.stop:
            return


def many(box):
    """A part with 25 holes and 14 more pieces."""
    g = box(0, 0, 31, 31)
    for i in range(5):
        for j in range(5):
            g = g - box(1 + 6 * i, 1 + 6 * j, 5 + 6 * i, 4 + 6 * j)
    for i in range(14):
        g = g | box(-9, 3 * i, -8, 3 * i + 2)
    return g


_sh = []


def shapes():
    if not _sh:
        from plycutter.geometry.geom2d import Geom2D as G

        def box(x0, y0, x1, y1):
            return G.polygon([(Q(x0), Q(y0)), (Q(x1), Q(y0)), (Q(x1), Q(y1)),
                              (Q(x0), Q(y1))], reorient=True)
        ell = G.polygon([(Q(x), Q(y)) for x, y in (
            (0, 0), (8, 0), (8, 2), (2, 2), (2, 9), (0, 9))], reorient=True)
        tri = G.polygon([(Q(1, 3), Q(-7)), (Q(11, 2), Q(1, 7)),
                         (Q(-2), Q(3))], reorient=True)
        _sh.extend([
            G.empty(),
            box(0, 0, 5, 3),
            box(-20, -9, -13, -2),
            box(0, 0, 4, 4) | box(10, 3, 12, 9) | box(-7, -7, -6, -5),
            box(1, 1, 9, 9) - box(3, 3, 7, 7),
            (box(0, 0, 12, 12) - box(1, 1, 11, 11)) | box(4, 4, 6, 8),
            ell - box(Q(1, 2), Q(1, 2), Q(3, 2), Q(3, 2)),
            tri,
            box(Q(10**6), Q(-10**6), Q(10**6) + 3, Q(-10**6) + Q(1, 3)),
            box(0, 0, Q(1, 100), Q(1, 50)),
            box(0, 0, 2, 2) | box(2, 2, 5, 4),
            many(box),
        ])
        assert len(_sh) == N
    return _sh


def run_case(case, rec):
    w = core.seam('plycutter.writer', 'write_dxf')
    sh = shapes()
    # ids in an order that is not alphabetical
    geoms = {'s%d' % (7 * (i + 1) % 4): sh[k] for i, k in enumerate(case)}
    path = os.path.abspath('c22-%d.dxf' % os.getpid())
    if len(case) % 2:
        with open(path, 'w') as f:
            f.write('old contents')
    try:
        w(path, geoms)
        rec.outcome(case)
        try:
            cs = dxf.curves(path)
        except ValueError as e:
            return str(e)
        return dxf.match({k: dxf.rings(g) for k, g in geoms.items()}, cs)
    finally:
        if os.path.exists(path):
            os.remove(path)
