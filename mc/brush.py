"""Oracle for Geom2D.buffer: Minkowski sum / erosion with the brush that the
code uses for one square, derived from its result and checked to be a disc
approximation."""
import math

import shapely
import shapely.geometry as sg
from gmpy2 import mpq as Q

from . import geo

_brush = {}


def support(ring, d):
    return max(p[0] * d[0] + p[1] * d[1] for p in ring)


def brush(r):
    """Exact convex ring of the brush of radius r > 0, from the buffer of a
    square; raises AssertionError when it is no disc approximation."""
    r = Q(r)
    if r in _brush:
        return _brush[r]
    from plycutter.geometry.geom2d import Geom2D
    s = [(Q(0), Q(0)), (r, Q(0)), (r, r), (Q(0), r)]
    g = Geom2D.polygon(s, reorient=True).buffer(r)
    assert len(g.polygons()) == 1 and not list(g.holes()), \
        'a grown square is not one piece without holes'
    ring = [geo.pt(p) for p in g.exterior()]
    if geo.shoelace(ring) < 0:
        ring.reverse()
    # half planes  d.x <= h_R(d) - h_S(d)  for every edge normal d of R
    planes = []
    for a, b in geo.edges(ring):
        d = (b[1] - a[1], a[0] - b[0])
        planes.append((d, support(ring, d) - support(s, d)))
    poly = [(-4 * r, -4 * r), (4 * r, -4 * r), (4 * r, 4 * r),
            (-4 * r, 4 * r)]
    for d, h in planes:
        out = []
        for a, b in geo.edges(poly):
            va = a[0] * d[0] + a[1] * d[1] - h
            vb = b[0] * d[0] + b[1] * d[1] - h
            if va <= 0:
                out.append(a)
            if (va < 0 < vb) or (vb < 0 < va):
                t = va / (va - vb)
                out.append((a[0] + t * (b[0] - a[0]),
                            a[1] + t * (b[1] - a[1])))
        poly = []
        for p in out:
            if not poly or poly[-1] != p:
                poly.append(p)
        if len(poly) > 1 and poly[0] == poly[-1]:
            poly.pop()
        assert len(poly) >= 3, 'a grown square is too small'
    for p in poly:
        n = math.hypot(float(p[0]), float(p[1])) / float(r)
        assert n <= 1.01, 'brush of radius %s reaches %.4f r' % (r, n)
    for a, b in geo.edges(poly):
        ln = math.hypot(float(b[0] - a[0]), float(b[1] - a[1]))
        dist = float(geo.cross(a, b, (Q(0), Q(0)))) / ln / float(r)
        assert dist >= 0.9, 'brush of radius %s has only %.4f r in one ' \
            'direction' % (r, dist)
    neg = sorted((-x, -y) for x, y in poly)
    assert neg == sorted(poly), 'the brush is not symmetric'
    _brush[r] = poly
    return poly


def fring(r):
    return [(float(x), float(y)) for x, y in r]


def to_shapely(g, k=1):
    def ring(r):
        return fring(r) if k == 1 else [(float(geo.pt(p)[0] / k),
                                         float(geo.pt(p)[1] / k)) for p in r]
    ps = []
    for p in g.polygons():
        ps.append(sg.Polygon(ring(p.exterior()),
                             [ring(h) for h in p.holes()]))
    return shapely.union_all(ps) if ps else sg.Polygon()


def dilate_quads(quads, br):
    out = []
    for q in quads:
        pts = [(float(a[0] + b[0]), float(a[1] + b[1]))
               for a in q for b in br]
        out.append(sg.MultiPoint(pts).convex_hull)
    return shapely.union_all(out) if out else sg.Polygon()


def expected(dec, mask, r, k=1):
    """shapely shape of the buffered point set (brush of radius k r, shown
    at 1/k of its size)."""
    inside = [dec.traps[i][0] for i in range(len(dec.traps))
              if dec.trap_in(i, mask)]
    if r == 0:
        return shapely.union_all([sg.Polygon(fring(q)) for q in inside]) \
            if inside else sg.Polygon()
    br = brush(abs(r * k))
    if k != 1:
        br = [(x / k, y / k) for x, y in br]
    if r > 0:
        return dilate_quads(inside, br)
    xs = [v[0] for v in dec.vertices]
    ys = [v[1] for v in dec.vertices]
    m = 2 * abs(r) + 1
    x0, x1, y0, y1 = min(xs) - m, max(xs) + m, min(ys) - m, max(ys) + m
    # the complement in a frame: the trapezoids outside plus whatever lies
    # outside the decomposition
    shape = shapely.union_all([sg.Polygon(fring(q)) for q in inside]) \
        if inside else sg.Polygon()
    frame = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
    comp = complement_quads(dec, mask, frame)
    return shape.difference(dilate_quads(comp, br))


def complement_quads(dec, mask, frame):
    key = (mask, tuple(frame))
    cache = dec.__dict__.setdefault('_comp', {})
    if key not in cache:
        big = geo.Decomp(dec.rings, frame)
        cache.clear()
        cache[key] = [t[0] for i, t in enumerate(big.traps)
                      if not (t[3] and mask >> dec.atom_of[t[3]] & 1)]
    return cache[key]


def slit_problem(g):
    """No stretch of boundary is used twice; rings are proper."""
    rings = geo.rings_of(g)
    vs = sorted({p for r in rings for p in r})
    seen = set()
    for r in rings:
        if len(r) < 3 or geo.shoelace(r) == 0:
            return 'degenerate ring'
        for a, b in geo.edges(r):
            if a == b:
                return 'repeated vertex'
            lo, hi = min(a[0], b[0]), max(a[0], b[0])
            on = [v for v in vs if lo <= v[0] <= hi
                  and geo.on_segment(a, b, v)]
            on.sort(key=lambda v: (v[0] - a[0]) ** 2 + (v[1] - a[1]) ** 2)
            for e in zip(on, on[1:]):
                k = tuple(sorted(e))
                if k in seen:
                    return 'boundary runs twice along %s-%s' % (
                        geo.fl(k[0]), geo.fl(k[1]))
                seen.add(k)
    return None


def problem(dec, g0, mask, r, g, k=1):
    """g is supposed to be g0.buffer(r); with k, both are k times as big as
    dec and r say."""
    want = expected(dec, mask, r, k)
    got = to_shapely(g, k)
    scale = max([float(abs(c)) for v in dec.vertices for c in v] + [1.0,
                float(abs(r))])
    span = max(float(max(v[i] for v in dec.vertices) -
                     min(v[i] for v in dec.vertices)) for i in (0, 1)) + \
        float(abs(r))
    tol = 1e-9 * span * scale
    d = want.symmetric_difference(got)
    if d.area > tol:
        c = d.representative_point()
        return ('buffer(%s): %s of area %.3g near (%.6g, %.6g)' % (
            r, 'extra material' if got.contains(c) else 'missing material',
            d.area, c.x, c.y))
    area = float(g.area() / (k * k))
    if abs(area - want.area) > tol:
        return 'buffer(%s): area %.9g, expected %.9g' % (
            r, area, want.area)
    if bool(g.is_empty()) != (g.area() == 0):
        return 'is_empty() is %s for area %s' % (g.is_empty(), g.area())
    if r > 0 and mask and g.is_empty():
        return 'growing a non-empty set gives the empty set'
    return slit_problem(g)
