"""Importing shapely geometry keeps the point set."""
import itertools

from gmpy2 import mpq as Q

from .. import geo, layouts
from ..g2x import World

PID = 'C29'
LEVEL = 'exploration'
CPU_LIMIT = 60
RULE = ('every subset of the interior-disjoint atoms of a partition layout '
        'and every pair expression over overlapping layouts (holes, '
        'islands, several pieces, nothing) is built with shapely, handed '
        'over as Polygon, MultiPolygon or GeometryCollection with every '
        'ring orientation, and imported: the result must be exactly the '
        'same set and must behave as such in further operations. Distinct = '
        '(layout, set, container, orientation).')
ASSUMPTIONS = ['coordinates are dyadic, so floats hold them exactly']
PART = ('sq32', 'pin', 'brick', 'tri12')
OVER = ('venn3', 'nest', 'isles', 'nonconv', 'comb')


def bounds(tier):
    return dict(partitions=PART, overlaps=OVER, containers=4, orientations=4,
                corners='3..39, 48, 63..67, 80, 127..130, 200, 257')


def items(tier):
    out = []
    for l in PART:
        n = len(layouts.PARTITIONS[l])
        for k in range(1 << n):
            out.append(['m', l, k])
    for l in OVER:
        n = min(len(layouts.OVERLAPS[l]), 3 if tier == 'quick' else 5)
        for a, b in itertools.permutations(range(n), 2):
            for c in range(n):
                out.append(['x', l, a, b, c])
    out.append(['empty'])
    for j in range(0, 14):
        for i in range(9):
            out.append(['size', j, i])
    for n in list(range(3, 40)) + [48, 63, 64, 65, 66, 67, 80, 127, 128, 129,
                                   130, 200, 257]:
        out.append(['long', n])
    return [out[i::48] for i in range(48)]


def work(item, rec):
    for it in item:
        if it == ['empty']:
            for k in range(4):
                rec.check(it + [k])
            continue
        for cont in ('plain', 'multi', 'coll'):
            for o in range(4):
                rec.check(it + [cont, o])
                if rec.stop:
                    return


def rewind(p, o):
    """Ring orientations and start points."""
    import shapely.geometry as sg

    def r(ring, rev, k):
        c = list(ring.coords)[:-1]
        if rev:
            c = c[::-1]
        k %= len(c)
        c = c[k:] + c[:k]
        return c + c[:1]
    return sg.Polygon(r(p.exterior, o & 1, o),
                      [r(h, o & 2, o) for h in p.interiors])


def run_case(case, rec):
    import shapely
    import shapely.geometry as sg
    from plycutter.geometry.geom2d import Geom2D
    rec.outcome(case)
    if case[0] == 'empty':
        e = [sg.Polygon(), sg.MultiPolygon(), sg.GeometryCollection(),
             sg.box(0, 0, 1, 1).difference(sg.box(-1, -1, 2, 2))][case[1]]
        g = Geom2D.from_shapely(e)
        if not g.is_empty() or g.area() != 0 or g.polygons():
            return 'importing %s gives %s' % (e, g)
        return None
    if case[0] == 'size':
        return sizes(*case[1:])
    if case[0] == 'long':
        return many_corners(*case[1:])
    cont, o = case[-2:]
    w = World.get(case[1], 'id')
    sh = [sg.Polygon([(float(a), float(b)) for a, b in r]) for r in w.rings]
    if case[0] == 'm':
        sel = [k for k in range(len(sh)) if case[2] >> k & 1]
        s = shapely.union_all([sh[k] for k in sel]) if sel else sg.Polygon()
        mask = 0
        for k in sel:
            mask |= w.gmask[k]
    else:
        a, b, c = case[2:5]
        s = sh[a].difference(sh[b]).union(sh[c].intersection(sh[b])) \
            .symmetric_difference(sh[c])
        m = [w.gmask[k] for k in (a, b, c)]
        mask = ((m[0] & ~m[1]) | (m[2] & m[1])) ^ m[2]
    polys = [p for p in (s.geoms if hasattr(s, 'geoms') else [s])
             if p.geom_type == 'Polygon' and not p.is_empty]
    # new vertices made by shapely must be exact for an exact comparison
    for p in polys:
        for r in [p.exterior] + list(p.interiors):
            for x in r.coords:
                if any(v * 64 != int(v * 64) for v in x):
                    rec.count('skipped_rounded')
                    return None
    polys = [rewind(p, o) for p in polys]
    if cont == 'plain':
        if len(polys) > 1:
            return None
        s = polys[0] if polys else sg.Polygon()
    elif cont == 'multi':
        s = sg.MultiPolygon(polys)
    else:
        s = sg.GeometryCollection(polys)
    wkt = s.wkt
    g = Geom2D.from_shapely(s)
    if s.wkt != wkt:
        return 'the input geometry changed'
    d = geo.compare(w.dec, g, mask)
    if d:
        return d
    h = g - w.gens[0]
    d = geo.compare(w.dec, h, mask & ~w.gmask[0])
    if d:
        return 'after subtracting: ' + d
    h = w.gens[-1] | g
    d = geo.compare(w.dec, h, mask | w.gmask[-1])
    if d:
        return 'after union: ' + d
    return None


def sizes(j, i, cont, o):
    """A 64 x 64 plate with holes and islands of size 2^-j; every subset of
    three of them, at nine places of a grid."""
    import shapely.geometry as sg
    from plycutter.geometry.geom2d import Geom2D
    d = 2.0 ** -j
    x, y = 8 + 20 * (i % 3), 8 + 20 * (i // 3)
    small = [(x, y), (x + 4, y), (100 + x, y)]
    for k in range(1, 8):
        holes = [[(a, b), (a + d, b), (a + d / 2, b + d)]
                 for n, (a, b) in enumerate(small) if k >> n & 1 and a < 99]
        polys = [sg.Polygon([(0, 0), (64, 0), (64, 64), (0, 64)], holes)]
        if k & 4:
            a, b = small[2]
            polys.append(sg.Polygon([(a, b), (a + d, b), (a + d / 2, b + d)]))
        polys = [rewind(p, o) for p in polys]
        if cont == 'plain':
            if len(polys) > 1:
                continue
            s = polys[0]
        elif cont == 'multi':
            s = sg.MultiPolygon(polys[::-1])
        else:
            s = sg.GeometryCollection(polys)
        g = Geom2D.from_shapely(s)
        t = Q(d) * Q(d) / 2
        want = 64 * 64 + (t if k & 4 else 0) - len(holes) * t
        if g.area() != want:
            return 'area %s, expected %s (small ones %d)' % (
                g.area(), want, k)
        for n, (a, b) in enumerate(small):
            inside = g.locate((Q(a) + Q(d) / 2, Q(b) + Q(d) / 2))
            w = 1 if bool(k >> n & 1) == (n == 2) else -1
            if inside != w:
                return 'locate at small feature %d is %s' % (n, inside)
    return None


def many_corners(n, cont, o):
    """A ring with n corners as outer boundary, and as a hole."""
    import shapely.geometry as sg
    from plycutter.geometry.geom2d import Geom2D
    # strictly convex, whole coordinates, scaled by 1/4
    ring = [(i, i * i) for i in range(n - 1)] + [(-n, n * n)]
    # as below the parabola's chord: all turns go one way
    s2 = abs(sum(a[0] * b[1] - a[1] * b[0]
                 for a, b in zip(ring, ring[1:] + ring[:1])))
    pts = [(x / 4, y / 4) for x, y in ring]
    area = Q(s2, 2) / 16
    b = n * n
    frame = [(-b, -b), (b, -b), (b, b), (-b, b)]
    for hole in (False, True):
        poly = rewind(sg.Polygon(frame, [pts]) if hole else sg.Polygon(pts),
                      o)
        s = poly if cont == 'plain' else sg.MultiPolygon([poly]) \
            if cont == 'multi' else sg.GeometryCollection([poly])
        g = Geom2D.from_shapely(s)
        want = 4 * Q(b) * b - area if hole else area
        if g.area() != want:
            return 'a ring of %d corners gives area %s instead of %s' % (
                n, g.area(), want)
        for x, y in pts:
            if g.locate((Q(x), Q(y))) != 0:
                return 'corner %s of %d is not on the boundary' % (
                    (x, y), n)
        u = g | g
        if u.area() != want:
            return 'the union with itself has area %s' % u.area()
    return None
