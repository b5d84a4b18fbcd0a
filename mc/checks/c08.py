"""Point location and area of every small simple polygon (with holes)."""
import itertools

from gmpy2 import mpq as Q

from .. import geo, layouts

PID = 'C08'
LEVEL = 'exploration'
RULE = ('every simple lattice polygon of the 3x3 lattice with up to N '
        'vertices (all start vertices, collinear vertices included), and '
        'every one of them as a hole of a frame, and combs, saws, spirals '
        'and stars of up to 50 vertices, x every half-lattice query '
        'point in and around it, in several embeddings; compared with an '
        'independent even-odd test and the shoelace area. Distinct = '
        'polygon and embedding.')
ASSUMPTIONS = []


def bounds(tier):
    return dict(lattice='3x3', max_vertices=nmax(tier), embeddings=embs(tier),
                long=sorted(long_polys()),
                holes='every polygon up to 5 vertices in a frame, and pairs '
                'of unit triangles')


def nmax(tier):
    return 7 if tier == 'quick' else 8


def embs(tier):
    return ['id', 'rot', 'swap', 'huge', 'tiny'] if tier == 'quick' else \
        list(layouts.EMB)


_p = {}


def simple_polys(k):
    """Simple polygons with exactly k lattice vertices, canonical start."""
    if k in _p:
        return _p[k]
    pts = [(x, y) for x in range(3) for y in range(3)]
    out = []

    def crosses(a, b, c, d):
        """Segments share any point (they have no common end)."""
        def o(p, q, r):
            v = (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
            return (v > 0) - (v < 0)
        o1, o2, o3, o4 = o(a, b, c), o(a, b, d), o(c, d, a), o(c, d, b)
        if o1 != o2 and o3 != o4:
            return True

        def on(p, q, r):
            return min(p[0], q[0]) <= r[0] <= max(p[0], q[0]) and \
                min(p[1], q[1]) <= r[1] <= max(p[1], q[1])
        return (o1 == 0 and on(a, b, c)) or (o2 == 0 and on(a, b, d)) or \
            (o3 == 0 and on(c, d, a)) or (o4 == 0 and on(c, d, b))

    def fold(a, b, c):
        """b-c runs back over a-b."""
        v = (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])
        d = (b[0] - a[0]) * (c[0] - b[0]) + (b[1] - a[1]) * (c[1] - b[1])
        return v == 0 and d < 0

    def ok_edge(path, nxt, closing):
        a, b = path[-1], nxt
        if len(path) > 1 and fold(path[-2], a, b):
            return False
        segs = list(zip(path, path[1:]))
        for i, (c, d) in enumerate(segs):
            if d == a or (closing and i == 0):
                continue
            if crosses(c, d, a, b):
                return False
        if closing and fold(a, b, path[1]):
            return False
        return True

    def rec(path):
        if len(path) == k:
            if ok_edge(path, path[0], True) and geo.shoelace(path) < 0:
                out.append(list(path))
            return
        for q in pts:
            if q in path or q < path[0]:
                continue
            # the new vertex must not lie on an earlier edge
            if ok_edge(path, q, False):
                rec(path + [q])
    for s in pts:
        rec([s])
    _p[k] = out
    return out


def long_polys():
    """Polygons with many vertices."""
    out = {}
    for k in (3, 6, 12):
        top = []
        for i in reversed(range(k)):
            h = 3 + i % 3
            top += [(2 * i + 1, h), (2 * i, h)]
            if i:
                top += [(2 * i, 1), (2 * i - 1, 1)]
        out['comb%d' % k] = [(0, 0), (2 * k - 1, 0)] + top
        out['saw%d' % k] = [(0, 0), (2 * k, 0)] + [
            (i, 1 + (i % 2) * (1 + i % 3)) for i in range(2 * k, -1, -1)]
    for n in (2, 3, 4):
        # rectangular spiral of n turns, corridor width 1
        m = 4 * n
        path = [(0, 0), (m, 0)]
        for i in range(n):
            path += [(m - 2 * i, m - 2 * i), (2 * i, m - 2 * i),
                     (2 * i, 2 * i + 2), (m - 2 * i - 2, 2 * i + 2)]
        path.pop()
        nor = []
        for (xa, ya), (xb, yb) in zip(path, path[1:]):
            sx = (xb > xa) - (xb < xa)
            sy = (yb > ya) - (yb < ya)
            nor.append((-sy, sx))
        off = [tuple(path[i][c] + sum(v[c] for v in nor[max(0, i - 1):i + 1])
                     for c in (0, 1)) for i in range(len(path))]
        out['spiral%d' % n] = path + off[::-1]
    out['star'] = [(8, 0), (9, 6), (16, 3), (11, 8), (16, 13), (9, 10),
                   (8, 16), (7, 10), (0, 13), (5, 8), (0, 3), (7, 6)]
    # many collinear vertices
    out['fine'] = [(i, 0) for i in range(12)] + [(12, i) for i in range(9)] \
        + [(12 - i, 9) for i in range(12)] + [(0, 9 - i) for i in range(9)]
    return out


def simple(ring):
    es = geo.edges([geo.pt(p) for p in ring])
    n = len(es)
    for i in range(n):
        for j in range(i + 1, n):
            (a, b), (c, d) = es[i], es[j]
            pts = [p for p in (c, d) if geo.on_segment(a, b, p)] + \
                [p for p in (a, b) if geo.on_segment(c, d, p)]
            if j == i + 1 or i == 0 and j == n - 1:
                if len(set(pts)) > 1:
                    return False
            elif pts:
                return False
            else:
                o = [geo.cross(a, b, c) > 0, geo.cross(a, b, d) > 0,
                     geo.cross(c, d, a) > 0, geo.cross(c, d, b) > 0]
                if o[0] != o[1] and o[2] != o[3]:
                    return False
    return True


def items(tier):
    out = []
    for nm, p in sorted(long_polys().items()):
        if not simple(p):
            raise ValueError(nm)
        for e in embs(tier):
            out.append(['long', nm, e])
    for k in range(3, nmax(tier) + 1):
        n = len(simple_polys(k))
        for e in embs(tier):
            if tier == 'quick' and k >= 6 and e not in ('id', 'rot'):
                continue
            for lo in range(0, n, 60):
                out.append(['p', k, e, lo])
    for k in (3, 4, 5):
        for lo in range(0, len(simple_polys(k)), 30):
            out.append(['hole', k, 'id', lo])
    for m in range(4):
        out.append(['holes2', m])
    for n in (3, 5, 8) if tier == 'quick' else (3, 4, 5, 6, 8, 10):
        for kind in ('holes', 'pieces', 'frames', 'rings'):
            out.append(['many', kind, n])
    return out


def work(item, rec):
    if item[0] == 'long':
        p = long_polys()[item[1]]
        for rot in range(0, len(p), 5):
            rec.check({'p': p[rot:] + p[:rot], 'e': item[2]})
            rec.check({'p': (p[rot:] + p[:rot])[::-1], 'e': item[2]})
        return
    if item[0] == 'many':
        for e in ('id', 'rot', 'tiny'):
            rec.check({'many': item[1:], 'e': e})
        return
    if item[0] == 'p':
        for i in range(item[3], min(item[3] + 60, len(simple_polys(item[1])))):
            p = simple_polys(item[1])[i]
            # the start vertex matters to scan-line style code
            rots = range(len(p)) if item[1] <= 4 else \
                [i % len(p)]
            for rot in rots:
                rec.check({'p': p[rot:] + p[:rot], 'e': item[2]})
            if rec.stop:
                return
    elif item[0] == 'hole':
        for i in range(item[3], min(item[3] + 30, len(simple_polys(item[1])))):
            rec.check({'h': [simple_polys(item[1])[i]], 'e': item[2]})
            if rec.stop:
                return
    else:
        ps = simple_polys(3)
        small = [p for p in ps if abs(geo.shoelace(p)) == Q(1, 2)]
        for i, p in enumerate(small):
            for j, q in enumerate(small):
                q2 = [(x + 3, y) for x, y in q]
                if (i + j) % 4 == 0 and i % 4 == item[1]:
                    rec.check({'h': [p, q2], 'e': 'id'})
            if rec.stop:
                return


def many(kind, n, e, rec):
    """Sets of many pieces and holes: squares at (3i, 3j), by exact rule."""
    from plycutter.geometry.geom2d import Geom2D

    def box(x0, y0, x1, y1):
        return Geom2D.polygon([layouts.apply(e, p) for p in layouts.sq(
            x0, y0, x1, y1)], reorient=True)
    m = 3 * n
    if kind == 'rings':
        g, area = Geom2D.empty(), 0
        for i in range(n):
            b = box(2 * i, 2 * i, 4 * n - 2 * i, 4 * n - 2 * i)
            b = b - box(2 * i + 1, 2 * i + 1, 4 * n - 2 * i - 1,
                        4 * n - 2 * i - 1)
            g = g | b
            area += (4 * n - 4 * i) ** 2 - (4 * n - 4 * i - 2) ** 2
        m = 4 * n

        def inside(x, y):
            d = min(x, y, m - x, m - y)
            if d < 0 or d >= 2 * n:
                return -1
            return 0 if d == int(d) else 1 if int(d) % 2 == 0 else -1
    else:
        bars = [box(-1, 3 * i, m, 3 * i + 1) for i in range(n)] + \
            [box(3 * i, -1, 3 * i + 1, m) for i in range(n)]
        g = Geom2D.union(bars)
        if kind != 'holes':
            g = box(-2, -2, m + 1, m + 1) - g
        if kind == 'frames':
            # only the cells between the bars, each with a hole
            g = Geom2D.union([box(3 * i + 1, 3 * j + 1, 3 * i + 3, 3 * j + 3)
                              for i in range(n - 1) for j in range(n - 1)])
            h = Q(1, 2)
            g = g - Geom2D.union([
                box(3 * i + 1 + h, 3 * j + 1 + h, 3 * i + 3 - h,
                    3 * j + 3 - h)
                for i in range(n - 1) for j in range(n - 1)])
            area = 3 * (n - 1) ** 2
        else:
            area = 2 * n * (m + 1) - n * n
            if kind == 'pieces':
                area = (m + 3) ** 2 - area

        def cell(x, y):
            """In the union of the bars?"""
            if kind == 'frames':
                if not (0 < x < m and 0 < y < m):
                    return False
                u, v = x % 3, y % 3
                if x > 3 * (n - 1) or y > 3 * (n - 1):
                    return False
                return 1 < u < 3 and 1 < v < 3 and not (
                    1 + h < u < 3 - h and 1 + h < v < 3 - h)
            s = (0 <= x % 3 < 1 and 0 <= x < m and -1 < y < m) or \
                (0 <= y % 3 < 1 and 0 <= y < m and -1 < x < m)
            if kind == 'pieces':
                return -2 < x < m + 1 and -2 < y < m + 1 and not s
            return s

        def inside(x, y):
            d = Q(1, 97)
            near = {cell(x + a, y + b) for a in (-d, d) for b in (-d, d)}
            return 0 if len(near) > 1 else 1 if True in near else -1
    a = layouts.EMB[e]
    det = abs(Q(a[0][0]) * Q(a[1][1]) - Q(a[0][1]) * Q(a[1][0]))
    if g.area() != area * det:
        return 'area %s, expected %s' % (g.area(), area * det)
    rec.outcome(('many', kind, n, e))
    ks = range(-5, 2 * m + 6)
    for i in ks:
        for j in ks:
            if n > 4 and (i * 7 + j * 3) % 5:
                continue
            x, y = Q(i, 2), Q(j, 2)
            if kind in ('frames', 'holes', 'pieces') and (i + j) % 3 == 1:
                x, y = x + Q(1, 4), y + Q(1, 4)
            q = layouts.apply(e, (x, y))
            got, want = g.locate(q), inside(x, y)
            if got != want:
                return 'point (%s, %s) located %s, expected %s' % (
                    q[0], q[1], got, want)
    return None


def run_case(case, rec):
    if 'many' in case:
        return many(case['many'][0], case['many'][1], case['e'], rec)
    from plycutter.geometry.geom2d import Geom2D
    e = case['e']
    if 'p' in case:
        rings = [case['p']]
    else:
        rings = [[(-1, -1), (-1, 3), (6, 3), (6, -1)]] + case['h']
    ring = [[layouts.apply(e, p) for p in r] for r in rings]
    g = Geom2D.polygon(ring[0], reorient=True)
    for h in ring[1:]:
        g = g - Geom2D.polygon(h, reorient=True)
    rec.outcome((case.get('p'), case.get('h'), e))
    area = abs(geo.shoelace(ring[0])) - sum(abs(geo.shoelace(h))
                                            for h in ring[1:])
    if g.area() != area:
        return 'area %s, expected %s' % (g.area(), area)
    allp = [p for r in rings for p in r]
    x0, x1 = min(p[0] for p in allp) - 1, max(p[0] for p in allp) + 1
    y0, y1 = min(p[1] for p in allp) - 1, max(p[1] for p in allp) + 1
    for i in range(2 * x0, 2 * x1 + 1):
        for j in range(2 * y0, 2 * y1 + 1):
            q = layouts.apply(e, (Q(i, 2), Q(j, 2)))
            if any(geo.on_segment(a, b, q) for r in ring
                   for a, b in geo.edges(r)):
                want = 0
            else:
                want = 1 if sum(geo.even_odd(r, q) for r in ring) % 2 else -1
            got = g.locate(q)
            if got != want:
                return 'point (%s, %s) located %s, expected %s' % (
                    q[0], q[1], got, want)
    return None
