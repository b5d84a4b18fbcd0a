"""Growing and shrinking 2D sets is the exact Minkowski sum / erosion with a
disc-like brush, whatever the shape."""
import itertools
import math

from gmpy2 import mpq as Q

from .. import brush, geo, layouts
from ..g2x import World, mask_history
from .c08 import long_polys

PID = 'C07'
LEVEL = 'exploration'
CPU_LIMIT = 120
RULE = ('every union of cells of the partition layouts and every lattice '
        'triangle / quadrilateral, several embeddings, x every radius from a '
        'set that includes 0, radii that exactly close a gap or a hole and '
        'radii that erase the shape; compared (area of the symmetric '
        'difference) with the Minkowski sum of the trapezoids of the '
        'reference model and the brush read off one grown square. Distinct '
        '= (layout, point set, radius).')
ASSUMPTIONS = ['shapely is trusted for the unions of convex hulls the oracle '
               'is made of (float, relative tolerance 1e-9)']

RADII = [Q(1, 2), Q(1, 5), Q(1), Q(3, 2), Q(-1, 2), Q(-1, 5), Q(-1),
         Q(-1, 1000), Q(0), Q(1, 1000)]


def bounds(tier):
    return dict(radii=[str(r) for r in RADII],
                layouts=[list(x) for x in gens(tier)],
                lattice=lat(tier), long=longs(tier),
                long_radii=LONG_RADII, round=ROUND, scales=SCALES)


def lat(tier):
    return 3 if tier == 'quick' else 4


def gens(tier):
    if tier == 'quick':
        return [('sq32', 'id', 10), ('tri12', 'rot', 10), ('pin', 'id', 10),
                ('dia', 'id', 4), ('sq33', 'id', 2), ('tri22', 'shear', 2),
                ('brick', 'neg', 6)]
    return [(l, e, 10 if len(layouts.PARTITIONS[l]) < 9 else 6)
            for l in layouts.PARTITIONS
            for e in ('id', 'rot', 'shear', 'neg')]


def items(tier):
    out = []
    for l, e, nr in gens(tier):
        n = len(layouts.PARTITIONS[l])
        for lo in range(0, 1 << n, 8):
            out.append(['gen', l, e, nr, lo, min(1 << n, lo + 8)])
    for i in range(len(polys(lat(tier))) // 10 + 1):
        out.append(['poly', lat(tier), i, tier])
    for l in layouts.OVERLAPS:
        if l not in layouts.FINE:
            out.append(['over', l, tier])
    for n in longs(tier):
        for r in LONG_RADII:
            for fr in (0, 1):
                out.append(['long', n, r, fr])
    for n in ROUND:
        for r in LONG_RADII[:2]:
            out.append(['round', n, r])
    for k in SCALES:
        for i in range(0, 64, 8):
            out.append(['scale', k, i, tier])
    return out


LONG_RADII = ['1/5', '-1/5', '1/2', '-3/4', '1/1000', '-1/3']
ROUND = [33, 68, 130]
SCALES = ['1/1000000000', '1/100', '1000', '12345678901/7']


def longs(tier):
    names = sorted(long_polys())
    return names if tier == 'thorough' else \
        [n for n in names if len(long_polys()[n]) < 30]


_polys = {}


def polys(n):
    """Lattice triangles and simple quads of the n x n lattice, up to
    translation."""
    if n in _polys:
        return _polys[n]
    pts = [(x, y) for x in range(n) for y in range(n)]
    out = []
    for k in (3, 4):
        if k == 4 and n > 3:
            q = [(x, y) for x in range(3) for y in range(3)]
        else:
            q = pts
        for c in itertools.permutations(q, k):
            if c[0] != min(c) or min(p[0] for p in c) or \
                    min(p[1] for p in c):
                continue
            if any(geo.cross(c[i - 2], c[i - 1], c[i]) == 0
                   for i in range(k)):
                continue
            if geo.shoelace(c) <= 0:
                continue
            if k == 4 and any(
                    geo.seg_cross((geo.pt(c[i]), geo.pt(c[i + 1])),
                                  (geo.pt(c[i + 2]), geo.pt(c[(i + 3) % 4])))
                    for i in (0, 1)):
                continue
            if k == 4 and any(geo.on_segment(c[i - 3], c[i - 2], c[i]) or
                              geo.on_segment(c[i - 2], c[i - 1], c[i])
                              for i in range(4) if False):
                continue
            out.append([list(p) for p in c])
    _polys[n] = out
    return out


def work(item, rec):
    if item[0] == 'gen':
        _, l, e, nr, lo, hi = item
        n = len(layouts.PARTITIONS[l])
        for mask in range(lo, hi):
            rs = RADII[:nr] if nr >= 10 else \
                [RADII[(mask + i * 3) % len(RADII)] for i in range(nr)]
            for r in rs:
                rec.check({'l': l, 'e': e, 'h': mask_history(mask, n, 0),
                           'r': str(r)})
                if rec.stop:
                    return
    elif item[0] == 'poly':
        ps = polys(item[1])
        for i in range(item[2] * 10, min(len(ps), item[2] * 10 + 10)):
            for j, r in enumerate(RADII[:8]):
                if item[3] == 'thorough' or j < 2 or (j + i) % 3 == 0:
                    rec.check({'p': ps[i], 'r': str(r)})
            if rec.stop:
                return
    elif item[0] == 'long':
        _, name, r, fr = item
        ring = long_polys()[name]
        case = {'p': [list(p) for p in ring], 'r': r}
        if fr:
            xs, ys = zip(*ring)
            case['big'] = [min(xs) - 1, min(ys) - 1, max(xs) + 1,
                           max(ys) + 1]
        rec.check(case)
    elif item[0] == 'round':
        ring = [[str(Q(round(1000 * f(2 * math.pi * i / item[1])), 100))
                 for f in (math.cos, math.sin)] for i in range(item[1])]
        for big in ([-15, -15, 15, 15], None):
            case = {'p': ring, 'r': item[2]}
            if big:
                case['big'] = big
            rec.check(case)
    elif item[0] == 'scale':
        ps = polys(3)
        step = 13 if item[3] == 'quick' else 2
        sel = list(range(item[2], len(ps), 64))[::step]
        for i in sel:
            for r in ('1/2', '-1/5', '1/1000'):
                rec.check({'p': ps[i], 'r': r, 'k': item[1]})
                if i % 4 == 0:
                    rec.check({'p': ps[i], 'r': r, 'k': item[1],
                               'big': [-1, -1, 3, 3]})
            if rec.stop:
                return
    else:
        l = item[1]
        n = len(layouts.OVERLAPS[l])
        for a in range(n):
            for b in range(n):
                for op in ('or', 'sub', 'and'):
                    for r in RADII[:8]:
                        if item[2] == 'quick' and \
                                (a + b + RADII.index(r)) % 3:
                            continue
                        rec.check({'l': l, 'e': 'id',
                                   'h': [['or', a], [op, b]], 'r': str(r)})
                        if rec.stop:
                            return


def run_case(case, rec):
    r = Q(case['r'])
    if 'p' in case:
        from plycutter.geometry.geom2d import Geom2D
        ring = [geo.pt(p) for p in case['p']]
        k = Q(case.get('k', '1'))
        g0 = Geom2D.polygon([(x * k, y * k) for x, y in ring],
                            reorient=True)
        if case.get('big'):       # a frame around it
            frame = [(Q(case['big'][i]), Q(case['big'][j]))
                     for i, j in ((0, 1), (2, 1), (2, 3), (0, 3))]
            g0 = Geom2D.polygon([(x * k, y * k) for x, y in frame],
                                reorient=True) - g0
            dec = geo.Decomp([ring, frame])
            mask = 0
            for i, t in enumerate(dec.traps):
                if t[3] and not t[3] & 1:
                    mask |= 1 << dec.atom_of[t[3]]
        else:
            dec = geo.Decomp([ring])
            mask = dec.full
        rec.outcome((case['p'], case['r'], case.get('k'), case.get('big')))
        g = g0.buffer(r * k)
        return brush.problem(dec, g0, mask, r, g, k)
    else:
        w = World.get(case['l'], case['e'])
        g0, mask = w.run(case['h'])
        dec = w.dec
        rec.outcome((case['l'], case['e'], mask, case['r']))
    g = g0.buffer(int(r) if r == int(r) else r)
    return brush.problem(dec, g0, mask, r, g)
