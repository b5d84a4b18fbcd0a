"""Segment intersections: complete and exact against brute force."""
import itertools

from gmpy2 import mpq as Q

from .. import core, geo, layouts

PID = 'C09'
LEVEL = 'exploration'
RULE = ('every set of up to N segments of a small lattice (both directions '
        'mixed), plus stars, grids, ladders and combs of collinear overlaps, '
        'in several embeddings including ones that make segments horizontal '
        'or vertical, and with lattice lines or single ends moved by 2^-70; the real sweep is compared with brute force over all '
        'pairs: same points, each with exactly the segments through it. '
        'Distinct = (set of segments, embedding).')
ASSUMPTIONS = []


def bounds(tier):
    return dict(lattice_sets='3x3 lattice, all sets of up to %d segments'
                % 4,
                lattice_4x3='all sets of up to %d' % (
                    3 if tier == 'thorough' else 2), embeddings=list(
                        layouts.EMB))


def segs(nx, ny):
    pts = [(x, y) for x in range(nx) for y in range(ny)]
    return list(itertools.combinations(pts, 2))


FAMILIES = {
    'star': [((0, 0), (x, y)) for x, y in
             ((3, 0), (3, 1), (3, 3), (1, 3), (0, 3), (-1, 3), (-3, 3),
              (-3, 0), (-3, -1), (0, -3), (2, -3))],
    'asterisk': [((-x, -y), (x, y)) for x, y in
                 ((3, 0), (3, 1), (3, 3), (1, 3), (0, 3), (-1, 3), (-3, 3))],
    'grid': [((0, i), (5, i)) for i in range(5)] +
            [((i, 0), (i, 5)) for i in range(5)],
    'ladder': [((0, 0), (0, 9)), ((4, 0), (4, 9))] +
              [((0, i), (4, i)) for i in range(1, 9)],
    'overlap': [((0, 0), (6, 0)), ((1, 0), (3, 0)), ((2, 0), (5, 0)),
                ((5, 0), (8, 0)), ((3, -1), (3, 1)), ((8, 0), (9, 0)),
                ((0, 1), (6, -1))],
    'diag': [((i, 0), (i + 4, 4)) for i in range(5)] +
            [((i, 4), (i + 4, 0)) for i in range(5)],
    'fan': [((0, 0), (10, i)) for i in range(-4, 5)] +
           [((9, -9), (9, 9)), ((10, -9), (10, 9))],
    'zigzag': [((i, i % 2), (i + 1, 1 - i % 2)) for i in range(9)] +
              [((0, 0), (9, 0)), ((0, 1), (9, 1))],
    'vert': [((0, 0), (0, 5)), ((0, 2), (0, 3)), ((0, 3), (0, 8)),
             ((0, 5), (0, 9)), ((-1, 4), (1, 4))],
}


def items(tier):
    out = []
    s = segs(3, 3)
    e9 = ['id', 'rot', 'swap', 'shear'] if tier == 'quick' else \
        list(layouts.EMB)
    for e in e9:
        for i in range(len(s)):
            out.append(['lat', 3, 3, e, [i], 3])
    s4 = segs(4, 3)
    for e in ['id', 'neg', 'aniso']:
        for i in range(len(s4)):
            out.append(['lat', 4, 3, e, [i], 2 if tier == 'quick' else 3])
    for i in range(len(s)):
        for j in range(i + 1, len(s)):
            if tier == 'thorough':
                for e in ('id', 'rot', 'swap'):
                    out.append(['lat', 3, 3, e, [i, j], 4])
            else:
                out.append(['lat', 3, 3, 'id', [i, j], 4])
    for f in FAMILIES:
        for e in layouts.EMB:
            out.append(['fam', f, e])
        for e in ['id', 'rot'] if tier == 'quick' else layouts.EMB:
            out.append(['nudge', f, e])
    for e in ['id', 'rot', 'swap']:
        for m in NEAR:
            for i in range(len(s)):
                out.append(['near', 3, 3, e, [i], m])
    return out


EPS = Q(1, 2 ** 70)
# lattice lines moved so that floats cannot tell some of them apart
NEAR = {'x': ((0, EPS, 1), (0, 1, 2)), 'y': ((0, 1, 2), (0, EPS, 1)),
        'xy': ((0, 1, 1 + EPS), (0, EPS, 1)),
        'far': ((10 ** 18, 10 ** 18 + 1, 10 ** 18 + 2), (-1, 0, 10 ** 18))}


def work(item, rec):
    if item[0] == 'near':
        _, nx, ny, e, pre, m = item
        n = len(segs(nx, ny))
        for j in range(pre[0] + 1, n):
            rec.check({'lat': [nx, ny], 'e': e, 's': pre + [j], 'm': m})
            for k in range(j + 1, n):
                rec.check({'lat': [nx, ny], 'e': e, 's': pre + [j, k],
                           'm': m})
            if rec.stop:
                return
    elif item[0] == 'nudge':
        _, f, e = item
        n = len(FAMILIES[f])
        full = list(range(n))
        for i in range(n):
            for end in (0, 1):
                for d in ((1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, 1)):
                    rec.check({'fam': f, 'e': e, 's': full,
                               'nudge': [[i, end, d[0], d[1]]]})
                    if rec.stop:
                        return
            rec.check({'fam': f, 'e': e, 's': full,
                       'nudge': [[j, j % 2, (j + i) % 3 - 1, (j * i) % 3 - 1]
                                 for j in range(n)]})
    elif item[0] == 'lat':
        _, nx, ny, e, pre, k = item
        n = len(segs(nx, ny))
        for extra in range(0, k - len(pre) + 1):
            if len(pre) == 2 and extra != k - len(pre):
                continue
            for c in itertools.combinations(range(pre[-1] + 1, n), extra):
                rec.check({'lat': [nx, ny], 'e': e, 's': pre + list(c)})
                if rec.stop:
                    return
    else:
        _, f, e = item
        n = len(FAMILIES[f])
        full = list(range(n))
        rec.check({'fam': f, 'e': e, 's': full})
        for i in range(n):
            rec.check({'fam': f, 'e': e, 's': full[:i] + full[i + 1:]})
            rec.check({'fam': f, 'e': e, 's': full[i:] + full[:i]})
            for j in range(i):
                rec.check({'fam': f, 'e': e, 's': [x for x in full
                                                   if x not in (i, j)]})


def brute(ss):
    cand = set()
    for a in ss:
        cand.add(a[0])
        cand.add(a[1])
    for a, b in itertools.combinations(ss, 2):
        c = geo.seg_cross(a, b)
        if c is not None:
            cand.add(c)
    out = {}
    for p in cand:
        through = frozenset(s for s in ss if geo.on_segment(s[0], s[1], p))
        if len(through) > 1:
            out[p] = through
    return out


def run_case(case, rec):
    f = core.seam('plycutter.geometry.impl2d.scan2d',
                  'all_segment_intersections')
    src = segs(*case['lat']) if 'lat' in case else FAMILIES[case['fam']]
    if case.get('m'):
        mx, my = NEAR[case['m']]
        src = [tuple((mx[p[0]], my[p[1]]) for p in q) for q in src]
    if case.get('nudge'):
        src = [list(q) for q in src]
        for i, end, dx, dy in case['nudge']:
            p = src[i][end]
            src[i][end] = (p[0] + dx * EPS, p[1] + dy * EPS)
    ss = []
    for n, i in enumerate(case['s']):
        a, b = (layouts.apply(case['e'], p) for p in src[i])
        ss.append((a, b) if (i + n) % 2 else (b, a))
    rec.outcome((case.get('fam') or tuple(case['lat']), case['e'],
                 tuple(case['s']), case.get('m'), str(case.get('nudge'))))
    got = {}
    for p, through in f(ss):
        q = geo.pt(p)
        got.setdefault(q, set()).update(
            (geo.pt(s[0]), geo.pt(s[1])) for s in through)
    want = brute(ss)
    for p in want:
        if p not in got:
            return 'intersection at %s not reported' % (geo.fl(p),)
    for p in got:
        if p not in want:
            return 'no intersection at %s' % (geo.fl(p),)
        if got[p] != want[p]:
            return 'at %s: %d segments reported, %d go through' % (
                geo.fl(p), len(got[p]), len(want[p]))
    return None
