"""Spatial indexes never lose an item."""
import itertools

from gmpy2 import mpq as Q

from .. import core, geo

PID = 'C10'
LEVEL = 'exploration'
RULE = ('1D segment tree: every multiset of up to N closed intervals with '
        'ends on a small lattice (points, duplicates, nested) x every query '
        'at and between the lattice points, against a scan, and six families of 5 to 257 intervals; boxes: every '
        'lattice box x every lattice segment (and point, and box) against '
        'exact clipping; 2D segment index: every small segment set and dense '
        'families x every threshold x every query segment, the answer must '
        'include every stored segment that meets the query. Distinct = '
        'structure x query set.')
ASSUMPTIONS = ['the 2D index may return extra candidates; it must not lose '
               'one']


def bounds(tier):
    return dict(big=BIG, families=FAM, intervals='ends 0..4, multisets up to %d' % nint(tier),
                boxes='4x4 lattice', pmr_sets='3x3 lattice, up to %d segments'
                % npmr(tier) + (' (triples: 1 in 8)' if tier == 'quick' else
                                  ' more'))


def nint(tier):
    return 4 if tier == 'quick' else 5


def npmr(tier):
    return 2 if tier == 'quick' else 3


IVS = [(a, b) for a in range(5) for b in range(a, 5)]
PTS3 = [(x, y) for x in range(3) for y in range(3)]
SEGS3 = list(itertools.combinations(PTS3, 2))


BIG = list(range(5, 36)) + [40, 63, 64, 65, 66, 100, 127, 128, 129, 130, 257]


def fam(name, n):
    """n intervals with about n ends."""
    if name == 'chain':
        return [(i, i + 1) for i in range(n)]
    if name == 'points':
        return [(i, i) for i in range(n)]
    if name == 'nest':
        return [(i, 2 * n - i) for i in range(n // 2 + 1)]
    if name == 'comb':
        return [(0, i) for i in range(n)] + [(i, n) for i in range(0, n, 3)]
    if name == 'near':
        return [(Q(i, 2 ** 70), Q(i + 2, 2 ** 70)) for i in range(n)]
    return [((i * 7) % n, (i * 7) % n + 1 + i % 5) for i in range(n)]


FAM = ('chain', 'points', 'nest', 'comb', 'near', 'mix')


def dense(name):
    if name == 'grid':
        return [((i, j), (i + 1, j)) for i in range(4) for j in range(5)] + \
            [((i, j), (i, j + 1)) for i in range(5) for j in range(4)]
    if name == 'rays':
        return [((0, 0), (x, y)) for x in range(5) for y in range(5)
                if x or y]
    if name == 'short':
        return [((Q(i, 8), Q(j, 8)), (Q(i + 1, 8), Q(j + 1, 8)))
                for i in range(6) for j in range(6)]
    return [((0, Q(i, 3)), (4, Q(12 - i, 3))) for i in range(13)]


def items(tier):
    out = [['tree', i] for i in range(len(IVS))] + [['tree0']]
    out += [['big', n, f] for n in BIG for f in FAM]
    for x0 in range(4):
        for x1 in range(x0, 4):
            out.append(['box', x0, x1])
    for i in range(len(SEGS3)):
        out.append(['pmr', i, npmr(tier)])
    for n in ('grid', 'rays', 'short', 'lines'):
        for th in (1, 2, 4, 7):
            out.append(['dense', n, th])
    return out


def work(item, rec):
    k = item[0]
    if k == 'tree0':
        rec.check({'k': 'tree', 's': []})
    elif k == 'tree':
        tier = bounds_tier()
        for n in range(nint(tier)):
            for c in itertools.combinations_with_replacement(
                    range(item[1], len(IVS)), n):
                rec.check({'k': 'tree', 's': [item[1]] + list(c)})
                if rec.stop:
                    return
    elif k == 'big':
        for rev in (0, 1):
            rec.check({'k': 'big', 'n': item[1], 'f': item[2], 'rev': rev})
    elif k == 'box':
        for y0 in range(4):
            for y1 in range(y0, 4):
                rec.check({'k': 'box', 'b': [item[1], y0, item[2], y1]})
                rec.check({'k': 'inc', 'b': [item[1], y0, item[2], y1]})
    elif k == 'pmr':
        for n in range(item[2] + 1):
            for c in itertools.combinations(range(item[1] + 1, len(SEGS3)),
                                            n):
                if n == 2 and item[2] == 2 and (sum(c) + item[1]) % 8:
                    continue
                for th in (2, 4):
                    rec.check({'k': 'pmr', 's': [item[1]] + list(c),
                               'th': th})
                if rec.stop:
                    return
    else:
        n = len(dense(item[1]))
        for rot in range(0, n, 3 if bounds_tier() == 'thorough' else 9):
            rec.check({'k': 'dense', 'n': item[1], 'th': item[2],
                       'rot': rot})


def bounds_tier():
    import os
    return 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' \
        else 'quick'


def clip(seg, lo, hi):
    """Does the closed segment meet the closed box?  Liang-Barsky."""
    t0, t1 = Q(0), Q(1)
    for i in range(2):
        d = seg[1][i] - seg[0][i]
        if d == 0:
            if not lo[i] <= seg[0][i] <= hi[i]:
                return False
        else:
            a, b = (lo[i] - seg[0][i]) / Q(d), (hi[i] - seg[0][i]) / Q(d)
            if a > b:
                a, b = b, a
            t0, t1 = max(t0, a), min(t1, b)
            if t0 > t1:
                return False
    return True


def meets(a, b):
    if geo.seg_cross(a, b) is not None:
        return True
    return any(geo.on_segment(a[0], a[1], p) for p in b) or \
        any(geo.on_segment(b[0], b[1], p) for p in a)


def qs(s):
    return tuple(geo.pt(p) for p in s)


def run_case(case, rec):
    k = case['k']
    rec.outcome(sorted(case.items(), key=str))
    if k == 'big':
        T = core.seam('plycutter.geometry.impl2d.segment_tree',
                      'SegmentTree1D')
        segs = [(Q(a), Q(b), 'i%d' % n)
                for n, (a, b) in enumerate(fam(case['f'], case['n']))]
        if case['rev']:
            segs.reverse()
        t = T(segs)
        ends = sorted({v for a in segs for v in a[:2]})
        for q in ends + [(a + b) / 2 for a, b in zip(ends, ends[1:])] + \
                [ends[0] - 1, ends[-1] + 1]:
            got = sorted(t.stab(q))
            want = sorted(x for x in segs if x[0] <= q <= x[1])
            if got != want:
                return 'stab(%s) gives %d items, expected %d' % (
                    q, len(got), len(want))
        return None
    if k == 'tree':
        T = core.seam('plycutter.geometry.impl2d.segment_tree',
                      'SegmentTree1D')
        segs = [(Q(IVS[i][0]), Q(IVS[i][1]), 'i%d' % n)
                for n, i in enumerate(case['s'])]
        t = T(segs)
        for v in range(-1, 11):
            q = Q(v, 2)
            got = sorted(t.stab(q))
            want = sorted(s for s in segs if s[0] <= q <= s[1])
            if got != want:
                return 'stab(%s) gives %s, expected %s' % (
                    q, [s[2] for s in got], [s[2] for s in want])
        return None
    A = core.seam('plycutter.geometry.aabb', 'AABB')
    if k == 'box':
        x0, y0, x1, y1 = (Q(v) for v in case['b'])
        box = A((x0, y0), (x1, y1))
        pts = [(Q(x), Q(y)) for x in range(-1, 5) for y in range(-1, 5)]
        for p in pts:
            w = x0 <= p[0] <= x1 and y0 <= p[1] <= y1
            if bool(box.contains(p)) != w:
                return 'contains(%s) is %s' % (p, not w)
        for s in itertools.combinations(pts[::2] + pts[1::4], 2):
            w = clip(s, (x0, y0), (x1, y1))
            if bool(box.intersects_segment(s)) != w:
                return 'intersects_segment(%s) is %s' % (s, not w)
            if bool(box.intersects_segment((s[1], s[0]))) != w:
                return 'intersects_segment of the reverse of %s is %s' % (
                    s, not w)
        for a in pts[::3]:
            for b in pts[1::4]:
                lo = (min(a[0], b[0]), min(a[1], b[1]))
                hi = (max(a[0], b[0]), max(a[1], b[1]))
                w = lo[0] <= x1 and hi[0] >= x0 and lo[1] <= y1 and \
                    hi[1] >= y0
                o = A(lo, hi)
                if bool(box.intersects_aabb(o)) != w or \
                        bool(o.intersects_aabb(box)) != w:
                    return 'intersects_aabb(%s..%s) is %s' % (lo, hi, not w)
        return None
    if k == 'inc':
        x0, y0, x1, y1 = (Q(v) for v in case['b'])
        pts = [(x0, y1), (x1, y0), ((x0 + x1) / 2, y0), (x0, (y0 + y1) / 2)]
        for perm in itertools.permutations(pts):
            b = A()
            for n, p in enumerate(perm):
                b.include_point(p)
                seen = perm[:n + 1]
                lo = tuple(min(q[i] for q in seen) for i in range(2))
                hi = tuple(max(q[i] for q in seen) for i in range(2))
                if tuple(b.lower) != lo or tuple(b.upper) != hi:
                    return 'box of %s is %s..%s' % (seen, b.lower, b.upper)
            for s in ((pts[0], pts[1]), ((x0 - 1, y0), (x0, y1 + 3))):
                if bool(b.intersects_segment(s)) != clip(
                        s, (x0, y0), (x1, y1)):
                    return 'intersects_segment after include_point wrong'
        return None
    P = core.seam('plycutter.geometry.impl2d.pmr_quadtree',
                  'SegmentPMRQuadTree')
    if k == 'pmr':
        store = [qs(SEGS3[i]) for i in case['s']]
        t = P(None, store, case['th'])
        queries = [qs(s) for s in SEGS3] + [
            qs(((Q(-1), Q(1, 2)), (Q(5), Q(1, 2)))),
            qs(((Q(1, 2), Q(-1)), (Q(1, 3), Q(4)))),
            qs(((Q(-1), Q(-1)), (Q(3), Q(3))))]
    else:
        store = [qs(s) for s in dense(case['n'])]
        store = store[case['rot']:] + store[:case['rot']]
        t = P(None, store, case['th'])
        queries = [store[i] for i in range(0, len(store), 5)]
        queries += [qs(((Q(-1), Q(a, 3)), (Q(6), Q(b, 3))))
                    for a in (0, 3, 7) for b in (0, 5, 12)]
    for q in queries:
        got = set(qs(s) for s in t.find(q))
        for s in got:
            if s not in store:
                return 'find() returns something never stored'
        for s in store:
            if s not in got and meets(s, q):
                return 'query %s-%s loses %s-%s' % (
                    geo.fl(q[0]), geo.fl(q[1]), geo.fl(s[0]), geo.fl(s[1]))
    return None
