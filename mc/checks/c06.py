"""2D set values do not depend on how they were put together."""
import itertools

from gmpy2 import mpq as Q

from .. import geo, layouts
from ..g2x import World

PID = 'C06'
LEVEL = 'exploration'
RULE = ('for every choice of up to 4 generators of a layout: every '
        'permutation given to the n-ary union, every fold order and every '
        'binary tree of |, every permutation of & folds and of successive '
        'subtraction, every identity/annihilator with the empty set; every '
        'start vertex and both directions of the input rings; and every '
        'affine map applied before or after. All are compared with the same '
        'reference point set. Distinct = (layout, expression shape, result).')
ASSUMPTIONS = []


def bounds(tier):
    return dict(layouts=layouts_of(tier), max_operands=n_of(tier),
                maps=list(layouts.EMB))


def n_of(tier):
    return 3 if tier == 'quick' else 4


def layouts_of(tier):
    return ['venn4', 'nest', 'hexagram', 'colli', 'touch', 'sliver',
            'nonconv', 'comb', 'isles', 'brick', 'dia', 'tri12', 'sq32']


def items(tier):
    out = []
    for l in layouts_of(tier):
        gens = layouts.PARTITIONS.get(l) or layouts.OVERLAPS[l]
        n = min(len(gens), 5)
        for k in range(1, n_of(tier) + 1):
            for sel in itertools.combinations(range(n), k):
                out.append(['expr', l, list(sel)])
        for e in layouts.EMB:
            out.append(['map', l, e])
        out.append(['ring', l])
    for l in ('grid4', 'slant3') if tier == 'quick' else layouts.GRIDS:
        for e in layouts.EMB:
            out.append(['mapmany', l, e])
    return out


def trees(ops):
    """All binary trees over the sequence ops (order kept)."""
    if len(ops) == 1:
        yield ops[0]
        return
    for i in range(1, len(ops)):
        for a in trees(ops[:i]):
            for b in trees(ops[i:]):
                yield [a, b]


def work(item, rec):
    kind, l = item[:2]
    if kind == 'expr':
        sel = item[2]
        for perm in itertools.permutations(sel):
            perm = list(perm)
            rec.check({'l': l, 'k': 'union', 'o': perm})
            rec.check({'l': l, 'k': 'union', 'o': perm + perm[:1]})
            rec.check({'l': l, 'k': 'and', 'o': perm})
            rec.check({'l': l, 'k': 'sub', 'o': perm})
            rec.check({'l': l, 'k': 'subu', 'o': perm})
            if len(perm) > 2:
                for t in trees(perm):
                    rec.check({'l': l, 'k': 'tree', 'o': t})
            if rec.stop:
                return
        rec.check({'l': l, 'k': 'empty', 'o': sel})
    elif kind == 'mapmany':
        for o in ('holes', 'pieces', 'both'):
            rec.check({'l': l, 'k': 'mapmany', 'e': item[2], 'o': o})
    elif kind == 'map':
        gens = layouts.PARTITIONS.get(l) or layouts.OVERLAPS[l]
        n = min(len(gens), 4)
        for a in range(n):
            for b in range(n):
                if a != b:
                    for op in ('or', 'and', 'sub'):
                        rec.check({'l': l, 'k': 'map', 'e': item[2],
                                   'o': [op, a, b]})
                        if rec.stop:
                            return
    else:
        gens = layouts.PARTITIONS.get(l) or layouts.OVERLAPS[l]
        for k, r in enumerate(gens):
            for rot in range(len(r)):
                for rev in (0, 1):
                    rec.check({'l': l, 'k': 'ring', 'o': [k, rot, rev]})


def build(w, t):
    if isinstance(t, int):
        return w.gens[t], w.gmask[t]
    a, ma = build(w, t[0])
    b, mb = build(w, t[1])
    return a | b, ma | mb


def run_case(case, rec):
    l, k, o = case['l'], case['k'], case['o']
    w = World.get(l, 'id')
    G = w.G
    if k == 'union':
        g = G.union([w.gens[i] for i in o])
        m = 0
        for i in o:
            m |= w.gmask[i]
    elif k == 'tree':
        g, m = build(w, o)
    elif k == 'and':
        g, m = w.gens[o[0]], w.gmask[o[0]]
        for i in o[1:]:
            g, m = g & w.gens[i], m & w.gmask[i]
    elif k == 'sub':
        g, m = w.gens[o[0]], w.gmask[o[0]]
        for i in o[1:]:
            g, m = g - w.gens[i], m & ~w.gmask[i]
    elif k == 'subu':
        m = 0
        for i in o[1:]:
            m |= w.gmask[i]
        g = w.gens[o[0]] - G.union([w.gens[i] for i in o[1:]])
        m = w.gmask[o[0]] & ~m
    elif k == 'empty':
        g = G.union([w.gens[i] for i in o])
        m = 0
        for i in o:
            m |= w.gmask[i]
        E = G.empty()
        for h, want in ((g | E, m), (E | g, m), (g & E, 0), (E & g, 0),
                        (g - E, m), (E - g, 0), (g - g, 0), (g & g, m),
                        (g | g, m), (G.union([E, g, E]), m),
                        (G.union([g]), m), (G.union([]), 0),
                        ((g - g) | g, m)):
            p = geo.compare(w.dec, h, want)
            if p:
                return 'identity with the empty set / itself: ' + p
    elif k == 'mapmany':
        # sets of many holes, many pieces, or both, moved as a whole
        e = case['e']
        w2 = World.get(l, e)

        def f(r):
            return [layouts.apply(e, p) for p in r]
        n = len(w.gens) // 2

        def make(w):
            hor, ver = G.union(w.gens[:n]), G.union(w.gens[n:])
            mh = mv = 0
            for i in range(n):
                mh |= w.gmask[i]
                mv |= w.gmask[n + i]
            if o == 'holes':
                return hor | ver, mh | mv
            if o == 'pieces':
                return hor & ver, mh & mv
            return (hor | ver) - w.gens[n // 2], (mh | mv) & \
                ~w.gmask[n // 2]
        g, m = make(w)
        h, m2 = make(w2)
        rec.outcome((l, 'mapmany', e, o))
        p = geo.compare(w.dec, g, m)
        if p:
            return p
        g = g.transformed_with(f)
        p = geo.compare(w2.dec, g, m2)
        if p:
            return 'operate, then map: ' + p
        return geo.compare(w2.dec, h, m2)
    elif k == 'map':
        e = case['e']
        op, a, b = o
        w2 = World.get(l, e)

        def f(r):
            return [layouts.apply(e, p) for p in r]
        A, B = w.gens[a], w.gens[b]
        g = {'or': lambda: A | B, 'and': lambda: A & B,
             'sub': lambda: A - B}[op]().transformed_with(f)
        A, B = w2.gens[a], w2.gens[b]
        h = {'or': lambda: A | B, 'and': lambda: A & B,
             'sub': lambda: A - B}[op]()
        ma, mb = w2.gmask[a], w2.gmask[b]
        m = {'or': ma | mb, 'and': ma & mb, 'sub': ma & ~mb}[op]
        rec.outcome((l, 'map', e, m))
        p = geo.compare(w2.dec, g, m)
        if p:
            return 'operate, then map: ' + p
        p = geo.compare(w2.dec, h, m)
        if p:
            return 'map, then operate: ' + p
        # a mapped value is a value like any other
        for x, want in ((g - h, 0), (h - g, 0), (g | h, m)):
            p = geo.compare(w2.dec, x, want)
            if p:
                return 'combining both orders: ' + p
        return None
    else:
        i, rot, rev = o
        r = w.rings[i]
        r = r[rot:] + r[:rot]
        if rev:
            r = list(reversed(r))
        g, m = G.polygon(r, reorient=True), w.gmask[i]
        if len(r) == 4:
            (x0, y0), (x1, y1) = r[0], r[2]
            if {r[1], r[3]} == {(x0, y1), (x1, y0)}:
                p = geo.compare(w.dec, G.rectangle(x0, y0, x1, y1), m)
                if p:
                    return 'rectangle: ' + p
        nxt = w.gens[(i + 1) % len(w.gens)]
        mn = w.gmask[(i + 1) % len(w.gens)]
        for h, want in ((g | nxt, m | mn), (g & nxt, m & mn),
                        (g - nxt, m & ~mn), (nxt - g, mn & ~m)):
            p = geo.compare(w.dec, h, want)
            if p:
                return 'with a rotated/reversed input ring: ' + p
    rec.outcome((l, k, m))
    return geo.compare(w.dec, g, m)
