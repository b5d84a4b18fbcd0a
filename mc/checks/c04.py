"""2D boolean operations give exactly the right point set."""
import itertools

from .. import geo, layouts
from ..g2x import World, bfs, mask_history

PID = 'C04'
LEVEL = 'model_checking'
RULE = ('explicit-state search over the real Geom2D algebra: states = values '
        'reached from the empty set, transitions = one |, &, - (both operand '
        'orders) with a generator polygon or with another state; the '
        'reference model is a bit set over the exact trapezoid decomposition '
        'of the generators. An outcome is distinct per (layout, resulting '
        'point set).')
ASSUMPTIONS = ['polygons outside the listed alphabets are not covered',
               'the reference decomposition (mc/geo.py) is exact rational '
               'arithmetic and shares no code with plycutter']


def bounds(tier):
    return dict(layouts=sorted(list(layouts.PARTITIONS) +
                               list(layouts.OVERLAPS)),
                embeddings=sorted(layouts.EMB),
                partition_states='every subset of the atoms, two histories '
                'each', overlap_depth=depth_of(tier),
                operand_pairs='all pairs of states of ' +
                ', '.join(l for l, _ in pair_layouts(tier)),
                lattices='n x n bars (many holes), 4 operations, then one '
                'more with each bar',
                lists='union() of every list of up to 3 (4) generators',
                nary_union='0..4, 63..66, 128..130 operands')


def depth_of(tier):
    return '3..4' if tier == 'quick' else '4..6'


def pair_layouts(tier):
    if tier == 'quick':
        return [('tri12', 'rot'), ('pin', 'id')]
    return [('tri12', 'rot'), ('pin', 'id'), ('dia', 'shear'),
            ('sq32', 'huge'), ('sq32', 'id'), ('brick', 'neg'),
            ('tri22', 'id'), ('xq21', 'swap')]


def gen_layouts(tier):
    if tier == 'quick':
        return [('xq21', 'rot', (1,)), ('tri22', 'swap', (0,)),
                ('brick', 'neg', (0,)), ('sq32', 'tiny', (0, 1)),
                ('dia', 'id', (1,)), ('pin', 'aniso', (0,))]
    out = []
    for l in layouts.PARTITIONS:
        embs = list(layouts.EMB) if len(layouts.PARTITIONS[l]) <= 6 else \
            ['id', 'rot', 'swap']
        for e in embs:
            out.append((l, e, (0, 1)))
    return out


def items(tier):
    out = []
    for l, e, hows in gen_layouts(tier):
        n = len(layouts.PARTITIONS[l])
        step = 16 if tier == 'quick' else 32
        for how in hows:
            for lo in range(0, 1 << n, step):
                out.append(['gen', l, e, how, lo, min(lo + step, 1 << n),
                            tier])
    for l, e in pair_layouts(tier):
        n = len(layouts.PARTITIONS[l])
        for lo in range(0, 1 << n, 4):
            out.append(['pair', l, e, lo, min(lo + 4, 1 << n)])
    embs = sorted(layouts.EMB)
    for i, l in enumerate(sorted(layouts.OVERLAPS)):
        for j, e in enumerate(embs):
            if tier == 'quick':
                if e == 'id':
                    d = 4 if len(layouts.OVERLAPS[l]) <= 3 else 3
                elif j in ((i * 3 + 1) % len(embs), (i * 5 + 4) % len(embs)):
                    d = 2
                else:
                    continue
            else:
                d = 6 if e == 'id' else 4
            out.append(['bfs', l, e, d])
    gs = [('grid3', 'id'), ('grid4', 'rot'), ('grid6', 'id'),
          ('slant3', 'aniso'), ('slant5', 'id'), ('grid4', 'tiny')]
    if tier == 'thorough':
        gs = [(g, e) for g in layouts.GRIDS for e in layouts.EMB]
    for g, e in gs:
        for op in ('or', 'and', 'sub', 'rsub'):
            out.append(['grid', g, e, op])
    for l, e in ((('fan', 'id'), ('fan2', 'rot'), ('venn4', 'swap'),
                  ('nest', 'neg'))
                 if tier == 'quick' else
                 [(l, e) for l in list(layouts.FANS) + ['venn4', 'nest',
                                                        'isles', 'colli']
                  for e in ('id', 'rot', 'tiny', 'shear')]):
        for k in range(len(World.get(l, e).gens)):
            out.append(['list', l, e, k, 3 if tier == 'quick' else 4])
    for n in (0, 1, 2, 3, 4, 63, 64, 65, 66, 128, 129, 130):
        out.append(['nary', n])
    return out


def weight(it):
    return {'bfs': 5 if it[0] == 'bfs' and it[-1] >= 4 else 1,
            'nary': 4, 'grid': 4}.get(it[0], 2)


def work(item, rec):
    kind = item[0]
    if kind == 'nary':
        for shape in ('strip', 'checker', 'stack'):
            rec.check({'kind': 'nary', 'n': item[1], 'shape': shape})
        return
    if kind == 'grid':
        l, e, op = item[1:]
        n = len(layouts.GRIDS[l]) // 2
        base = [['or', ['m', (1 << n) - 1]],
                [op, ['m', ((1 << n) - 1) << n]]]
        rec.count('states')
        rec.check({'layout': l, 'emb': e, 'hist': base})
        for k in range(2 * n):
            for o in ('sub', 'or') if k % 2 else ('and', 'rsub'):
                rec.count('transitions')
                rec.check({'layout': l, 'emb': e, 'hist': base + [[o, k]]})
                if rec.stop:
                    return
        return
    l, e = item[1:3]
    w = World.get(l, e)
    n = len(w.gens)

    def mk(hist):
        return {'layout': l, 'emb': e, 'hist': hist}
    if kind == 'list':
        # every list of operands that starts with one, repeats included;
        # then again onto what another operand makes
        first, top = item[3:]
        for m in range(top):
            for t in itertools.product(range(n), repeat=m):
                ks = [first] + list(t)
                if m == top - 1 and top > 3 and len(set(ks)) < len(ks):
                    continue
                rec.count('transitions')
                rec.check(mk([['union', ['l', ks]]]))
                if rec.stop:
                    return
                if m == 1:
                    for k in range(n):
                        for op in ('or', 'sub'):
                            rec.count('transitions', 2)
                            rec.check(mk([['or', k], ['union', ['l', ks]]]))
                            rec.check(mk([['union', ['l', ks]], [op, k]]))
        return
    if kind == 'gen':
        how, lo, hi, tier = item[3:]
        for mask in range(lo, hi):
            base = mask_history(mask, n, how)
            if not rec.check(mk(base)):
                if rec.stop:
                    return
                continue
            rec.count('states')
            for k in range(n):
                ops = ('or', 'sub', 'and', 'rsub')
                if tier == 'quick' and n > 6:
                    ops = ('or', 'sub') if (k + mask) % 4 == 0 else ()
                for op in ops:
                    rec.count('transitions')
                    rec.check(mk(base + [[op, k]]))
                    if rec.stop:
                        return
    elif kind == 'pair':
        for a in range(item[3], item[4]):
            base = [['or', ['m', a]]]
            for b in range(1 << n):
                for op in ('or', 'and', 'sub'):
                    rec.count('transitions')
                    rec.check(mk(base + [[op, ['m', b]]]))
                    if rec.stop:
                        return
    elif kind == 'bfs':
        seen, tr = bfs(w, item[3], ('or', 'and', 'sub', 'rsub', 'ror'), rec,
                       mk)
        rec.count('states', len(seen))
        rec.count('transitions', tr)
        for hist in list(seen.values())[-2:]:
            rec.sample(mk(hist))


def nary(case):
    from plycutter.geometry.geom2d import Geom2D
    n = case['n']
    if case['shape'] == 'strip':
        rings = [layouts.sq(i, 0, i + 1, 1) for i in range(n)]
        area, parts = n, min(n, 1)
    elif case['shape'] == 'checker':
        rings = [layouts.sq(2 * (i % 13), 2 * (i // 13),
                            2 * (i % 13) + 1, 2 * (i // 13) + 1)
                 for i in range(n)]
        area, parts = n, n
    else:
        rings = [layouts.sq(i, 0, i + 3, 1) for i in range(n)]
        area, parts = (n + 2 if n else 0), min(n, 1)
    gs = [Geom2D.polygon([geo.pt(p) for p in r]) for r in rings]
    u = Geom2D.union(gs)
    if u.area() != area:
        return 'union of %d shapes has area %s, expected %s' % (
            n, u.area(), area)
    if bool(u.is_empty()) != (n == 0):
        return 'is_empty wrong'
    if len(u.polygons()) != parts:
        return 'union of %d shapes has %d parts, expected %d' % (
            n, len(u.polygons()), parts)
    for r in rings:
        c = ((r[0][0] + r[2][0]) / geo.Q(2), (r[0][1] + r[2][1]) / geo.Q(2))
        if u.locate(c) != 1:
            return 'point %s of an operand is not in the union' % (c,)
    for q in ((geo.Q(-1, 2), geo.Q(1, 2)), (geo.Q(1, 2), geo.Q(-1, 2)),
              (geo.Q(3, 2), geo.Q(3, 2))):
        if u.locate(q) != -1:
            return 'outside point located inside'
    return None


def run_case(case, rec):
    if case.get('kind') == 'nary':
        r = nary(case)
        rec.outcome(('nary', case['n'], case['shape'], r))
        return r
    w = World.get(case['layout'], case['emb'])
    g, mask = w.run(case['hist'])
    rec.outcome((case['layout'], mask))
    return geo.compare(w.dec, g, mask)
