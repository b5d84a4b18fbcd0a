"""Results of 2D operations are regularised: pieces are exactly the connected
components, no slits, no internal edges."""
from .. import geo, layouts
from ..g2x import World, bfs, mask_history

PID = 'C05'
LEVEL = 'model_checking'
RULE = ('explicit-state search over the Geom2D algebra as in C04; every state '
        '(and every n-ary union of generators) is checked structurally: its '
        'rings are cut at all arrangement vertices, no piece of boundary is '
        'used twice, the pieces biject with the edge-connected components of '
        'the reference trapezoid model, areas add up, locate() is 0 exactly '
        'on the boundary. Distinct = (layout, point set).')
ASSUMPTIONS = ['shapes outside the listed alphabets are not covered']


def bounds(tier):
    return dict(layouts=[i[1:] for i in items(tier)][:200])


def gen_layouts(tier):
    if tier == 'quick':
        return [('sq33', 'id', 0), ('xq21', 'aniso', 0), ('dia', 'rot', 1),
                ('brick', 'shear', 1), ('tri22', 'neg', 1)]
    return [(l, e, h) for l in layouts.PARTITIONS
            for e in ('id', 'rot', 'neg') for h in (0, 1)]


def items(tier):
    out = []
    for l, e, h in gen_layouts(tier):
        n = len(layouts.PARTITIONS[l])
        for lo in range(0, 1 << n, 16):
            out.append(['gen', l, e, h, lo, min(1 << n, lo + 16)])
    embs = sorted(layouts.EMB)
    for i, l in enumerate(sorted(layouts.OVERLAPS)):
        big = len(layouts.OVERLAPS[l]) > 3
        for j, e in enumerate(embs):
            if tier == 'quick':
                if e == 'id':
                    out.append(['bfs', l, e, 3 if big else 4])
                elif j == i % len(embs):
                    out.append(['bfs', l, e, 2])
            else:
                out.append(['bfs', l, e, 4 if e == 'id' else 3])
    return out


def weight(it):
    return it[-1] if it[0] == 'bfs' else 0


def work(item, rec):
    kind, l, e = item[:3]
    w = World.get(l, e)
    n = len(w.gens)

    def mk(hist):
        return {'layout': l, 'emb': e, 'hist': hist}
    if kind == 'gen':
        for mask in range(item[4], item[5]):
            rec.count('states')
            rec.count('transitions', 2)
            rec.check(mk(mask_history(mask, n, item[3])))
            rec.check({'layout': l, 'emb': e, 'union': mask})
            if rec.stop:
                return
    else:
        seen, tr = bfs(w, item[3], ('or', 'and', 'sub', 'rsub'), rec, mk)
        rec.count('states', len(seen))
        rec.count('transitions', tr)
        for hist in list(seen.values())[-2:]:
            rec.sample(mk(hist))


def run_case(case, rec):
    w = World.get(case['layout'], case['emb'])
    if 'union' in case:
        sel = [k for k in range(len(w.gens)) if case['union'] >> k & 1]
        g = w.G.union([w.gens[k] for k in sel])
        mask = 0
        for k in sel:
            mask |= w.gmask[k]
    else:
        g, mask = w.run(case['hist'])
    rec.outcome((case['layout'], mask))
    # the model's point set first (C04), then the structure
    p = geo.regular_problem(w.dec, g, mask)
    return p
