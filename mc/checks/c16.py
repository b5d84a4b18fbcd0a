"""Values never change: sets, builds, histories."""
import itertools

import numpy as np
from gmpy2 import mpq as Q

from .. import layouts, models

PID = 'C16'
LEVEL = 'exploration'
CPU_LIMIT = 300
RULE = ('for every pair of sets of a bounded family and every operation '
        '(operators, buffer, filter, projection, transform, union, pieces, '
        'queries, text), every operand, the list passed in and every piece '
        'handed out earlier keep their value; changing the input lists '
        'afterwards changes no set; and over the whole history of the '
        'pipeline on each model every recorded build keeps its value, every '
        'stage run again from its recorded input (also in reverse order) '
        'gives the same build again, and the model data are untouched. '
        'Distinct = case.')
ASSUMPTIONS = []


def pipes(tier):
    out = [['panels', [0]], ['panels', [0, 4]], 'T', 'gap', 'corner3']
    if tier == 'thorough':
        out += [['panels', [0, 2, 4]], ['panels', [1, 2, 5]], 'X', 'H',
                'window', 'TT', 'off', ['panels', [0, 2, 4, 5]]]
    return out


def items(tier):
    out = [['pipe', m] for m in pipes(tier)]
    for l in LAY:
        out.append(['g2', l])
    n = 4 if tier == 'quick' else 5
    out += [['g1', n, k] for k in range(1 << n)]
    out += [['alias']]
    return out


LAY = ('venn3', 'nest', 'touch', 'comb', 'dia', 'sliver')


def bounds(tier):
    return dict(pipelines=pipes(tier), layouts=LAY,
                cells_1d=4 if tier == 'quick' else 5)


def weight(it):
    return {'pipe': 9, 'g2': 3}.get(it[0], 1)


def work(item, rec):
    if item[0] == 'g1':
        for b in range(1 << item[1]):
            for op in OPS1:
                rec.check(item + [b, op])
                if rec.stop:
                    return
    elif item[0] == 'g2':
        ns = len(states(item[1]))
        for a, b in itertools.product(range(ns), repeat=2):
            for op in OPS2:
                rec.check(item + [a, b, op])
                if rec.stop:
                    return
        for a in range(ns):
            for op in UN2:
                rec.check(item + [a, a, op])
    elif item[0] == 'alias':
        for k in range(8):
            rec.check(['alias', k])
    else:
        rec.check(item)


CUT = [Q(-3), Q(0), Q(1, 3), Q(2), Q(7), Q(9)]
OPS1 = ('or', 'and', 'sub', 'xor', 'inv', 'buf', 'shrink', 'filter', 'ask')


def set1(n, mask):
    from plycutter.geometry.geom1d import Geom1D
    return Geom1D([[CUT[i], CUT[i + 1]] for i in range(n) if mask >> i & 1])


def snap1(g):
    return [tuple(iv) for iv in g.get_intervals()]


def snap2(g):
    return [([tuple(v) for v in p.exterior()],
             [[tuple(v) for v in h] for h in p.holes()])
            for p in g.polygons()]


def run1(a, b, op):
    if op == 'or':
        return a | b
    if op == 'and':
        return a & b
    if op == 'sub':
        return a - b
    if op == 'xor':
        return a ^ b
    if op == 'inv':
        return ~a
    if op == 'buf':
        return a.buffer(Q(1, 2))
    if op == 'shrink':
        return a.buffer(-Q(1, 2))
    if op == 'filter':
        return a.filter(lambda lo, hi: hi - lo > 1)
    return (a.disjoint_pieces(), a.measure1d(), a.is_empty(),
            a.is_bounded(), str(a), [a.locate(c) for c in CUT])


_st = {}


def states(layout):
    if layout not in _st:
        from plycutter.geometry.geom2d import Geom2D
        gens = [Geom2D.polygon(r, reorient=True)
                for r in layouts.rings(layout)][:4]
        g = list(gens)
        for x, y in itertools.permutations(gens[:3], 2):
            g.append(x - y)
        u = gens[0]
        for x in gens[1:]:
            u = u | x
        g += [u, Geom2D.empty(), gens[0] | gens[1], gens[0] & gens[1],
              (u - gens[0]) | gens[-1]]
        _st[layout] = g
    return _st[layout]


OPS2 = ('or', 'and', 'sub', 'union')
UN2 = ('buf', 'shrink', 'proj', 'move', 'pieces', 'ask', 'copy')


def run2(a, b, op):
    if op == 'or':
        return a | b
    if op == 'and':
        return a & b
    if op == 'sub':
        return a - b
    if op == 'union':
        lst = [a, b, a]
        r = type(a).union(lst)
        if len(lst) != 3 or lst[0] is not a or lst[1] is not b or \
                lst[2] is not a:
            raise AssertionError('union changed the list it was given')
        return r
    if op == 'buf':
        return a.buffer(Q(1, 4))
    if op == 'shrink':
        return a.buffer(-Q(1, 4))
    if op == 'proj':
        return a.project_to_1d([Q(1), Q(2)], Q(3))
    if op == 'move':
        return a.transformed_with(
            lambda pts: [(p[1] + 1, p[0] * 2) for p in pts])
    if op == 'pieces':
        return [(p | p, p.exterior(), p.holes()) for p in a.polygons()]
    if op == 'copy':
        return a | a, a & a, a - a
    return a.area(), a.is_empty(), a.locate((Q(1), Q(1, 2))), str(a), repr(a)


def snap_sb(sb):
    return {
        'sheet_ok': {k: snap2(g) for k, g in sb.sheet_ok.items()},
        'sheet_chosen': {k: snap2(g) for k, g in sb.sheet_chosen.items()},
        'interside_ok': {k: snap1(g) for k, g in sb.interside_ok.items()},
        'interside_chosen': {k: snap1(g)
                             for k, g in sb.interside_chosen.items()}}


def snap_sp(sp):
    out = []
    for k, s in sorted(sp.sheets.items()):
        out.append((k, s.sides.tolist(), s.slice_rotation.tolist(),
                    snap2(s.slices_max), snap2(s.slices_min),
                    [snap2(f) for f in s.faces]))
    for k, i in sorted(sp.intersections.items()):
        out.append((k, i.direction.tolist(),
                    [(s.id, list(s.direction), s.origin_offset,
                      list(s.normal), s.min_normal_offset,
                      s.max_normal_offset) for s in i.sides]))
    return repr(out)


def sb_diff(a, b):
    """Are two builds the same point sets?"""
    for f in ('sheet_ok', 'sheet_chosen'):
        x, y = getattr(a, f), getattr(b, f)
        if set(x.keys()) != set(y.keys()):
            return '%s has keys %s / %s' % (f, sorted(x), sorted(y))
        for k in x.keys():
            if snap2(x[k]) != snap2(y[k]) and not (
                    (x[k] - y[k]).is_empty() and (y[k] - x[k]).is_empty()):
                return '%s of %s differs' % (f, k)
    for f in ('interside_ok', 'interside_chosen'):
        x, y = getattr(a, f), getattr(b, f)
        for k in x.keys():
            if not (x[k] ^ y[k]).is_empty():
                return '%s of %s differs' % (f, k)
    return None


def run_case(case, rec):
    rec.outcome(case)
    if case[0] == 'g1':
        _, n, am, bm, op = case
        a, b = set1(n, am), set1(n, bm)
        keep = a.disjoint_pieces()
        ks = [snap1(p) for p in keep]
        s = snap1(a), snap1(b)
        r = run1(a, b, op)
        r1 = run1(a, b, op)
        if (snap1(a), snap1(b)) != s or [snap1(p) for p in keep] != ks:
            return 'an operand of %s changed' % op
        if repr(r) != repr(r1):
            return '%s gives %s, then %s' % (op, r, r1)
        # the result is independent of the operands
        if op in ('or', 'and', 'sub', 'xor', 'inv', 'buf', 'shrink'):
            sr = snap1(r)
            for x in (a, b, r):
                x | r, x - a, r & x
            if snap1(r) != sr:
                return 'the result of %s changed later' % op
        return None
    if case[0] == 'g2':
        _, l, ai, bi, op = case
        st = states(l)
        a, b = st[ai], st[bi]
        keep = a.polygons() + b.polygons()
        ks = [snap2(p) for p in keep]
        s = snap2(a), snap2(b)
        run2(a, b, op)
        if (snap2(a), snap2(b)) != s:
            return 'an operand of %s changed' % op
        if [snap2(p) for p in keep] != ks:
            return 'a piece handed out before %s changed' % op
        return None
    if case[0] == 'alias':
        return alias(case[1])
    sp = models.sheetplex(case[1])
    before = snap_sp(sp)
    from plycutter import canned
    t = models.boxes_of(case[1])[1]
    prm = models.params(thickness=Q(t))
    pkeep = dict(prm)
    r = canned.canned_1(sp, prm)
    hist = list(r.history)
    snaps = [snap_sb(sb) for sb in hist]
    rec.count('states', len(hist))
    if snap_sp(sp) != before:
        return 'the pipeline changed the model data'
    if prm != pkeep:
        return 'the pipeline changed the parameters'
    n_hist = len(hist)
    r2 = canned.canned_1(sp, prm)
    if len(r.history) != n_hist or any(
            a is not b for a, b in zip(r.history, hist)):
        return 'a later run changed the recorded history'
    if len(r2.history) != n_hist:
        return 'the same run again records %d builds instead of %d' % (
            len(r2.history), n_hist)
    ops = [sb.dbg if 'dbg' in sb else None for sb in hist]
    steps = [i for i in range(len(hist) - 1) if callable(ops[i])]
    for i in steps + steps[::-1]:
        res = ops[i](hist[i], prm)
        rec.count('transitions')
        nxt = [j for j in range(i + 1, len(hist))][0]
        d = sb_diff(res, hist[nxt])
        if d:
            return 'stage %s run again: %s' % (
                getattr(ops[i], '__name__', i), d)
        if prm != pkeep:
            return 'stage %s changed the parameters' % ops[i].__name__
    for i, sb in enumerate(hist):
        if snap_sb(sb) != snaps[i]:
            return 'build %d of the history changed' % i
    if snap_sp(sp) != before:
        return 'the stages changed the model data'
    # branches from one build are independent
    base = hist[0]
    for side in list(sp.intersides())[:2]:
        ok = base.interside_ok[side.id]
        if ok.is_empty():
            continue
        base.choose_interside(side.id, ok)
        base.unchoose_interside(side.id, ok)
        base.unchoose_sheet_area(side.sheet, side.make_fingers(ok))
        for fn in (base.choose_intersides, base.unchoose_intersides):
            d = {side.id: ok}
            fn(d)
            if list(d.items()) != [(side.id, ok)]:
                return 'a step changed the choices it was given'
        if snap_sb(base) != snaps[0]:
            return 'a branch changed the build it started from'
    return None


def alias(k):
    from plycutter.geometry.geom1d import Geom1D
    from plycutter.geometry.geom2d import Geom2D
    if k < 2:
        iv = [[Q(3), Q(4)], [Q(0), Q(1)]]
        if k:
            iv = iv[::-1]
        keep = [list(v) for v in iv]
        g = Geom1D(iv)
        if [list(v) for v in iv] != keep:
            return 'Geom1D changed the list it was given'
        iv[0][0] = iv[0][0] - 9
        iv.append([Q(50), Q(51)])
        if snap1(g) != [(0, 1), (3, 4)]:
            return 'changing the input list changed the set: %s' % g
        return None
    pts = [[Q(0), Q(0)], [Q(2), Q(0)], [Q(2), Q(1)]]
    if k % 2:
        pts = pts[::-1]
    if k >= 6:
        pts = [tuple(p) for p in pts]
    elif k >= 4:
        pts = np.array(pts, object)
    keep = [tuple(p) for p in pts]
    g = Geom2D.polygon(pts, reorient=True)
    s = snap2(g)
    if [tuple(p) for p in pts] != keep:
        return 'polygon() changed the points it was given'
    if k < 6:
        pts[0][0] = pts[0][0] - 7
    if k < 4:
        pts.append([Q(9), Q(9)])
    if snap2(g) != s or g.area() != 1:
        return 'changing the input points changed the set'
    return None
