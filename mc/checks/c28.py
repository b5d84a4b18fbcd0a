"""Look-ups and sub-models of the extracted model data."""
import itertools

import numpy as np

from .. import models

PID = 'C28'
LEVEL = 'exploration'
CPU_LIMIT = 120
RULE = ('for every model and every subset of its sheets (of the models of 13 '
        'and 14 sheets: up to two sheets and all but up to one): limit keeps exactly '
        'those sheets and the joints between them, unchanged, and the result '
        'answers every look-up (sheet, joint, joint side, opposite side, '
        'side by sheet, sides of a sheet, planes, projection) consistently '
        'with the whole. Distinct = (model, subset).')
ASSUMPTIONS = []


def mods(tier):
    out = [['panels', [0]], ['panels', [0, 1]], ['panels', [0, 4]],
           ['panels', [0, 2, 4]], ['panels', [0, 1, 2, 4]], 'H', 'Tbox',
           'off', 'rack', 'crate', ['cup', 'hex']]
    if tier == 'thorough':
        out += [['panels', [0, 1, 2, 3, 4]], ['panels', list(range(6))]]
        out += list(models.SHAPES)
    return out


def bounds(tier):
    return dict(models=mods(tier))


def items(tier):
    return [[m, k] for m in mods(tier)
            for k in range(len(models.boxes_of(m)[0]) + 1)]


def weight(it):
    return len(models.boxes_of(it[0])[0])


def work(item, rec):
    sp = models.sheetplex(item[0])
    ids = sorted(sp.sheets)
    k = item[1]
    if len(ids) > 6 and 2 < k < len(ids) - 1:
        return
    for c in itertools.combinations(ids, k):
        for how in range(4):
            rec.check([item[0], list(c), how])
            if rec.stop:
                return


def run_case(case, rec):
    m, sub, how = case
    sp = models.sheetplex(m)
    whole_sheets = dict(sp.sheets.items())
    whole_inter = dict(sp.intersections.items())
    arg = [list(sub), tuple(reversed(sub)), set(sub),
           (x for x in sub + sub)][how]
    lim = sp.limit(arg)
    rec.outcome(case)
    if set(lim.sheets) != set(sub):
        return 'limit keeps sheets %s' % sorted(lim.sheets)
    for k in sub:
        if lim.sheets[k] is not whole_sheets[k] and \
                lim.sheets[k] != whole_sheets[k]:
            return 'sheet %s changed' % k
    want = {i for i, x in whole_inter.items()
            if all(s.sheet in sub for s in x.sides)}
    pairs = {','.join(p) for p in itertools.combinations(sorted(sub), 2)
             if np.linalg.norm(np.cross(sp.sheets[p[0]].normal(0),
                                        sp.sheets[p[1]].normal(0))) > .1}
    if set(lim.intersections) != want or want != pairs:
        return 'limit keeps joints %s instead of %s' % (
            sorted(lim.intersections), sorted(pairs))
    if dict(sp.sheets.items()) != whole_sheets or \
            set(sp.intersections) != set(whole_inter):
        return 'limit changed the whole'
    seen = []
    for iid in sorted(lim.intersections):
        inter = lim.intersections[iid]
        if inter.id != iid or sorted(inter.sheets()) != iid.split(','):
            return 'joint %s is between %s' % (iid, inter.sheets())
        for idx in (0, 1):
            s = inter.sides[idx]
            if s.idx != idx or s.intersection != iid or \
                    s.id != (iid, s.sheet):
                return 'side %s of %s' % (s.id, iid)
            if lim.interside(s.id).id != s.id:
                return 'interside(%s) gives %s' % (
                    s.id, lim.interside(s.id).id)
            o = s.opposite(lim)
            if o.id != inter.sides[1 - idx].id or \
                    o.opposite(lim).id != s.id:
                return 'opposite of %s is %s' % (s.id, o.id)
            b = inter.side_by_sheet(s.sheet)
            if b is None or b.id != s.id:
                return 'side_by_sheet(%s) of %s' % (s.sheet, iid)
            seen.append(s.id)
        for k in whole_sheets:
            if k not in inter.sheets() and \
                    inter.side_by_sheet(k) is not None:
                return 'side_by_sheet(%s) of %s is not None' % (k, iid)
        if inter.side_by_sheet('nothing') is not None:
            return 'side_by_sheet of an unknown sheet'
    if [s.id for s in lim.intersides()] != seen:
        return 'intersides() gives %s' % [s.id for s in lim.intersides()]
    for k in sorted(whole_sheets):
        got = [s.id for s in lim.intersides(k)]
        if got != [x for x in seen if x[1] == k]:
            return 'intersides(%s) gives %s' % (k, got)
    for k in sub:
        s = lim.sheets[k]
        n, o0, o1 = s.normal(0), float(s.offset(0)), float(s.offset(1))
        mid = np.array(s.midplane(), float)
        if not np.allclose(mid[:3], n) or \
                abs(mid[3] - (o0 - o1) / 2) > 1e-9:
            return 'midplane of %s is %s' % (k, mid)
        rot = np.array(s.slice_rotation, float)[:3, :3]
        for p in itertools.product((-3., 2.), (0., 5.), (1., 7.)):
            p = np.array(p)
            for w in (1., 2.):
                q = s.project_point4(np.append(p * w, w))
                back = p - (rot @ np.array([q[0], q[1], 0.]))
                # what is left is along the normal
                if np.linalg.norm(np.cross(back, n)) > 1e-6:
                    return 'project_point4(%s) on %s is %s' % (p, k, q)
            d = s.project_point4(np.append(p, 0.))
            q0 = s.project_point4(np.array([1., 1, 1, 1]))
            q1 = s.project_point4(np.append(p + 1, 1.))
            if not np.allclose(q1 - q0, d):
                return 'direction %s projects to %s on %s' % (p, d, k)
    return None
