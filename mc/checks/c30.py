"""A fresh build: what is decided and allowed before any heuristic."""
import itertools

import numpy as np
import shapely
from gmpy2 import mpq as Q

from .. import models
from . import c20

PID = 'C30'
LEVEL = 'exploration'
CPU_LIMIT = 120
RULE = ('two perpendicular panels whose material is every set of cells of a '
        'grid (across the joint x along it), with hidden stretches on '
        'either face, for several support radii, plus real models: '
        'create_sheetbuild must allow exactly the material within the '
        'radius of both visible faces (tested on a point lattice), decide '
        'exactly the visible material outside open joint positions, open a '
        'joint position exactly where both sheets have allowed material, '
        'nothing on a joint chosen, and check() must accept it. Distinct = '
        'case.')
ASSUMPTIONS = ['the radius is measured with a polygonal brush: points '
               'between 0.9 r and 1.1 r are not judged']
AL = [0, 11, 20, 34]            # along the joint
AC = [-9, 0, 6, 15]             # across
RADII = ('1/2', '1', '3', '12', '40')
GRIDS = {'thin': [0, 11, Q(57, 5), 34],
         'sliver': [0, 20, Q(20) + Q(1, 50), 34]}
HIDE = {                        # cells (across, along) hidden per face
    'none': ([], []),
    'strip': ([], [(1, 0), (1, 1), (1, 2)]),
    'mid': ([(2, 1)], [(2, 1)]),
    'half': ([(0, 0), (1, 0), (2, 0)], []),
    'cross': ([(1, 1)], [(2, 1)]),
}
M1 = {'full': [(1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (2, 2)],
      'hole': [(1, 0), (1, 2), (2, 0), (2, 1), (2, 2)],
      'short': [(1, 1), (2, 1), (2, 2)]}


def bounds(tier):
    return dict(radii=RADII, hidden=list(HIDE), other_sheet=list(M1),
                grid='3 x 3 cells, %s' % (
                    'left column 4 sets, joint 3 sets, right full' if tier == 'quick'
                    else 'all sets'), models=mods(tier))


def mods(tier):
    return [['panels', [0, 4]], ['panels', [0, 2, 4]], 'T', 'gap', 'window',
            ['cup', 'trapeze'], ['far', 'T'], ['gfar', ['panels', [0, 2, 4]]]] \
        if tier == 'quick' else list(models.SHAPES) + [
            ['panels', [0, 2, 4]], ['panels', [0, 1, 2, 4]]] + [
            ['cup', c] for c in models.CUPS] + [
            [mv, m] for mv in c20.MOTIONS
            for m in ('T', 'window', ['panels', [0, 2, 4]])]


def items(tier):
    out = []
    for m in range(1 << 9):
        # cells (across, along) -> bit across * 3 + along
        if not m >> 6 & 7:
            continue
        if tier == 'quick' and (m >> 6 != 7 or m & 7 not in (0, 1, 5, 7) or
                                m >> 3 & 7 not in (7, 5, 3)):
            continue
        for h in HIDE:
            out.append(['syn', m, h] + (['q'] if tier == 'quick' else []))
    for g in GRIDS:         # slivers of material along the joint
        for m in (7 << 6 | 2 << 3, 7 << 6 | 5 << 3, 2 << 6 | 2 << 3 | 2,
                  2 << 6 | 7 << 3):
            out.append(['syn', m, 'none@' + g, 'q'])
    for m in mods(tier):
        for r in RADII:
            out.append(['mod', m, r])
    return out


def weight(it):
    return 9 if it[0] == 'mod' else 1


def work(item, rec):
    if item[0] == 'mod':
        rec.check(item)
        return
    quick = item[3:] == ['q']
    item = item[:3]
    for m1 in (('full', 'hole') if quick else M1):
        for r in (('1/2', '3', '40') if quick else RADII):
            rec.check(item + [m1, r])
            if rec.stop:
                return


def rect(c, al=AL):
    a, b = c
    return (AC[a], al[b], AC[a + 1], al[b + 1])


def run_case(case, rec):
    import pyrsistent as pyr
    from plycutter import sheetbuild
    from plycutter.sheetplex import SheetPlex
    rec.outcome(case)
    r = Q(case[-1])
    if case[0] == 'mod':
        m, tr = case[1], None
        if m[0] in c20.MOTIONS:
            m, tr = m[1], m[0]
        sp = models.sheetplex(
            m, None, c20.motion(tr) if tr else None, tr)
    else:
        _, m, h, m1, _ = case
        h, _, g = h.partition('@')
        al = GRIDS.get(g, AL)
        c0 = [(k // 3, k % 3) for k in range(9) if m >> k & 1]
        mats = [models.cells2([rect(c, al) for c in c0]),
                models.cells2([rect(c, al) for c in M1[m1]])]
        sp = models.two_sheets(mats)
        hid = [models.cells2([rect(c, al) for c in x]) for x in HIDE[h]]
        s0 = sp.sheets['s0']
        f = [mats[0] - hid[0], mats[0] - hid[1]]
        s0 = s0.set('faces', f).set('both_faces', f[0] & f[1])
        sp = SheetPlex(sheets=sp.sheets.set('s0', s0),
                       intersections=sp.intersections)
    sb = sheetbuild.create_sheetbuild(sp, models.params(support_radius=r))
    rec.count('builds')
    return judge(sp, sb, r)


def judge(sp, sb, r):
    rf = float(r)
    inters = sorted(sp.intersections.items())
    for s in sp.intersides():
        if not sb.interside_chosen[s.id].is_empty():
            return 'something is chosen on %s' % (s.id,)
        o = s.opposite(sp)
        if not (sb.interside_ok[s.id] ^ sb.interside_ok[o.id]).is_empty():
            return 'the sides of %s are open at different positions' % (
                s.intersection,)
    shp = {}
    for k, s in sorted(sp.sheets.items()):
        ok, ch = sb.sheet_ok[k], sb.sheet_chosen[k]
        if not (ch - ok).is_empty():
            return 'sheet %s: chosen but not allowed, area %s' % (
                k, float((ch - ok).area()))
        if not (ok - s.slices_max).is_empty():
            return 'sheet %s: allowed outside the material' % k
        f0, f1, mx = [models.to_shapely(g) for g in
                      (s.faces[0], s.faces[1], s.slices_max)]
        sok, sch = models.to_shapely(ok), models.to_shapely(ch)
        shp[k] = sok
        strips = [(x, models.to_shapely(x.make_fingers(
            sb.interside_ok[x.id]))) for x in sp.intersides(k)]
        for x, st in strips:
            if not (x.make_fingers(sb.interside_ok[x.id]) & ch).is_empty():
                return 'sheet %s: material of an open joint is chosen' % k
        if mx.is_empty:
            continue
        x0, y0, x1, y1 = mx.bounds
        gx = np.arange(x0 - 1.13, x1 + 1, .97)
        gy = np.arange(y0 - 1.07, y1 + 1, 1.21)
        px, py = [v.ravel() for v in np.meshgrid(gx, gy)]
        pts = shapely.points(px, py)
        # stay away from boundaries
        d0, d1 = shapely.distance(pts, f0), shapely.distance(pts, f1)
        if f0.is_empty:
            d0 = np.full(len(pts), 1e9)
        if f1.is_empty:
            d1 = np.full(len(pts), 1e9)
        inm = shapely.contains(mx, pts)
        iok, ich = shapely.contains(sok, pts), shapely.contains(sch, pts)
        must = inm & (d0 < .9 * rf) & (d1 < .9 * rf)
        mustnot = ~inm | (d0 > 1.1 * rf) | (d1 > 1.1 * rf)
        edge = shapely.distance(pts, mx.boundary) < 1e-6
        for nm, bad in (('not allowed though both faces are near',
                         must & ~iok & ~edge),
                        ('allowed though a face is far', mustnot & iok
                         & ~edge)):
            b = np.nonzero(bad)[0]
            if len(b):
                return 'sheet %s: (%.3f, %.3f) is %s' % (
                    k, px[b[0]], py[b[0]], nm)
        instrip = np.zeros(len(pts), bool)
        near = np.zeros(len(pts), bool)
        for x, st in strips:
            instrip |= shapely.contains(st, pts)
            if not st.is_empty:
                near |= shapely.distance(pts, st.boundary) < 1e-6
        both = shapely.contains(f0, pts) & shapely.contains(f1, pts)
        b = np.nonzero(both & ~instrip & ~near & ~edge & ~ich)[0]
        if len(b):
            return 'sheet %s: (%.3f, %.3f) is visible on both faces, not ' \
                'in a joint, and not chosen' % (k, px[b[0]], py[b[0]])
        # what is chosen is (nearly) visible on both sides
        b = np.nonzero(ich & ((d0 > 1.1 * min(1, rf) + .01) |
                              (d1 > 1.1 * min(1, rf) + .01)))[0]
        if len(b):
            return 'sheet %s: (%.3f, %.3f) is chosen though hidden' % (
                k, px[b[0]], py[b[0]])
    # joint positions
    from plycutter.geometry.geom1d import Geom1D
    for iid, inter in inters:
        cuts = set()
        segs = []
        for s in inter.sides:
            f = s.make_fingers(Geom1D([[Q(-10**6), Q(10**6)]])) \
                & sb.sheet_ok[s.sheet]
            pr = []
            for p in f.polygons():
                for v in p.exterior():
                    t = float(v[0] * s.direction[0] + v[1] * s.direction[1]
                              - s.origin_offset)
                    cuts.add(round(t, 7))
                pr.append(p)
            segs.append((s, f))
        cuts = sorted(cuts)
        got = sb.interside_ok[inter.sides[0].id]
        for a, b in zip(cuts, cuts[1:]):
            if b - a < 1e-4:
                continue
            mid = Q((a + b) / 2)
            e = Q((b - a) / 8)
            g = Geom1D([[mid - e, mid + e]])
            want = all(not (s.make_fingers(g) & f).is_empty()
                       for s, f in segs)
            if want != (got.locate(mid) > 0):
                return 'joint %s at %.3f is %s' % (
                    iid, float(mid), 'closed though both sheets have '
                    'allowed material' if want else 'open')
        if cuts and not got.is_empty():
            iv = got.get_intervals()
            if float(iv[0][0]) < cuts[0] - 1e-6 or \
                    float(iv[-1][1]) > cuts[-1] + 1e-6:
                return 'joint %s is open beyond the material' % iid
        elif not cuts and not got.is_empty():
            return 'joint %s is open without material' % iid
    sb.check(force=True)
    return None
