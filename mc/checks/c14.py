"""Both sides of a joint describe the same boxes in space."""
import itertools

import numpy as np
from gmpy2 import mpq as Q

from .. import models

PID = 'C14'
LEVEL = 'exploration'
CPU_LIMIT = 120
RULE = ('for every joint of every model (all perpendicular panel pairs, '
        'T/X/H/offset shapes, four thicknesses, rigid motions, boxes with slanted walls, skew slabs '
        'meeting at several angles) and every union of cells of the joint '
        'coordinate (and sets of tiny, huge or many intervals): the fingers made on either side must project back to '
        'exactly that set, have area length x strip width, and, extruded '
        'over the thickness, span the same 3D positions on both sides, '
        'across exactly the part of the sheet inside the other slab; every '
        'fract range must give exactly that part of the strip. Distinct = '
        '(model, joint, set).')
ASSUMPTIONS = ['3D positions are compared with tolerance 1e-6']
CUTS = [Q(-7), Q(-1, 3), Q(0), Q(2), Q(11, 2), Q(11, 2) + Q(1, 1000),
        Q(20), Q(100)]
# further sets, by name: intervals that are tiny, huge or many
SETS = {
    'tiny': [(Q(0), Q(1, 10**5)), (Q(1), 1 + Q(1, 2**70)),
             (Q(2), Q(3)), (3 + Q(1, 2**40), Q(4))],
    'many': [(Q(3 * k), Q(3 * k) + 1 + Q(k, 20)) for k in range(-9, 14)],
    'nine': [(Q(k), Q(k) + Q(1, 3)) for k in range(9)],
    'huge': [(Q(-10**6), Q(-10**5)), (Q(10**5), Q(10**7) + Q(1, 3))],
}
MOVES = ('z30', 'gen', 'x90', 'move', 'gmove', 'flip', 'far',
         'gfar')
ANGLES = (90, 60, 45, 120, 150, 20, 8, 1)


def all_models(tier):
    out = []
    for a, b in itertools.combinations(range(6), 2):
        if a // 2 != b // 2:
            out.append([['panels', [a, b]], None])
    for s in models.SHAPES:
        if s != 'apart':
            out.append([s, None])
    out.append([['panels', [0, 2, 4]], None])
    for mv in MOVES:
        out.append([['panels', [0, 2]], mv])
        if tier == 'thorough':
            for s in ('T', 'X', 'H', 'corner3', 'L10', 'off'):
                out.append([s, mv])
            out.append([['panels', [0, 3, 4]], mv])
    for c in models.CUPS:
        out.append([['cup', c], None])
        if tier == 'thorough':
            out.append([['cup', c], 'gen'])
    for a in ANGLES:
        out.append([['skew', a], None])
        out.append([['skew', a], 'gen'])
    return out


def items(tier):
    n = 5 if tier == 'quick' else 7
    return [[m, n] for m in all_models(tier)]


def bounds(tier):
    n = 5 if tier == 'quick' else 7
    return dict(models=all_models(tier), cuts=[str(c) for c in CUTS[:n + 1]],
                sets_per_joint=(1 << n) + len(SETS))


def weight(it):
    return 5 if it[0][1] or it[0][0] == ['panels', [0, 2, 4]] else 1


_cache = {}


def sheetplex(m):
    key = str(m)
    if key in _cache:
        return _cache[key]
    from . import c20
    from plycutter import create_sheetplex
    model, mv = m
    M = c20.motion(mv) if mv else None
    if model[0] == 'skew':
        import trimesh
        ms = []
        for k in (0, 1):
            vs, fs = models.mesh_data([((20 + 20 * k, 0, 0), (55, 30, 6))])
            x = trimesh.Trimesh(vs, fs, process=False)
            if k:
                x.apply_transform(trimesh.transformations.rotation_matrix(
                    np.radians(model[1]), [0, 1, 0]))
            ms.append(x)
        mesh = trimesh.util.concatenate(ms)
        if M is not None:
            mesh.apply_transform(M)
        sp = create_sheetplex.create_sheetplex(mesh, models.params())
    else:
        t = models.boxes_of(model)[1]
        sp = create_sheetplex.create_sheetplex(
            models.mesh(model, M), models.params(thickness=Q(t)))
    _cache[key] = sp
    return sp


def intervals(mask, n):
    if isinstance(mask, str):
        return [list(iv) for iv in SETS[mask]]
    out = []
    for i in range(n):
        if mask >> i & 1:
            if out and out[-1][1] == CUTS[i]:
                out[-1][1] = CUTS[i + 1]
            else:
                out.append([CUTS[i], CUTS[i + 1]])
    return out


def work(item, rec):
    m, n = item
    sp = sheetplex(m)
    if not sp.intersections:
        rec.check([m, n, None, 0])
        return
    for iid in sorted(sp.intersections):
        for mask in list(range(1 << n)) + sorted(SETS):
            rec.check([m, n, iid, mask])
            if rec.stop:
                return


FR = [(Q(0), Q(1, 2)), (Q(1, 2), Q(1)), (Q(3, 10), Q(7, 10)), (1, 2),
      (-1, 0)]


def to3d(sheet, pts):
    r = np.array(sheet.inverse_slice_rotation, float)[:3, :3]
    n = np.array(sheet.normal(0), float)
    o = float(sheet.offset(0))
    t = -float(sheet.offset(1))
    a = np.array([r.T @ np.array([float(x), float(y), 0.]) for x, y in pts])
    a = a - np.outer(a @ n, n)
    return np.concatenate([a + n * o, a + n * t])


def run_case(case, rec):
    m, n, iid, mask = case
    sp = sheetplex(m)
    if iid is None:
        return 'the model has no joint'
    from plycutter.geometry.geom1d import Geom1D
    inter = sp.intersections[iid]
    ivs = intervals(mask, n)
    g = Geom1D([list(iv) for iv in ivs])
    rec.outcome(case)
    exact = m[1] is None and m[0][0] not in ('skew', 'cup')
    total = sum((b - a for a, b in ivs), Q(0))
    tol = Q(0) if exact else max(Q(1), total) / 10**6
    pos = []
    sheets = [sp.sheets[s.sheet] for s in inter.sides]
    nrm = [np.array(s.normal(0), float) for s in sheets]
    dirn = np.cross(nrm[0], nrm[1])
    sin = np.linalg.norm(dirn)
    # corner lines of the joint in 3D
    corners = []
    for a in (float(sheets[0].offset(0)), -float(sheets[0].offset(1))):
        for b in (float(sheets[1].offset(0)), -float(sheets[1].offset(1))):
            corners.append(np.linalg.lstsq(np.array(nrm), [a, b],
                                           rcond=None)[0])
    for k, side in enumerate(inter.sides):
        if side.opposite(sp).id != inter.sides[1 - k].id:
            return 'opposite of %s is %s' % (side.id, side.opposite(sp).id)
        f = side.make_fingers(g)
        width = side.max_normal_offset - side.min_normal_offset
        if abs(f.area() - total * width) > tol:
            return 'side %d: fingers have area %s, expected %s' % (
                k, float(f.area()), float(total * width))
        back = side.project_to_1d(f)
        if (back ^ g).measure1d() > tol:
            return 'side %d: fingers on %s project back to %s' % (k, g, back)
        pieces = [p.exterior() for p in f.polygons()]
        if len(pieces) != len(ivs):
            return 'side %d: %d pieces for %d intervals' % (
                k, len(pieces), len(ivs))
        pos.append(sorted(
            ((to3d(sheets[k], p) @ dirn / sin) for p in pieces),
            key=lambda v: v.min()))
        # across: exactly where the other slab is, at some depth
        u = np.cross(dirn / sin, nrm[k])
        want = [c @ u for c in corners]
        for p in pieces:
            got = to3d(sheets[k], p) @ u
            if abs(got.min() - min(want)) > 1e-5 or \
                    abs(got.max() - max(want)) > 1e-5:
                return 'side %d: strip across is %s, the slab is at %s' % (
                    k, (got.min(), got.max()), (min(want), max(want)))
        if mask in (1, 2, 5, 9, 'nine', 'tiny'):
            lo = min(np.dot([float(c) for c in side.normal],
                            [float(c) for c in p]) for q in pieces for p in q)
            for f0, f1 in FR:
                s = side.make_fingers(g, f0, f1)
                if abs(s.area() - total * width * (f1 - f0)) > tol:
                    return 'side %d: fract %s..%s has area %s' % (
                        k, f0, f1, float(s.area()))
                got = [np.dot([float(c) for c in side.normal],
                              [float(c) for c in p])
                       for q in s.polygons() for p in q.exterior()]
                if abs(min(got) - lo - float(width * f0)) > 1e-5 or \
                        abs(max(got) - lo - float(width * f1)) > 1e-5:
                    return 'side %d: fract %s..%s lies at %s' % (
                        k, f0, f1, (min(got) - lo, max(got) - lo))
                if (side.project_to_1d(s) ^ g).measure1d() > tol:
                    return 'side %d: fract strip changes the positions' % k
    for a, b in zip(*pos):
        if abs(a.min() - b.min()) > 1e-6 or abs(a.max() - b.max()) > 1e-6:
            return 'the sides disagree in space: along the joint one is at '\
                '%s, the other at %s' % ((a.min(), a.max()),
                                         (b.min(), b.max()))
    return None
