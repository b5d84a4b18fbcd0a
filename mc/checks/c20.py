"""Reassembly: the extruded parts tile the model exactly."""
import itertools

import numpy as np
from gmpy2 import mpq as Q

from .. import models

PID = 'C20'
LEVEL = 'exploration'
CPU_LIMIT = 300
RULE = ('every model of the family (all sets of box panels, T/X/H joints, '
        'slots, windows, notches, offsets, several thicknesses, finger '
        'widths, seeds, rigid motions, some read back from an STL file with '
        'its rounded coordinates) is run through the real pipeline; '
        'the parts are extruded back into 3D and every cell of the '
        'decomposition of space by all box and part coordinates is checked '
        'to be in exactly one part (inside the model) or none (outside), '
        'total volume must agree, and every piece of every part must hold '
        'material visible on both faces; chains of panels bent at other '
        'angles: parts never overlap and differ from the model at most '
        'within the strips of the joints. Distinct = model and parameters.')
ASSUMPTIONS = ['support_radius is at least the thickness (smaller values '
               'legitimately leave hidden material out)',
               'slivers below 1e-6 mm2 between rounded STL coordinates are '
               'not counted as pieces',
               'volume tolerance 0.02 thickness^2 per joint (the pipeline '
               'itself trims 1/1000 at joint ends)']


def bounds(tier):
    return dict(cases=[c for it in items(tier) for c in it[1]])


MOTIONS = {
    'z30': ([0, 0, 1], 0.5235987755982988, [0, 0, 0]),
    'gen': ([1, 2, 3], 1.1, [0, 0, 0]),
    'x90': ([1, 0, 0], 1.5707963267948966, [0, 0, 0]),
    'move': ([0, 0, 1], 0., [100.5, -33.3, 7.7]),
    'gmove': ([3, -1, 2], 2.2, [-50.25, 400.5, 12.]),
    'flip': ([0, 1, 0], 3.141592653589793, [0, 0, 0]),
    'far': ([0, 0, 1], 0., [2500., -1811.25, 30000.5]),
    'gfar': ([2, 1, -2], 0.7, [-5000.25, 1500.5, -980.]),
}


def motion(name):
    import trimesh
    ax, ang, tr = MOTIONS[name]
    m = trimesh.transformations.rotation_matrix(ang, ax)
    m[:3, 3] = tr
    return m


def items(tier):
    cases = []

    def add(w, m, p=None, tr=None, stl=False):
        c = {'m': m}
        if stl:
            c['stl'] = True
        if p:
            c['p'] = p
        if tr:
            c['tr'] = tr
        cases.append((w, c))
    for k in (1, 2):
        for c in itertools.combinations(range(6), k):
            add(k, ['panels', list(c)])
    triples = [list(c) for c in itertools.combinations(range(6), 3)]
    for i, c in enumerate(triples):
        if tier == 'thorough' or i % 3 == 0 or i in (1, 19):
            add(4, ['panels', c])
    for s in models.SHAPES:
        add(4, s)
    fp = [{'min_finger_width': '31/10', 'max_finger_width': '31/10'},
          {'min_finger_width': '34/5', 'max_finger_width': '34/5'},
          {'min_finger_width': '20', 'max_finger_width': '30'},
          {'min_finger_width': '1', 'max_finger_width': '2'},
          {'support_radius': '50'}, {'random_seed': 0},
          {'random_seed': 7}, {'support_radius': '6'}]
    for p in fp:
        add(2, ['panels', [0, 4]], p)
    for tr in MOTIONS:
        add(3, ['panels', [0, 2]], None, tr)
    add(8, ['panels', [0, 2, 4]], None, 'gen')
    for m, tr in ((['panels', [0, 2]], 'gmove'), ('T', 'z30'),
                  ('gap', 'gen'), ('notch', 'gfar')):
        add(5, m, None, tr, True)
    if tier == 'thorough':
        for m in list(models.SHAPES):
            add(8, m, None, 'gmove', True)
        for c in ([0, 2, 4], [1, 3, 4], [0, 1, 2, 3], [0, 1, 2, 4, 5]):
            for tr in ('gen', 'gfar'):
                add(20, ['panels', c], None, tr, True)
    if tier == 'thorough':
        for k in (4, 5, 6):
            for c in itertools.combinations(range(6), k):
                add(20, ['panels', list(c)])
        for s in models.SHAPES:
            for p in fp[:4] + fp[5:7]:
                if s not in ('L2', 'L3', 'L10', 'corner3'):
                    add(6, s, p)
            for tr in ('gen', 'gmove', 'x90'):
                add(6, s, None, tr)
        for seed in range(1, 12):
            add(8, ['panels', [0, 2, 4]], {'random_seed': seed})
            add(8, ['panels', [1, 3, 4]], {'random_seed': seed})
    for k in range(1, 15):
        if tier == 'thorough' or k in (2, 3, 5, 8, 13):
            for tr in (None, 'gmove') if tier == 'thorough' else (
                    ('gmove',) if k == 3 else (None,)):
                add(8, ['bent', k], None, tr)
    cups = [('tri', None), ('trapeze', 'gen'), ('iso', None)]
    if tier == 'thorough':
        cups = [(c, tr) for c in models.CUPS for tr in (None, 'gmove', 'x90')]
    for c, tr in cups:
        add(9, ['cup', c], None, tr)
    return [[w, [c]] for w, c in cases]


def weight(it):
    return it[0]


def work(item, rec):
    for c in item[1]:
        rec.check(c)


def bent_case(case, rec):
    """Panels at an angle: fingers run straight through, so only the strips
    of the slanted joints may differ from the model; parts never overlap."""
    import shapely
    from plycutter import canned, create_sheetplex
    from . import c19
    import shapely.geometry as sg
    M = motion(case['tr']) if case.get('tr') else np.eye(4)
    cup = case['m'][0] == 'cup'
    if cup:
        spec = models.CUPS[case['m'][1]]
        mesh = models.cup_mesh(spec, M=M)
        p, q = models.bent_outline(spec, 6.)[:2]
        shape = sg.Polygon(p[:-1])
        hollow, width = sg.Polygon(q[:-1]), 30.
    else:
        mesh, shape, p, q, closed, dirs = c19.bent_mesh(
            case['m'][1], None, M)
        hollow, width = sg.Polygon(), 50.
    prm = models.conv_params(case.get('p', {}))
    sp = create_sheetplex.create_sheetplex(mesh, prm)
    r = canned.canned_1(sp, prm)
    rec.outcome((str(case['m']), str(case.get('p')), case.get('tr')))
    if not r.ok:
        return 'pipeline reports failure'
    cov = models.Cover(sp, r.sheet_cuts, 6)
    ys = {0., width, 6.} if cup else {0., width}
    inv = np.linalg.inv(M)
    co = cov.coords(sp, r.sheet_cuts) @ inv[:3, :3].T + inv[:3, 3]
    ys |= set(np.round(co[:, 1], 6))
    ys = sorted(ys)
    mid = [(a + b) / 2 for a, b in zip(ys, ys[1:]) if b - a > .02]
    b = shape.bounds
    xs = np.arange(b[0] - 3, b[2] + 3, .71)
    zs = np.arange(b[1] - 3, b[3] + 3, .73)
    g = np.stack([a.ravel() for a in np.meshgrid(
        xs, [-1.] + mid + [width + 1], zs, indexing='ij')], 1)
    mp = g @ M[:3, :3].T + M[:3, 3]
    cnt, who = cov.counts(mp)
    rec.count('cells', len(g))
    if (cnt > 1).any():
        i = np.nonzero(cnt > 1)[0][0]
        return 'parts %s overlap at %s' % ([k for k in who if who[k][i]],
                                           np.round(g[i], 3).tolist())
    y_in = (g[:, 1] > 0) & (g[:, 1] < width)

    def inside(e):
        r = shapely.contains_xy(shape.buffer(-e), g[:, 0], g[:, 2]) & y_in
        if cup:
            r &= (g[:, 1] < 6) | ~shapely.contains_xy(
                hollow.buffer(e), g[:, 0], g[:, 2])
        return r
    ins, out = inside(.02), ~inside(-.02)
    joint = np.zeros(len(g), bool)
    for s in sp.intersides():
        sh = sp.sheets[s.sheet]
        other = sp.sheets[s.opposite(sp).sheet]
        if abs(np.dot(np.array(sh.normal(0), float),
                      np.array(other.normal(0), float))) < 1e-6:
            continue        # square joints are filled exactly
        d = mp @ np.array(sh.normal(0), float)
        slab = (d < float(sh.offset(0)) + .02) & (
            d > float(sh.offset(0)) - 6.02)
        rot = np.array(sh.inverse_slice_rotation, float)[:3, :3]
        v = (mp @ rot.T)[:, :2] @ np.array(s.normal, float)
        joint |= slab & (v > float(s.min_normal_offset) - .02) & (
            v < float(s.max_normal_offset) + .02)
    bad = (ins & (cnt == 0) | out & (cnt > 0)) & ~joint
    if bad.any():
        i = np.nonzero(bad)[0][0]
        return '%s at %s' % ('missing' if ins[i] else 'outside the model',
                             np.round(g[i], 3).tolist())
    for k, g_ in r.sheet_cuts.items():
        if g_.is_empty():
            # a panel that lies in a joint as a whole gives up its side
            beside = sp.sheets[k].slices_max
            for s in sp.intersides(k):
                beside = beside - s.make_fingers(
                    s.project_to_1d(sp.sheets[k].slices_max))
            if not beside.is_empty():
                return 'an empty part'
    return None


def run_case(case, rec):
    model = case['m']
    if model[0] in ('bent', 'cup'):
        return bent_case(case, rec)
    boxes, t = models.boxes_of(model)
    prm = models.conv_params(dict(case.get('p', {}), thickness=str(t)))
    M = motion(case['tr']) if case.get('tr') else None
    if case.get('stl'):
        from plycutter import canned, create_sheetplex
        sp = create_sheetplex.create_sheetplex(
            models.through_stl(models.mesh(model, M)), prm)
        r = canned.canned_1(sp, prm)
    else:
        sp, r = models.run(model, prm, M)
    rec.outcome((str(model), str(case.get('p')), case.get('tr'),
                 bool(case.get('stl'))))
    if not r.ok:
        return 'pipeline reports failure'
    cuts = dict(r.sheet_cuts)
    cov = models.Cover(sp, cuts, t)
    co = cov.coords(sp, cuts)
    inv = np.linalg.inv(M) if M is not None else np.eye(4)
    if len(co):
        co = co @ inv[:3, :3].T + inv[:3, 3]
    pts = models.cell_samples(boxes, co)
    rec.count('cells', len(pts))
    mp = pts if M is None else pts @ M[:3, :3].T + M[:3, 3]
    cnt, who = cov.counts(mp)
    want = models.in_boxes(boxes, pts)
    bad = np.nonzero(cnt != want)[0]
    if len(bad):
        b = bad[0]
        return '%d of %d cells wrong, first at %s: in %d parts %s, %s the ' \
            'model' % (len(bad), len(pts), np.round(pts[b], 3).tolist(),
                       cnt[b], [k for k in who if who[k][b]],
                       'inside' if want[b] else 'outside')
    vol = sum(float(g.area()) for g in cuts.values()) * t
    true = float(models.volume(boxes))
    nj = len(sp.intersections)
    if vol > true + 1e-3 or vol < true - 0.02 * t * t * nj * max(1, nj) \
            - 1e-3:
        return 'parts have volume %.4f, the model %.4f' % (vol, true)
    for k, g in sorted(cuts.items()):
        both = sp.sheets[k].faces[0] & sp.sheets[k].faces[1]
        for p in g.polygons():
            if case.get('stl') and p.area() < Q(1, 10**6):
                continue    # where rounded boundaries cross at a corner
            if (p & both).area() < Q(1, 2):
                return 'part %s has a loose piece of area %.3f' % (
                    k, float(p.area()))
    return None
