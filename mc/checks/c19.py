"""Sheet detection: exactly the panels of the model, with their faces."""
import itertools

import numpy as np
from gmpy2 import mpq as Q
import shapely

from .. import models

PID = 'C19'
LEVEL = 'exploration'
CPU_LIMIT = 120
RULE = ('every non-empty set of the six panels of a box, every shape of the '
        'family, plates of three to five sides, four triangular plates, '
        'boxes with 3 to 8 walls around a bottom, panels bent at 2 to 150 '
        'degrees (open and closed chains), under rigid motions, triangle orders and triangle vertex '
        'rotations: create_sheetplex must find exactly one sheet per slab '
        '(plane, offset, thickness), whose two faces are the surface '
        'actually visible on both planes (area and every cell of the '
        'decomposition), whose material slice is the cross-section, and '
        'exactly one joint per non-parallel pair; a thickness setting off '
        'by more than the tolerance finds none; only_sheets keeps exactly '
        'those asked for. Distinct = (model, motion, order, setting).')
ASSUMPTIONS = ['meshes are welded and consistently oriented',
               'visible areas to 1e-6, offset tolerance 0.1 as in the code']


def bounds(tier):
    return dict(cases=len(items(tier)))


ORDERS = ('rev', 'r1', 'r7', 'half', 'vrot1', 'vrot2')
THICK = ('11/2', '117/20', '119/20', '6', '121/20', '123/20', '7')


def items(tier):
    out = []
    for k in range(1, 7):
        for c in itertools.combinations(range(6), k):
            if tier == 'thorough' or k < 4 or c in (
                    (0, 1, 2, 3), (0, 2, 4, 5), (0, 1, 2, 3, 4, 5),
                    (1, 2, 3, 4, 5)):
                out.append([['panels', list(c)], None, None, {}])
    for s in list(models.SHAPES) + list(models.PARTIAL) + \
            list(models.MANY) + list(models.SMALL):
        out.append([s, None, None, {}])
    for s in models.PARTIAL:
        for mv in ('gmove', 'far', 'gfar'):
            out.append([s, mv, 'r7', {}])
    for f in range(len(FINS)):
        for mv in (None, 'z30', 'gmove', 'flip') if tier == 'quick' else (
                None, 'z30', 'gen', 'x90', 'move', 'gmove', 'flip'):
            for o in (None, 'rev', 'r7'):
                out.append([['fin', f], mv, o, {}])
    for o in (None, 'rev', 'r7'):
        out.append([['fins', 4], 'gmove', o, {}])
    for f in range(len(BENT)):
        for mv in (None, 'gen', 'gmove') if tier == 'quick' else (
                None, 'z30', 'gen', 'x90', 'move', 'gmove', 'flip'):
            for o in (None, 'rev') if mv is None else ('r7',):
                out.append([['bent', f], mv, o, {}])
    for c in models.CUPS:
        for mv, o in ((None, None), ('gen', 'r7'), ('gmove', 'rev')):
            out.append([['cup', c], mv, o, {}])
    mods = [['panels', [0, 4]], ['panels', [0, 2, 5]], 'T', 'gap']
    if tier == 'thorough':
        mods += list(models.SHAPES)[:9] + [['panels', [0, 1, 2, 3, 4, 5]]]
    for i, m in enumerate(mods):
        for mv in ('z30', 'gen', 'x90', 'move', 'gmove', 'flip', 'far',
                   'gfar'):
            if tier == 'thorough' or i != 1:
                out.append([m, mv, None, {}])
        for o in ORDERS:
            if tier == 'thorough' or i != 2:
                out.append([m, None, o, {}])
        if i in (0, 3):
            for t in THICK:
                out.append([m, None, None, {'thickness': t}])
    for k in range(4):
        for c in itertools.combinations(range(3), k):
            out.append([['panels', [0, 2, 4]], None, None,
                        {'only_sheets': ['s%d' % x for x in c]}])
    return out


# corners of a plate of one to five sides, next to one of 300 x 300
FINS = [[(0, 0), (20, 0), (0, 20)], [(0, 0), (24, 3), (10, 22)],
        [(0, 0), (60, 0), (50, 30), (20, 40)],
        [(0, 0), (40, 0), (60, 20), (40, 50), (0, 30)]]


def prism(pts, t, at):
    import trimesh
    n = len(pts)
    v = [(x, at, z) for x, z in pts] + [(x, at + t, z) for x, z in pts]
    tr = [(0, i, i + 1) for i in range(1, n - 1)]
    f = tr + [tuple(i + n for i in q[::-1]) for q in tr]
    for i in range(n):
        j = (i + 1) % n
        f += [(i, j + n, j), (i, i + n, j + n)]
    m = trimesh.Trimesh(np.array(v, float), np.array(f), process=False)
    assert m.is_watertight and m.volume > 0
    return m


def fin_case(case):
    import trimesh
    from . import c20
    from plycutter import create_sheetplex
    (_, k), mv, order, _ = case
    pts = FINS[k]
    big = models.mesh_data([((0, 0, -90), (300, 300, -84))])
    fin = prism(pts, 6, 50)
    vs = np.concatenate([big[0], fin.vertices])
    fs = np.concatenate([big[1], fin.faces + len(big[0])])
    if order:
        fs = fs[order_fn(order)(len(fs))]
    m = trimesh.Trimesh(vs, fs, process=False)
    if mv:
        m.apply_transform(c20.motion(mv))
    sp = create_sheetplex.create_sheetplex(m, models.params())
    area = abs(sum(a * d - b * c for (a, b), (c, d) in
                   zip(pts, pts[1:] + pts[:1]))) / 2
    if len(sp.sheets) != 2:
        return '%d sheets instead of 2' % len(sp.sheets)
    for sh, want in zip((sp.sheets['s0'], sp.sheets['s1']), (90000, area)):
        for nm, g in (('face 0', sh.faces[0]), ('face 1', sh.faces[1]),
                      ('slice', sh.slices_max), ('slice', sh.slices_min)):
            if nm == 'slice' and sh.id == 's1':
                want = area + 300 * 6       # cuts the big plate too
            if abs(float(g.area()) - want) > 1e-3:
                return '%s of %s has area %.3f instead of %s' % (
                    nm, sh.id, float(g.area()), want)
    if len(sp.intersections) != 1:
        return 'joints %s' % sorted(sp.intersections)
    return None


def fins_case(case):
    """n triangular plates in a row on a large one."""
    import trimesh
    from . import c20
    from plycutter import create_sheetplex
    (_, n), mv, order, _ = case
    vs, fs = models.mesh_data([((0, 0, -90), (300, 300, -84))])
    area = []
    for i in range(n):
        pts = [(0, 0), (20 + 5 * i, 0), (0, 30)]
        area.append(15. * (20 + 5 * i))
        fin = prism([(x + 10, z) for x, z in pts], 6, 20 + 40 * i)
        fs = np.concatenate([fs, fin.faces + len(vs)])
        vs = np.concatenate([vs, fin.vertices])
    if order:
        fs = fs[order_fn(order)(len(fs))]
    m = trimesh.Trimesh(vs, fs, process=False)
    if mv:
        m.apply_transform(c20.motion(mv))
    sp = create_sheetplex.create_sheetplex(m, models.params())
    for f in (0, 1):
        got = sorted(float(s.faces[f].area()) for s in sp.sheets.values())
        if not np.allclose(got, area + [90000.], atol=1e-3):
            return 'faces %d have areas %s instead of %s' % (
                f, got, area + [90000.])
    if len(sp.intersections) != n:
        return 'joints %s' % sorted(sp.intersections)
    return None


# bent panels: lengths and left turns (degrees) in between; closed if a turn
# follows the last panel
BENT = [[70, 2, 60], [70, 5, 60], [70, 30, 60], [70, 60, 60], [70, 90, 60],
        [70, 120, 60], [70, 150, 60], [70, -60, 60], [70, -135, 60],
        [80, 45, 60, 45, 90], [80, 60, 70, -60, 90], [90, 100, 60, 100, 80],
        [60, 60, 60, 60, 60, 60, 60, 60, 60, 60, 60, 60],
        [90, 120, 90, 120, 90, 120], [120, 90, 80, 90, 120, 90, 80, 90]]


def bent_mesh(k, order=None, M=None, t=6., w=50.):
    """(mesh, cross-section, outline..) of a chain of bent panels."""
    import trimesh
    import shapely.geometry as sg
    p, q, closed, dirs = models.bent_outline(BENT[k], t)
    n = len(dirs)
    if closed:
        p, q = p[:n], q[:n]
    m = len(p)
    v = [(x, y, z) for y in (0., w) for x, z in list(p) + list(q)]
    f = []

    def quad(a, b, c, d):
        f.extend([(a, b, c), (a, c, d)])
    o = 2 * m
    shape = []
    for i in range(n):
        j = (i + 1) % m
        quad(i, j, m + j, m + i)
        quad(o + i, o + m + i, o + m + j, o + j)
        quad(i, o + i, o + j, j)
        quad(m + i, m + j, o + m + j, o + m + i)
        shape.append(sg.Polygon([p[i], p[j], q[j], q[i]]))
    if not closed:
        quad(0, m, o + m, o)
        quad(n, o + n, o + m + n, m + n)
    fs = np.array(f)
    mesh = trimesh.Trimesh(np.array(v), fs, process=False)
    if mesh.volume < 0:
        fs = fs[:, ::-1]
    if order is not None:
        fs = fs[order(len(fs))]
    mesh = trimesh.Trimesh(np.array(v), fs, process=False)
    assert mesh.is_watertight and mesh.is_winding_consistent
    if M is not None:
        mesh.apply_transform(M)
    return mesh, shapely.union_all(shape), p, q, closed, dirs


def bent_case(case):
    import shapely.geometry as sg
    from . import c20
    from plycutter import create_sheetplex
    (_, k), mv, order, _ = case
    t, w = 6., 50.
    M = c20.motion(mv) if mv else np.eye(4)
    mesh, shape, p, q, closed, dirs = bent_mesh(
        k, order_fn(order) if order else None, M)
    n, m = len(dirs), len(p)
    sp = create_sheetplex.create_sheetplex(mesh, models.params())
    inv = np.linalg.inv(M)
    found = {}
    for sid, s in sorted(sp.sheets.items()):
        nn = np.array(s.normal(0), float)
        off = float(s.offset(0)) - M[:3, 3] @ nn
        nn = inv[:3, :3] @ nn
        hit = []
        for i in range(n):
            left = np.array([-dirs[i][1], 0, dirs[i][0]])
            base = p[i] @ left[[0, 2]]
            if np.allclose(nn, left, atol=1e-6):
                d = off - (base + t)
            elif np.allclose(nn, -left, atol=1e-6):
                d = off + base
            else:
                continue
            if abs(d) < 1e-6:
                hit.append((i, nn @ left > 0))
        if len(hit) != 1:
            return 'sheet %s (%s, %s) is not a panel' % (sid, nn, off)
        i, up = hit[0]
        if i in found:
            return 'panel %d was found twice' % i
        found[i] = sid
        j = (i + 1) % m
        e = dirs[i]
        left = np.array([-e[1], e[0]])

        def pos(pt):
            return pt @ e
        ivs = []
        for a in ((q[i], q[j]), (p[i], p[j])):
            ivs.append([sorted((pos(a[0]), pos(a[1])))])
        if not up:
            ivs.reverse()
        cuts = []
        for h in (.1, t / 2, t - .1):
            b = p[i] + left * h
            ln = sg.LineString([b - e * 999, b + e * 999]).intersection(shape)
            cuts.append(shapely.union_all([
                sg.box(*sorted((pos(np.array(g.coords[0])),
                                pos(np.array(g.coords[-1]))))[:1], 0,
                       max(pos(np.array(g.coords[0])),
                           pos(np.array(g.coords[-1]))), w)
                for g in getattr(ln, 'geoms', [ln]) if g.length > 1e-6]))
        want = [sg.box(iv[0][0], 0, iv[0][1], w) for iv in ivs]
        want.append(shapely.union_all(cuts))
        want.append(shapely.intersection_all(cuts))
        rot = np.array(s.inverse_slice_rotation, float)[:3, :3]
        r3 = rot @ M[:3, :3]
        lev = off * (1 if up else -1)      # position along left

        def to2(x, y):
            pt = e * x + left * lev
            c = r3 @ np.array([pt[0], y, pt[1]]) + rot @ M[:3, 3]
            return c[:2]
        for nm, g, wn in zip(('face 0', 'face 1', 'largest slice',
                              'smallest slice'),
                             (s.faces[0], s.faces[1], s.slices_max,
                              s.slices_min), want):
            ws = shapely.transform(wn, lambda c: np.array(
                [to2(*a) for a in c]))
            d = models.to_shapely(g).symmetric_difference(ws).area
            if d > 1e-3:
                return '%s of panel %d differs from the model by %.4f' % (
                    nm, i, d)
    if len(found) != n:
        return '%d panels of %d found' % (len(found), n)
    pairs = {','.join(sorted((found[a], found[b])))
             for a, b in itertools.combinations(range(n), 2)
             if abs(np.cross(dirs[a], dirs[b])) > 1e-6}
    if set(sp.intersections) != pairs:
        return 'joints %s instead of %s' % (sorted(sp.intersections),
                                            sorted(pairs))
    along = M[:3, :3] @ np.array([0, 1., 0])
    for iid, inter in sp.intersections.items():
        if abs(abs(np.dot(along, np.array(inter.direction, float))) - 1) \
                > 1e-6:
            return 'joint %s runs along %s' % (iid, inter.direction)
    return None


def cup_case(case):
    """A bottom and walls around it: panels, faces, joints."""
    import shapely.geometry as sg
    from . import c20
    from plycutter import create_sheetplex
    (_, k), mv, order, _ = case
    t, w = 6., 30.
    M = c20.motion(mv) if mv else np.eye(4)
    spec = models.CUPS[k]
    p, q, _, dirs = models.bent_outline(spec, t)
    n = len(dirs)
    mesh = models.cup_mesh(spec, M=M,
                           order=order_fn(order) if order else None)
    sp = create_sheetplex.create_sheetplex(mesh, models.params())
    inv = np.linalg.inv(M)
    found = {}
    for sid, s in sorted(sp.sheets.items()):
        nn = np.array(s.normal(0), float)
        off = float(s.offset(0)) - M[:3, 3] @ nn
        nn = inv[:3, :3] @ nn
        if abs(abs(nn[1]) - 1) < 1e-6:
            key, up = n, nn[1] < 0       # face 0 is the outer one
            ok = abs(off - (0 if up else t)) < 1e-6
        else:
            key = [i for i in range(n) if abs(abs(
                nn @ [-dirs[i][1], 0, dirs[i][0]]) - 1) < 1e-6]
            # parallel walls: told apart by the side
            key = [i for i in key if any(
                abs(off - sgn * (p[i] @ [-dirs[i][1], dirs[i][0]]
                                 + d)) < 1e-6
                for sgn, d in ((1, t), (-1, 0))
                if nn @ [-dirs[i][1], 0, dirs[i][0]] * sgn > 0)]
            ok = len(key) == 1
            key = key[0] if key else None
            up = ok and nn @ [-dirs[key][1], 0, dirs[key][0]] < 0
        if not ok or key in found:
            return 'sheet %s (%s, %s) is not a panel' % (sid, nn, off)
        found[key] = sid
        # outer and inner outline, in the plane of the panel
        if key == n:
            outs = [[(x, 0., z) for x, z in r[:-1]] for r in (p, q)]
            outs[1] = [(x, t, z) for x, y, z in outs[1]]
        else:
            outs = [[(a[0], y0, a[1]), (b[0], y0, b[1]),
                     (b[0], w, b[1]), (a[0], w, a[1])]
                    for a, b, y0 in ((p[key], p[key + 1], 0.),
                                     (q[key], q[key + 1], t))]
        if not up:
            outs.reverse()
        rot = np.array(s.inverse_slice_rotation, float)[:3, :3]

        def flat(r):
            return sg.Polygon([(rot @ (M[:3, :3] @ v + M[:3, 3]))[:2]
                               for v in np.array(r)])
        want = [('face 0', s.faces[0], flat(outs[0])),
                ('face 1', s.faces[1], flat(outs[1]))]
        if key == n:
            big = flat(outs[0 if up else 1])
            want += [('largest slice', s.slices_max, big),
                     ('smallest slice', s.slices_min, big)]
        for nm, g, ws in want:
            d = models.to_shapely(g).symmetric_difference(ws).area
            if d > 1e-3:
                return '%s of panel %d differs from the model by %.4f' % (
                    nm, key, d)
    if len(found) != n + 1:
        return '%d panels of %d found' % (len(found), n + 1)
    need = [(i, (i + 1) % n) for i in range(n)] + [(i, n) for i in range(n)]
    for a, b in need:
        if ','.join(sorted((found[a], found[b]))) not in sp.intersections:
            return 'panels %d and %d meet but have no joint' % (a, b)
    return None


def weight(it):
    if it[0][0] == 'cup':
        return 7
    if it[0][0] == 'bent':
        return len(BENT[it[0][1]])
    if it[0][0] in ('fin', 'fins'):
        return 1
    return len(models.boxes_of(it[0])[0]) + (3 if it[1] else 0)


def work(item, rec):
    rec.check(item)


def filled_fn(boxes):
    def f(p):
        return any(all(lo[a] < p[a] < hi[a] for a in range(3))
                   for lo, hi in boxes)
    return f


def slabs(boxes, t):
    out = set()
    for lo, hi in boxes:
        for a in range(3):
            if hi[a] - lo[a] == t:
                out.add((a, lo[a]))
                break
    return out


def order_fn(name):
    if name == 'rev':
        return lambda n: np.arange(n)[::-1]
    if name == 'half':
        return lambda n: np.concatenate([np.arange(0, n, 2),
                                         np.arange(1, n, 2)])
    k = int(name[1:]) if name and name[0] == 'r' else 0
    return lambda n: np.roll(np.arange(n), k)


def run_case(case, rec):
    from plycutter import create_sheetplex
    from . import c20
    model, mv, order, conf = case
    if model[0] == 'fin':
        rec.outcome(case)
        return fin_case(case)
    if model[0] == 'fins':
        rec.outcome(case)
        return fins_case(case)
    if model[0] == 'cup':
        rec.outcome(case)
        return cup_case(case)
    if model[0] == 'bent':
        rec.outcome(case)
        return bent_case(case)
    boxes, t = models.boxes_of(model)
    M = c20.motion(mv) if mv else np.eye(4)
    if order and order.startswith('vrot'):
        import trimesh
        vs, fs = models.mesh_data(boxes)
        k = int(order[4:])
        mesh = trimesh.Trimesh(vs, np.roll(fs, k, axis=1), process=False)
    else:
        mesh = models.mesh(model, M if mv else None,
                           order_fn(order) if order else None)
    d = dict(conf)
    d.setdefault('thickness', str(t))
    prm = models.conv_params(d)
    rec.outcome(case)
    off = abs(prm['thickness'] - t) > Q(1, 10)
    try:
        sp = create_sheetplex.create_sheetplex(mesh, prm)
    except AssertionError:
        if off:
            return None     # refused: wrong thickness setting
        raise
    if off:
        if sp.sheets:
            return 'thickness %s finds %d sheets in a model of thickness ' \
                '%s' % (prm['thickness'], len(sp.sheets), t)
        return None
    # ids
    for k, s in sp.sheets.items():
        if s.id != k:
            return 'sheet %s has id %s' % (k, s.id)
    want = slabs(boxes, t)
    if conf.get('only_sheets') is not None:
        full = models.sheetplex(model)
        if set(sp.sheets) != set(conf['only_sheets']):
            return 'only_sheets %s gives %s' % (
                conf['only_sheets'], sorted(sp.sheets))
        for k in sp.sheets:
            if not np.allclose(sp.sheets[k].sides, full.sheets[k].sides):
                return 'only_sheets changes sheet %s' % k
        n = len(sp.sheets)
        pairs = {','.join(p) for p in
                 itertools.combinations(sorted(sp.sheets), 2)}
        if set(sp.intersections) != pairs:
            return 'joints %s' % sorted(sp.intersections)
        return None
    if set(sp.sheets) != {'s%d' % i for i in range(len(sp.sheets))}:
        return 'sheet ids are %s' % sorted(sp.sheets)
    inv = np.linalg.inv(M)
    found = {}
    fill = filled_fn(boxes)
    for k, s in sorted(sp.sheets.items()):
        n = inv[:3, :3] @ np.array(s.normal(0), float)
        if not np.allclose(np.array(s.normal(0)), -np.array(s.normal(1)),
                           atol=1e-6):
            return 'the two normals of %s are %s, %s' % (
                k, s.normal(0), s.normal(1))
        # offsets in model coordinates
        tr = M[:3, 3] @ np.array(s.normal(0), float)
        o0, o1 = float(s.offset(0)) - tr, -float(s.offset(1)) - tr
        ax = int(np.argmax(abs(n)))
        sg = 1 if n[ax] > 0 else -1
        e = np.zeros(3)
        e[ax] = sg
        if not np.allclose(n, e, atol=1e-6):
            return 'normal of %s is %s in the model' % (k, n)
        lo, hi = sorted((o0 * sg, o1 * sg))
        if abs(abs(o0 - o1) - float(prm['thickness'])) > 1e-6:
            return '%s is %s thick' % (k, abs(o0 - o1))
        key = [w for w in want if w[0] == ax and
               abs(w[1] - lo) < 0.11 and abs(w[1] + t - hi) < 0.11]
        if not key:
            return 'sheet %s (axis %d, %s..%s) is not a panel' % (
                k, ax, lo, hi)
        if key[0] in found:
            return 'panel %s found twice' % (key[0],)
        found[key[0]] = k
        # (in 'apart' the edge of one panel lies in the plane of the other)
        msg = model != 'apart' and faces(s, key[0], boxes, t, sg, M, fill)
        if msg:
            return 'sheet %s: %s' % (k, msg)
    if set(found) != want:
        return 'panels %s were not found' % sorted(want - set(found))
    pairs = {','.join(sorted((found[a], found[b])))
             for a, b in itertools.combinations(want, 2) if a[0] != b[0]}
    if set(sp.intersections) != pairs:
        return 'joints %s instead of %s' % (
            sorted(sp.intersections), sorted(pairs))
    for iid, inter in sp.intersections.items():
        if inter.id != iid or \
                ','.join(sorted(s.sheet for s in inter.sides)) != iid:
            return 'joint %s has sides %s' % (
                iid, [s.sheet for s in inter.sides])
        d = np.cross(sp.sheets[inter.sides[0].sheet].normal(0),
                     sp.sheets[inter.sides[1].sheet].normal(0))
        if abs(abs(np.dot(d, np.array(inter.direction, float))) - 1) > 1e-6:
            return 'joint %s runs along %s' % (iid, inter.direction)
        for o in inter.origins:
            for sd in inter.sides:
                sh = sp.sheets[sd.sheet]
                v = float(np.dot(o, np.array(sh.normal(0), float)))
                if min(abs(v - float(sh.offset(0))),
                       abs(v + float(sh.offset(1)))) > 1e-6:
                    return 'origin of joint %s is off its planes' % iid
    return None


def faces(s, slab, boxes, t, sg, M, fill):
    ax, lo = slab
    planes = [lo + t, lo] if sg > 0 else [lo, lo + t]
    c = [sorted({b[k][a] for b in boxes for k in (0, 1)}) for a in range(3)]
    oth = [a for a in range(3) if a != ax]
    area = [0, 0, 0, 0]
    pts, want = [], [[], [], [], []]
    for i, j in itertools.product(range(len(c[oth[0]]) - 1),
                                  range(len(c[oth[1]]) - 1)):
        m = [0., 0., 0.]
        u0, u1 = c[oth[0]][i:i + 2]
        v0, v1 = c[oth[1]][j:j + 2]
        m[oth[0]] = (u0 + u1) / 2 + .01
        m[oth[1]] = (v0 + v1) / 2 + .01
        flags = []
        for k in (0, 1):
            out = sg if k == 0 else -sg
            m[ax] = planes[k] + out * 0.03
            o = fill(m)
            m[ax] = planes[k] - out * 0.03
            flags.append(fill(m) and not o)
        hs = [lo + .1 + .01, lo + t / 2 + .01, lo + t - .1 - .01]
        ins = []
        for h in hs:
            m[ax] = h
            ins.append(fill(m))
        flags += [any(ins), all(ins)]
        m[ax] = lo + t / 2
        pts.append(list(m))
        for k in range(4):
            want[k].append(flags[k])
            if flags[k]:
                area[k] += (u1 - u0) * (v1 - v0)
    p3 = np.array(pts) @ M[:3, :3].T + M[:3, 3]
    rot = np.array(s.inverse_slice_rotation, float)
    p2 = (p3 @ rot[:3, :3].T)[:, :2]
    for k, (nm, g) in enumerate((('face 0', s.faces[0]),
                                 ('face 1', s.faces[1]),
                                 ('largest slice', s.slices_max),
                                 ('smallest slice', s.slices_min))):
        if abs(float(g.area()) - area[k]) > 1e-3:
            return '%s has area %.4f, the model %.4f' % (
                nm, float(g.area()), area[k])
        got = shapely.contains_xy(models.to_shapely(g), p2[:, 0], p2[:, 1])
        bad = np.nonzero(got != np.array(want[k]))[0]
        if len(bad):
            return '%s is wrong at %s' % (nm, pts[bad[0]])
    return None
