"""3D test models made of axis-parallel boxes, the pipeline on them, and an
independent 3D reading of the result."""
import itertools
import math

import numpy as np
import shapely
import shapely.geometry as sg
from gmpy2 import mpq as Q

T = 6
DIMS = (40, 34, 30)


def params(**kw):
    p = dict(thickness=Q(T), min_finger_width=Q(3), max_finger_width=Q(5),
             support_radius=Q(12), final_dilation=Q(1, 20), random_seed=42,
             only_sheets=None)
    for k, v in kw.items():
        p[k] = v
    return p


def conv_params(d):
    """JSON -> parameters: strings are rationals."""
    return params(**{k: (Q(v) if isinstance(v, str) else v)
                     for k, v in d.items()})


def panel_boxes(panels, dims=DIMS, t=T):
    """Panels 0..5 of a box: axis = p // 2, low/high side = p % 2."""
    out = []
    for p in panels:
        ax, side = divmod(p, 2)
        lo, hi = [0, 0, 0], list(dims)
        if side:
            lo[ax] = dims[ax] - t
        else:
            hi[ax] = t
        out.append((tuple(lo), tuple(hi)))
    return out


# name -> (thickness, boxes)
D = DIMS
SHAPES = {
    'T': (6, [((0, 0, 0), (40, 34, 6)), ((17, 0, 0), (23, 34, 30))]),
    'Tshort': (6, [((0, 0, 0), (40, 34, 6)), ((17, 8, 0), (23, 28, 30))]),
    'X': (6, [((0, 0, 12), (40, 34, 18)), ((17, 0, 0), (23, 34, 30))]),
    'Xin': (6, [((0, 0, 12), (40, 34, 18)), ((17, 7, 0), (23, 27, 30))]),
    'TT': (6, [((0, 0, 0), (40, 34, 6)), ((8, 0, 0), (14, 34, 30)),
               ((25, 0, 0), (31, 34, 30))]),
    'Tbox': (6, [((0, 0, 0), (40, 34, 6)), ((0, 0, 0), (40, 6, 30)),
                 ((17, 0, 0), (23, 34, 30))]),
    'H': (6, [((0, 0, 0), (6, 34, 30)), ((34, 0, 0), (40, 34, 30)),
              ((0, 14, 0), (40, 20, 30))]),
    'gap': (6, [((0, 0, 0), (40, 34, 6)), ((0, 0, 0), (6, 10, 30)),
                ((0, 20, 0), (6, 34, 30))]),
    'off': (6, [((0, 0, 0), (40, 34, 6)), ((34, 5, 0), (40, 29, 30)),
                ((0, 5, 24), (40, 29, 30))]),
    'L2': (2, [((0, 0, 0), (40, 34, 2)), ((0, 0, 0), (2, 34, 30))]),
    'L3': (3, [((0, 0, 0), (40, 34, 3)), ((0, 0, 0), (3, 34, 30))]),
    'L10': (10, [((0, 0, 0), (40, 34, 10)), ((0, 0, 0), (10, 34, 30))]),
    'corner3': (3, [((0, 0, 0), (40, 34, 3)), ((0, 0, 0), (3, 34, 30)),
                    ((0, 0, 0), (40, 3, 30))]),
    'lid': (6, [((0, 0, 0), (40, 34, 6)), ((5, 5, 0), (11, 29, 30))]),
    'apart': (6, [((0, 0, 0), (40, 34, 6)), ((0, 0, 20), (6, 34, 40))]),
    'notch': (6, [((0, 0, 0), (40, 34, 6)), ((0, 0, 0), (6, 34, 18)),
                  ((0, 12, 18), (6, 22, 30))]),
    'window': (6, [((0, 0, 0), (40, 34, 6)), ((0, 0, 0), (6, 34, 12)),
                   ((0, 0, 12), (6, 10, 24)), ((0, 24, 12), (6, 34, 24)),
                   ((0, 0, 24), (6, 34, 32))]),
}
MANY = {
    # more than ten sheets, so that ids have different lengths
    'rack': (6, [((0, 0, 0), (200, 16, 6))] + [
        ((8 + 16 * i, 0, 0), (14 + 16 * i, 16, 20)) for i in range(11)] + [
        ((0, 0, 0), (6, 16, 20))]),
}
# crossing walls: s1 and s10 .. s13 meet in pairs (look-ups only)
CRATE = {
    'crate': (6, [((20 * i, -10, 0), (20 * i + 6, 136, 30))
                  for i in range(7)] +
              [((-10, 20 * i, 0), (136, 20 * i + 6, 30))
               for i in range(7)]),
}
SMALL = {
    'small': (2, [((0, 0, 0), (12, 9, 2)), ((0, 0, 0), (2, 9, 8))]),
    'tiny': (1, [((0, 0, 0), (5, 8, 1)), ((0, 0, 0), (1, 8, 4))]),
}
# panels that are not of full thickness everywhere (detection only)
PARTIAL = {
    'rabbet': (6, [((0, 0, 0), (30, 34, 6)), ((30, 0, 4.5), (40, 34, 6)),
                   ((0, 0, 0), (6, 34, 40))]),
    'rabbet2': (6, [((0, 0, 0), (30, 34, 6)), ((30, 0, 2), (40, 34, 4)),
                    ((0, 0, -30), (6, 34, 40))]),
    'pocket': (6, [((0, 0, 0), (40, 10, 6)), ((0, 24, 0), (40, 34, 6)),
                   ((0, 10, 0), (12, 24, 6)), ((30, 10, 0), (40, 24, 6)),
                   ((12, 10, 0), (30, 24, 1.5)), ((0, 0, -30), (6, 34, 6))]),
    'pocket2': (6, [((0, 0, 0), (40, 10, 6)), ((0, 24, 0), (40, 34, 6)),
                    ((0, 10, 0), (12, 24, 6)), ((30, 10, 0), (40, 24, 6)),
                    ((12, 10, 0), (30, 24, 5)), ((0, 0, -30), (6, 34, 6))]),
}


def boxes_of(model):
    """model: ['panels', [..]] or a SHAPES name."""
    if isinstance(model, str):
        m = SHAPES.get(model) or MANY.get(model) or \
            SMALL.get(model) or CRATE.get(model) or \
            PARTIAL[model]
        return m[1], m[0]
    if model[0] == 'cup':       # not boxes: as many as panels
        return [None] * (len(CUPS[model[1]]) // 2 + 1), T
    return panel_boxes(model[1]), T


def mesh_data(boxes, weld=True):
    c = [sorted({b[s][ax] for b in boxes for s in (0, 1)})
         for ax in range(3)]
    filled = []
    for idx in itertools.product(*[range(len(a) - 1) for a in c]):
        mid = [(c[ax][idx[ax]] + c[ax][idx[ax] + 1]) / 2 for ax in range(3)]
        if any(all(lo[a] < mid[a] < hi[a] for a in range(3))
               for lo, hi in boxes):
            filled.append(idx)
    fs = set(filled)
    verts, faces = {}, []

    def v(i, j, k):
        return verts.setdefault((i, j, k), len(verts))

    def quad(a, b, cc, d):
        faces.append((a, b, cc))
        faces.append((a, cc, d))
    for (i, j, k) in filled:
        if (i - 1, j, k) not in fs:
            quad(v(i, j, k), v(i, j, k + 1), v(i, j + 1, k + 1),
                 v(i, j + 1, k))
        if (i + 1, j, k) not in fs:
            quad(v(i + 1, j, k), v(i + 1, j + 1, k), v(i + 1, j + 1, k + 1),
                 v(i + 1, j, k + 1))
        if (i, j - 1, k) not in fs:
            quad(v(i, j, k), v(i + 1, j, k), v(i + 1, j, k + 1),
                 v(i, j, k + 1))
        if (i, j + 1, k) not in fs:
            quad(v(i, j + 1, k), v(i, j + 1, k + 1),
                 v(i + 1, j + 1, k + 1), v(i + 1, j + 1, k))
        if (i, j, k - 1) not in fs:
            quad(v(i, j, k), v(i, j + 1, k), v(i + 1, j + 1, k),
                 v(i + 1, j, k))
        if (i, j, k + 1) not in fs:
            quad(v(i, j, k + 1), v(i + 1, j, k + 1),
                 v(i + 1, j + 1, k + 1), v(i, j + 1, k + 1))
    vs = [None] * len(verts)
    for (i, j, k), n in verts.items():
        vs[n] = (c[0][i], c[1][j], c[2][k])
    return np.array(vs, float), np.array(faces)


def bent_outline(spec, t):
    """Corners of a chain of panels (lengths and left turns in degrees):
    outer points, points offset by t to the left, closed?, directions."""
    lens, turns = spec[0::2], spec[1::2]
    closed = len(turns) == len(lens)
    dirs, a = [], 0.
    for i in range(len(lens)):
        dirs.append((np.cos(np.radians(a)), np.sin(np.radians(a))))
        a += turns[i] if i < len(turns) else 0
    p = [np.zeros(2)]
    for d, n in zip(dirs, lens):
        p.append(p[-1] + np.array(d) * n)
    q = []
    for i in range(len(p)):
        a = dirs[(i - 1) % len(dirs)] if i or closed else dirs[0]
        b = dirs[i % len(dirs)] if i < len(dirs) or closed else dirs[-1]
        na, nb = np.array([-a[1], a[0]]), np.array([-b[1], b[0]])
        q.append(p[i] + (na + nb) * t / (1 + na @ nb))
    return np.array(p), np.array(q), closed, np.array(dirs)


# boxes with walls at other angles: lengths of the walls, turns in between
CUPS = {
    'hex': [40, 60] * 6,
    'tri': [70, 120] * 3,
    'oct': [36, 45] * 8,
    'trapeze': [80, 120, 40, 60, 40, 60, 40, 120],
    'iso': [60, 144, 60, 108, 120 * math.sin(math.radians(18)), 108],
}


def cup_mesh(spec, t=6., w=30., M=None, order=None):
    """A box: mitred walls along a closed convex outline, and a bottom."""
    import trimesh
    p, q, closed, dirs = bent_outline(spec, t)
    n = len(dirs)
    assert closed and np.allclose(p[n], p[0])
    p, q = p[:n], q[:n]
    v = [(x, y, z) for y in (0., w) for x, z in p] + \
        [(x, y, z) for y in (w, t) for x, z in q]
    f = []
    for i in range(n):
        j = (i + 1) % n
        for lo in (0, n, 2 * n):
            f += [(lo + i, lo + j, lo + n + j), (lo + i, lo + n + j,
                                                 lo + n + i)]
    for i in range(1, n - 1):
        f += [(0, i + 1, i), (3 * n, 3 * n + i, 3 * n + i + 1)]
    f = np.array(f)
    m = trimesh.Trimesh(np.array(v), f, process=False)
    if m.volume < 0:
        f = f[:, ::-1]
    if order is not None:
        f = f[order(len(f))]
    m = trimesh.Trimesh(np.array(v), f, process=False)
    assert m.is_watertight and m.is_winding_consistent
    if M is not None:
        m.apply_transform(M)
    return m


def mesh(model, transform=None, face_order=None):
    import trimesh
    if model[0] == 'cup':
        return cup_mesh(CUPS[model[1]], M=transform, order=face_order)
    boxes, t = boxes_of(model)
    vs, fs = mesh_data(boxes)
    if face_order is not None:
        fs = fs[face_order(len(fs))]
    m = trimesh.Trimesh(vertices=vs, faces=fs, process=False)
    if transform is not None:
        m.apply_transform(transform)
    return m


def through_stl(m):
    """The mesh as read back from an STL file: rounded coordinates."""
    import io
    import trimesh
    return trimesh.load(io.BytesIO(m.export(file_type='stl')),
                        file_type='stl')


def volume(boxes):
    vs = Q(0)
    c = [sorted({b[s][ax] for b in boxes for s in (0, 1)})
         for ax in range(3)]
    for idx in itertools.product(*[range(len(a) - 1) for a in c]):
        lo = [c[a][idx[a]] for a in range(3)]
        hi = [c[a][idx[a] + 1] for a in range(3)]
        if any(all(b[0][a] <= lo[a] and hi[a] <= b[1][a] for a in range(3))
               for b in boxes):
            vs += (hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2])
    return vs


_sp = {}


def sheetplex(model, prm=None, transform=None, key=None):
    """Cached per process (a SheetPlex is immutable)."""
    from plycutter import create_sheetplex
    boxes, t = boxes_of(model)
    prm = dict(prm or params(thickness=Q(t)))
    k = (str(model), str(prm['thickness']), key)
    if transform is None or key is not None:
        if k in _sp:
            return _sp[k]
    sp = create_sheetplex.create_sheetplex(mesh(model, transform), prm)
    if transform is None or key is not None:
        _sp[k] = sp
    return sp


def to_shapely(g):
    ps = [sg.Polygon([(float(a), float(b)) for a, b in p.exterior()],
                     [[(float(a), float(b)) for a, b in h]
                      for h in p.holes()]) for p in g.polygons()]
    return shapely.union_all(ps) if ps else sg.Polygon()


class Cover:
    """Which parts cover which points of space."""

    def __init__(self, sp, cuts, t):
        self.parts = []
        for k in sorted(cuts):
            s = sp.sheets[k]
            self.parts.append((k, np.array(s.normal(0), float),
                               float(s.offset(0)),
                               np.array(s.inverse_slice_rotation, float),
                               to_shapely(cuts[k]), float(t)))

    def counts(self, pts):
        cnt = np.zeros(len(pts), int)
        who = {}
        for k, n, o, rot, shp, t in self.parts:
            d = pts @ n
            p2 = (pts @ rot[:3, :3].T)[:, :2]
            shapely.prepare(shp)
            c = shapely.contains_xy(shp, p2[:, 0], p2[:, 1])
            c &= (d < o) & (d > o - t)
            who[k] = c
            cnt += c
        return cnt, who

    def coords(self, sp, cuts):
        """3D coordinates of all part vertices (both faces)."""
        out = []
        for k, n, o, rot, shp, t in self.parts:
            inv = rot[:3, :3].T
            for p in cuts[k].polygons():
                for r in [p.exterior()] + list(p.holes()):
                    for a, b in r:
                        v = inv @ np.array([float(a), float(b), 0.])
                        v = v - n * (v @ n)
                        out.append(v + n * o)
                        out.append(v + n * (o - t))
        return np.array(out)


def cell_samples(boxes, coords, tol=0.02, transform=None):
    """Midpoints of the cells cut out by all box and vertex coordinates."""
    axes = []
    for ax in range(3):
        c = [b[s][ax] for b in boxes for s in (0, 1)]
        if len(coords):
            c += list(coords[:, ax])
        lo, hi = min(c) - 1, max(c) + 1
        c = sorted(c)
        cs = [lo]
        for x in c:
            if x - cs[-1] > tol:
                cs.append(x)
        cs.append(hi)
        mids = [(a + b) / 2 for a, b in zip(cs, cs[1:]) if b - a > tol]
        axes.append(np.array(mids) + 0.0013)
    g = np.meshgrid(*axes, indexing='ij')
    return np.stack([x.ravel() for x in g], axis=1)


def in_boxes(boxes, pts):
    f = np.zeros(len(pts), bool)
    for lo, hi in boxes:
        f |= np.all((pts > np.array(lo)) & (pts < np.array(hi)), axis=1)
    return f


def run(model, prm=None, transform=None, key=None):
    """(sheetplex, result of the canned pipeline)."""
    from plycutter import canned
    boxes, t = boxes_of(model)
    prm = dict(prm or params(thickness=Q(t)))
    sp = sheetplex(model, prm, transform, key)
    return sp, canned.canned_1(sp, prm)


def box2(x0, y0, x1, y1):
    from plycutter.geometry.geom2d import Geom2D
    return Geom2D.polygon([(Q(x0), Q(y0)), (Q(x1), Q(y0)), (Q(x1), Q(y1)),
                           (Q(x0), Q(y1))], reorient=True)


def cells2(cells):
    """Union of boxes (x0, y0, x1, y1)."""
    from plycutter.geometry.geom2d import Geom2D
    g = Geom2D.empty()
    for c in cells:
        g = g | box2(*c)
    return g


def make_sheet(id, face0, face1, mx, mn=None, sides=None, rot=None):
    from plycutter.sheetplex import Sheet
    from plycutter.geometry.geom2d import Geom2D
    rot = np.eye(4) if rot is None else rot
    return Sheet(id=id, faces=[face0, face1], both_faces=face0 & face1,
                 slices_max=mx, slices_min=mx if mn is None else mn,
                 slices=[mx, mx, mx], slices_height=[0, 0, 0],
                 outside_slices=[Geom2D.empty(), Geom2D.empty()],
                 sides=np.array([[0, 0, 1, T], [0, 0, -1, 0]], float)
                 if sides is None else sides,
                 slice_rotation=rot, inverse_slice_rotation=rot.T)


def two_sheets(mats, t=T):
    """A SheetPlex of two perpendicular sheets (z = 0..t and x = 0..t)
    meeting in a joint along y; material of sheet k (2D Geom2D, in
    coordinates (across, along), faces equal to the material)."""
    import pyrsistent as pyr
    from plycutter import create_sheetplex
    from plycutter.sheetplex import SheetPlex
    # sheet coordinates (x, y) for the first, (z, y) for the second
    r1 = np.eye(4)
    r1[:3, :3] = [[0, 0, 1], [0, 1, 0], [-1, 0, 0]]
    s = {
        's0': make_sheet('s0', mats[0], mats[0], mats[0],
                         sides=np.array([[0, 0, 1, t], [0, 0, -1, 0]],
                                        float)),
        's1': make_sheet('s1', mats[1], mats[1], mats[1],
                         sides=np.array([[1, 0, 0, t], [-1, 0, 0, 0]],
                                        float), rot=r1.T),
    }
    sp = SheetPlex(sheets=pyr.m(**s), intersections=pyr.m())
    return create_sheetplex.create_intersections(sp)
